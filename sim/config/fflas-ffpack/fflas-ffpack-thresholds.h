/* no autotuned thresholds */
