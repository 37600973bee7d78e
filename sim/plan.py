"""Which workloads decide which property."""
FIELDS = {
    "md": "Givaro::Modular<double>", "mf": "Givaro::Modular<float>",
    "bd": "Givaro::ModularBalanced<double>", "bf": "Givaro::ModularBalanced<float>",
    "mi": "Givaro::Modular<int64_t>", "bi": "Givaro::ModularBalanced<int64_t>",
    "mu": "Givaro::Modular<uint32_t>", "mw": "Givaro::Modular<int32_t>", "bw": "Givaro::ModularBalanced<int32_t>",
    "zz": "Givaro::ZRing<Givaro::Integer>", "zm": "Givaro::Modular<Givaro::Integer>", "zr": "Givaro::Modular<RecInt::ruint<7>,RecInt::ruint<8>>",
}
DEFS = {"zz": ["-DMP_RNS"], "zm": ["-DMP_MOD"], "md_df": ["-D__FFLASFFPACK_USE_DATAFLOW"], "md_sq": ["-D__FFLASFFPACK_FORCE_SEQ"]}
DEFS["md_c"] = DEFS["bd_c"] = ["-DVIA_C", "-DVIA_C_ALL", "-DVIA_C_TYPE=double"]
DEFS["mf_c"] = DEFS["bf_c"] = ["-DVIA_C", "-DVIA_C_TYPE=float"]
DEFS["mw_c"] = DEFS["bw_c"] = ["-DVIA_C", "-DVIA_C_TYPE=int32_t"]
CIMPL = ["fflas_L1_inst", "fflas_L2_inst", "fflas_L3_inst", "ffpack_inst", "fflas_lvl1", "fflas_lvl2", "fflas_lvl3", "ffpack"]  # sources of the precompiled library
for _c in CIMPL:
    DEFS[_c] = ['-DCIMPL_FILE="fflas-ffpack/interfaces/libs/%s.C"' % _c, "-DFFLAS=FFLAS_pre", "-DFFPACK=FFPACK_pre"]
WRAPPED = ["cblas_%s%s" % (t, f) for t in "ds" for f in ("gemm", "gemv", "ger", "trsm", "trmm", "syrk", "axpy", "copy", "scal", "dot", "swap")] + ["memcpy", "memmove", "memset"]
REAL = ["every header of the repository reached by the workload, compiled from the working tree (only the tuning thresholds are run-time values)", "OpenBLAS (single thread)", "Givaro", "GMP"]
STUB = ["OpenMP run-time (libgomp entry points re-implemented: teams, tasks, dependences, taskwait, barriers, single, loops, critical)", "memory allocator", "clock and getrusage", "file reads/writes of the simulated scratch directory", "std::random_device-free seeds (taken from the simulated clock)"]

# workloads defined by each source file
WL = {
    "fgemm": ["fgemm"], "tri": ["ftrsm", "ftrmm", "ftrtri", "ftrsv"], "lu": ["pluq", "ludivine"],
    "drv": ["rankdet", "solve", "invert", "echelon", "profile", "nullspace"],
    "l12": ["fdot", "fgemv", "fger", "felem", "perm"], "sym": ["fsyrk", "ftrsym", "fsytrf"],
    "sparse": ["fspmv", "fspmm"], "mp": ["gemm"], "io": ["matio", "matprint", "spio"], "chk": ["chkok", "chkbad", "chkblas"], "poly": ["charpoly", "minpoly"],
    "reent": ["clients"], "rand": ["rndmat", "rndrpm", "rndltqs"],
    "misc": ["triext", "trinv", "solvelb", "permutil"], "cimpl": [],
    "vecop": ["fvec", "fmat"], "qs": ["bruhat", "sss"], "par": ["loops", "tasks"],
}


def prop(runs, *parts, **kw):
    """parts: (source, "tag tag ..."[, "workload workload ..."])"""
    tus, wls = [], []
    for part in parts:
        src, tags = part[0], part[1].split()
        names = part[2].split() if len(part) > 2 else WL[src]
        for t in tags:
            if ("wl_" + src, t) not in tus:
                tus.append(("wl_" + src, t))
            wls += ["%s_%s" % (n, t) for n in names]
    d = {"tus": tus, "workloads": ",".join(wls), "quick": {"runs": runs, "time": 150}, "thorough": {"runs": runs * 40, "time": 1800, "minimise": 120}}
    d.update(kw)
    return d


PROPS = {
    "C01": prop(220000, ("fgemm", "md mf bd bf mi mw mu bw")),
    "C02": prop(220000, ("tri", "md mf bd mi bf mw mu bw")),
    "C03": prop(200000, ("lu", "md mf bd mi mw bf mu bw")),
    "C04": prop(200000, ("drv", "md mf mi bd mu bw"), ("misc", "md mf mi bd")),
    "C05": prop(300000, ("l12", "md mf bd mi mw mu"), ("vecop", "md mf bd mi mw bf")),
    "C06": prop(200000, ("sym", "md mf bd mi bf")),
    "C07": prop(300000, ("sparse", "md mi mf bd")),
    "C08": prop(70000, ("mp", "zz", "gemm rns det charpoly"), ("mp", "zm", "gemm alg"), ("mp", "zr", "gemm")),
    "C09": prop(220000, ("fgemm", "md bd mi"), ("tri", "md mi", "ftrsm"), ("lu", "md mf", "pluq"), ("drv", "md"), ("l12", "md mi"), ("sym", "md"), ("mp", "zz", "gemm"), ("sparse", "md", "fspmm"), ("rand", "md", ""), raceviol=True, finding_workloads="pfrand_md"),
    "C10": prop(90000, ("reent", "md mi mf"), raceviol=True, leakviol=True),
    "C11": prop(200000, ("fgemm", "md mi mw"), ("tri", "md mi"), ("lu", "md mf"), ("drv", "md"), ("l12", "md mf"), ("vecop", "md mf"), ("sym", "md"), leakviol=True),
    "C12": prop(200000, ("poly", "md mf bd mi mu mw bw")),
    "C13": prop(150000, ("chk", "md mf bd mi", "chkok"), ("vecop", "md mi", "frei"), leakviol=True),
    "C14": prop(100000, ("chk", "md mf bd mi", "chkbad chkblas"), ("vecop", "md mi", "frei")),
    "C15": prop(300000, ("rand", "md mf bd mi"), leakviol=True),
    "C16": prop(250000, ("io", "md mf bd mi mw"), leakviol=True),
    "C17": prop(120000, ("qs", "md mf mi bd"), leakviol=True, raceviol=True),
    "C18": prop(110000, ("fgemm", "md mi"), ("tri", "md"), ("lu", "md mi"), ("drv", "md"), ("sym", "md"), ("poly", "md"), ("sparse", "md"), ("l12", "md"), ("qs", "md"), ("rand", "md"),
                ("mp", "zz", "gemm rns det charpoly"), ("mp", "zm", "gemm alg"), ("reent", "md"), filter="allocfail"),
    "C19": prop(400000, ("par", "md md_df md_sq"), raceviol=True),
    "C20": prop(150000, ("fgemm", "mf"), ("tri", "mf"), ("lu", "mi"), ("drv", "mf"), ("sym", "md"), ("poly", "mf"), ("sparse", "mi"), ("l12", "mf"), ("qs", "mf"), ("rand", "mf"), ("par", "md"), ("mp", "zz", "gemm det"), ("reent", "mi")),
    "C21": prop(150000, ("cimpl", " ".join(CIMPL)), ("fgemm", "md_c"), ("tri", "md_c bd_c"), ("lu", "md_c"), ("drv", "md_c bd_c"), ("drv", "mf_c bf_c mw_c bw_c", "echelon"), ("l12", "md_c bd_c"), ("vecop", "md_c bd_c"), ("misc", "md_c")),
}
