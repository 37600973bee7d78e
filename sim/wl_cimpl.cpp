// One implementation file of the precompiled library (interfaces/libs), built for the simulator in namespaces of its
// own so that its template instantiations stay apart from those of the workloads.
#include CIMPL_FILE
