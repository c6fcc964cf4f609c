#ifndef VERIF_DG_CONFIG_HH
#define VERIF_DG_CONFIG_HH
// Interface stub of the dynamic-graph package (absent from this sandbox).
#define DYNAMIC_GRAPH_DLLAPI
#define DYNAMIC_GRAPH_VERSION "4.4.0"
#define DYNAMIC_GRAPH_DLLIMPORT
#define DYNAMIC_GRAPH_DLLEXPORT
#define DYNAMIC_GRAPH_DLLLOCAL
#define DYNAMIC_GRAPH_LOCAL
#endif
