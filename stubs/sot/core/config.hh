#ifndef VERIF_SOT_CONFIG_HH
#define VERIF_SOT_CONFIG_HH
#define SOT_CORE_DLLAPI
#define SOT_CORE_VERSION "4.11.0"
#endif
