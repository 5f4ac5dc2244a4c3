// Stand-in for the header that sot-core's own CMake configuration generates.
#ifndef VERIF_SOT_CORE_CONFIG_HH
#define VERIF_SOT_CORE_CONFIG_HH
#define SOT_CORE_DLLAPI
#define SOT_CORE_DLLIMPORT
#define SOT_CORE_DLLEXPORT
#define SOT_CORE_LOCAL
#define SOT_CORE_VERSION "verif"
#endif
