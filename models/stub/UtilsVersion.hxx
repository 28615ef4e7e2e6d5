#ifndef VERSION_HDR
#define VERSION_HDR
#define SoDaUtils_VERSION "0.0.0"
#define SoDaUtils_GIT_ID "check"
#define SoDaUtils_VERSION_MAJOR 0
#define SoDaUtils_VERSION_MINOR 0
#define SoDaUtils_VERSION_PATCH 0
#endif
