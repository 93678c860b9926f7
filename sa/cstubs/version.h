/* Used only when the build-generated version.h is absent. */
#ifndef VERSION
#define VERSION "0"
#endif
