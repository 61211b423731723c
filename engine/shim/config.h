#define VERSION "0.0.0"
#define PACKAGE "selint"
#define PACKAGE_VERSION VERSION
#define PACKAGE_NAME "selint"
#define PACKAGE_STRING "selint"
#define STDC_HEADERS 1
#define HAVE_STRDUP 1
#define HAVE_STDBOOL_H 1
#define HAVE_UNISTD_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRING_H 1
