/* Build configuration used by the checks: as configure makes it here, without libxml2. */
#define CLIGEN_REGFD 1
#define CLIGEN_SUBMODE 1
#define HAVE_INTTYPES_H 1
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRINGS_H 1
#define HAVE_STRING_H 1
#define HAVE_STRSEP 1
#define HAVE_STRVERSCMP 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_TERMIOS_H 1
#define HAVE_UNISTD_H 1
#define STDC_HEADERS 1
#define YYTEXT_POINTER 1
#include <cligen_custom.h>
