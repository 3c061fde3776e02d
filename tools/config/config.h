/* src/Interfaces/config.h.  Generated from config.h.in by configure.  */
/* src/Interfaces/config.h.in.  Generated from configure.ac by autoheader.  */

/* Library Visibility Attribute */
#define BONMINAMPLINTERFACELIB_EXPORT 

/* Library Visibility Attribute */
#define BONMINLIB_EXPORT 

/* Define to 1 if ASL is available. */
/* #undef BONMIN_HAS_ASL */

/* Define to 1 if Cbc is available. */
#define BONMIN_HAS_CBC 1

/* Define to 1 if the Cplex package is available */
/* #undef BONMIN_HAS_CPLEX */

/* Define to 1 if FilterSQP is available */
/* #undef BONMIN_HAS_FILTERSQP */

/* Define to 1 if Ipopt is available. */
#define BONMIN_HAS_IPOPT 1

/* Define to 1 if OsiClp is available. */
#define BONMIN_HAS_OSICLP 1

/* Define to 1 if OsiCpx is available. */
/* #undef BONMIN_HAS_OSICPX */

/* Version number of project */
#define BONMIN_VERSION "devel"

/* Major version number of project. */
#define BONMIN_VERSION_MAJOR 9999

/* Minor version number of project. */
#define BONMIN_VERSION_MINOR 9999

/* Release version number of project. */
#define BONMIN_VERSION_RELEASE 9999

/* Define to 1 if your C++ compiler doesn't accept -c and -o together. */
/* #undef CXX_NO_MINUS_C_MINUS_O */

/* Define to a macro mangling the given C identifier (in lower and upper
   case). */
/* #undef FILTERSQP_FUNC */

/* As FILTERSQP_FUNC, but for C identifiers containing underscores. */
/* #undef FILTERSQP_FUNC_ */

/* Define to 1 if you have the <dlfcn.h> header file. */
#define HAVE_DLFCN_H 1

/* Define to 1 if you have the <inttypes.h> header file. */
#define HAVE_INTTYPES_H 1

/* Define to 1 if you have the <stdint.h> header file. */
#define HAVE_STDINT_H 1

/* Define to 1 if you have the <stdio.h> header file. */
#define HAVE_STDIO_H 1

/* Define to 1 if you have the <stdlib.h> header file. */
#define HAVE_STDLIB_H 1

/* Define to 1 if you have the <strings.h> header file. */
#define HAVE_STRINGS_H 1

/* Define to 1 if you have the <string.h> header file. */
#define HAVE_STRING_H 1

/* Define to 1 if you have the <sys/stat.h> header file. */
#define HAVE_SYS_STAT_H 1

/* Define to 1 if you have the <sys/types.h> header file. */
#define HAVE_SYS_TYPES_H 1

/* Define to 1 if you have the <unistd.h> header file. */
#define HAVE_UNISTD_H 1

/* Define to the sub-directory where libtool stores uninstalled libraries. */
#define LT_OBJDIR ".libs/"

/* Define to the address where bug reports for this package should be sent. */
#define PACKAGE_BUGREPORT "https://github.com/coin-or/Bonmin/issues/new"

/* Define to the full name of this package. */
#define PACKAGE_NAME "Bonmin"

/* Define to the full name and version of this package. */
#define PACKAGE_STRING "Bonmin devel"

/* Define to the one symbol short name of this package. */
#define PACKAGE_TARNAME "coin-or-bonmin"

/* Define to the home page for this package. */
#define PACKAGE_URL "https://github.com/coin-or/Bonmin"

/* Define to the version of this package. */
#define PACKAGE_VERSION "devel"

/* Define to 1 if all of the C90 standard headers exist (not just the ones
   required in a freestanding environment). This macro is provided for
   backward compatibility; new code need not use it. */
#define STDC_HEADERS 1
