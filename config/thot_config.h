#ifndef ___SRC_THOT_CONFIG_H
#define ___SRC_THOT_CONFIG_H 1
 
/*
./src/thot_config.h.
Generated
automatically
at
end
of
configure.
*/
/* config.h.  Generated from config.h.in by configure.  */
/* config.h.in.  Generated from configure.ac by autoheader.  */

/* Alternative path storing so files, if not defined, libdir is used */
#ifndef THOT_ALT_LIBDIR 
#define THOT_ALT_LIBDIR  "" 
#endif

/* Define if casmacat home edition configuration is enabled */
/* #undef THOT_CASMACAT_HE */

/* Define if the pre/post-processing code is disabled */
#ifndef THOT_DISABLE_PREPROC_CODE 
#define THOT_DISABLE_PREPROC_CODE  /**/ 
#endif

/* Define if updating of log-linear weights is enabled */
/* #undef THOT_ENABLE_UPDATE_LLWEIGHTS */

/* Define if Viterbi training is enabled for HMM-based alignment models */
/* #undef THOT_ENABLE_VITERBI_TRAINING */

/* Define if faster-rnnlm library is enabled */
/* #undef THOT_FASTER_RNNLM_LIB_ENABLED */

/* Define to 1 if you have the `argz_add' function. */
#ifndef THOT_HAVE_ARGZ_ADD 
#define THOT_HAVE_ARGZ_ADD  1 
#endif

/* Define to 1 if you have the `argz_append' function. */
#ifndef THOT_HAVE_ARGZ_APPEND 
#define THOT_HAVE_ARGZ_APPEND  1 
#endif

/* Define to 1 if you have the `argz_count' function. */
#ifndef THOT_HAVE_ARGZ_COUNT 
#define THOT_HAVE_ARGZ_COUNT  1 
#endif

/* Define to 1 if you have the `argz_create_sep' function. */
#ifndef THOT_HAVE_ARGZ_CREATE_SEP 
#define THOT_HAVE_ARGZ_CREATE_SEP  1 
#endif

/* Define to 1 if you have the <argz.h> header file. */
#ifndef THOT_HAVE_ARGZ_H 
#define THOT_HAVE_ARGZ_H  1 
#endif

/* Define to 1 if you have the `argz_insert' function. */
#ifndef THOT_HAVE_ARGZ_INSERT 
#define THOT_HAVE_ARGZ_INSERT  1 
#endif

/* Define to 1 if you have the `argz_next' function. */
#ifndef THOT_HAVE_ARGZ_NEXT 
#define THOT_HAVE_ARGZ_NEXT  1 
#endif

/* Define to 1 if you have the `argz_stringify' function. */
#ifndef THOT_HAVE_ARGZ_STRINGIFY 
#define THOT_HAVE_ARGZ_STRINGIFY  1 
#endif

/* Define to 1 if you have the `closedir' function. */
#ifndef THOT_HAVE_CLOSEDIR 
#define THOT_HAVE_CLOSEDIR  1 
#endif

/* Define if the cppunit library is present */
#ifndef THOT_HAVE_CPPUNIT 
#define THOT_HAVE_CPPUNIT  /**/ 
#endif

/* Define if C++11 is supported */
#ifndef THOT_HAVE_CXX11 
#define THOT_HAVE_CXX11  /**/ 
#endif

/* Define if the db_cxx library is present */
#ifndef THOT_HAVE_DB_CXX_LIB 
#define THOT_HAVE_DB_CXX_LIB  /**/ 
#endif

/* Define to 1 if you have the declaration of `cygwin_conv_path', and to 0 if
   you don't. */
/* #undef THOT_HAVE_DECL_CYGWIN_CONV_PATH */

/* Define to 1 if you have the <dirent.h> header file. */
#ifndef THOT_HAVE_DIRENT_H 
#define THOT_HAVE_DIRENT_H  1 
#endif

/* Define if you have the GNU dld library. */
/* #undef THOT_HAVE_DLD */

/* Define to 1 if you have the <dld.h> header file. */
/* #undef THOT_HAVE_DLD_H */

/* Define to 1 if you have the `dlerror' function. */
#ifndef THOT_HAVE_DLERROR 
#define THOT_HAVE_DLERROR  1 
#endif

/* Define to 1 if you have the <dlfcn.h> header file. */
#ifndef THOT_HAVE_DLFCN_H 
#define THOT_HAVE_DLFCN_H  1 
#endif

/* Define to 1 if you have the <dl.h> header file. */
/* #undef THOT_HAVE_DL_H */

/* Define if you have the _dyld_func_lookup function. */
/* #undef THOT_HAVE_DYLD */

/* Define to 1 if the system has the type `error_t'. */
#ifndef THOT_HAVE_ERROR_T 
#define THOT_HAVE_ERROR_T  1 
#endif

/* Define to 1 if you have the <float.h> header file. */
#ifndef THOT_HAVE_FLOAT_H 
#define THOT_HAVE_FLOAT_H  1 
#endif

/* Define to 1 if fseeko (and presumably ftello) exists and is declared. */
#ifndef THOT_HAVE_FSEEKO 
#define THOT_HAVE_FSEEKO  1 
#endif

/* Define to 1 if you have the `getdelim' function. */
#ifndef THOT_HAVE_GETDELIM 
#define THOT_HAVE_GETDELIM  1 
#endif

/* Define if getline() is supported */
#ifndef THOT_HAVE_GETLINE 
#define THOT_HAVE_GETLINE  /**/ 
#endif

/* Define to 1 if you have the `gettimeofday' function. */
#ifndef THOT_HAVE_GETTIMEOFDAY 
#define THOT_HAVE_GETTIMEOFDAY  1 
#endif

/* Define if the gmp library is present */
#ifndef THOT_HAVE_GMP 
#define THOT_HAVE_GMP  /**/ 
#endif

/* Define to 1 if you have the <inttypes.h> header file. */
#ifndef THOT_HAVE_INTTYPES_H 
#define THOT_HAVE_INTTYPES_H  1 
#endif

/* Define if the leveldb library is present */
#ifndef THOT_HAVE_LEVELDB_LIB 
#define THOT_HAVE_LEVELDB_LIB  /**/ 
#endif

/* Define to 1 if you have the `bz2' library (-lbz2). */
#ifndef THOT_HAVE_LIBBZ2 
#define THOT_HAVE_LIBBZ2  1 
#endif

/* Define to 1 if you have the `cppunit' library (-lcppunit). */
#ifndef THOT_HAVE_LIBCPPUNIT 
#define THOT_HAVE_LIBCPPUNIT  1 
#endif

/* Define to 1 if you have the `db_cxx' library (-ldb_cxx). */
#ifndef THOT_HAVE_LIBDB_CXX 
#define THOT_HAVE_LIBDB_CXX  1 
#endif

/* Define if you have the libdl library or equivalent. */
#ifndef THOT_HAVE_LIBDL 
#define THOT_HAVE_LIBDL  1 
#endif

/* Define if libdlloader will be built on this platform */
#ifndef THOT_HAVE_LIBDLLOADER 
#define THOT_HAVE_LIBDLLOADER  1 
#endif

/* Define to 1 if you have the `gmp' library (-lgmp). */
#ifndef THOT_HAVE_LIBGMP 
#define THOT_HAVE_LIBGMP  1 
#endif

/* Define to 1 if you have the `leveldb' library (-lleveldb). */
#ifndef THOT_HAVE_LIBLEVELDB 
#define THOT_HAVE_LIBLEVELDB  1 
#endif

/* Define to 1 if you have the `lzma' library (-llzma). */
#ifndef THOT_HAVE_LIBLZMA 
#define THOT_HAVE_LIBLZMA  1 
#endif

/* Define to 1 if you have the `m' library (-lm). */
#ifndef THOT_HAVE_LIBM 
#define THOT_HAVE_LIBM  1 
#endif

/* Define to 1 if you have the `pthread' library (-lpthread). */
#ifndef THOT_HAVE_LIBPTHREAD 
#define THOT_HAVE_LIBPTHREAD  1 
#endif

/* Define to 1 if you have the `z' library (-lz). */
#ifndef THOT_HAVE_LIBZ 
#define THOT_HAVE_LIBZ  1 
#endif

/* Define to 1 if you have the <limits.h> header file. */
#ifndef THOT_HAVE_LIMITS_H 
#define THOT_HAVE_LIMITS_H  1 
#endif

/* Define this if a modern libltdl is already installed */
#ifndef THOT_HAVE_LTDL 
#define THOT_HAVE_LTDL  1 
#endif

/* Define to 1 if you have the <mach-o/dyld.h> header file. */
/* #undef THOT_HAVE_MACH_O_DYLD_H */

/* define if the compiler implements namespaces */
#ifndef THOT_HAVE_NAMESPACES 
#define THOT_HAVE_NAMESPACES  /**/ 
#endif

/* Define to 1 if you have the `opendir' function. */
#ifndef THOT_HAVE_OPENDIR 
#define THOT_HAVE_OPENDIR  1 
#endif

/* Define to 1 if you have the `pow' function. */
#ifndef THOT_HAVE_POW 
#define THOT_HAVE_POW  1 
#endif

/* Define if libtool can extract symbol lists from object files. */
#ifndef THOT_HAVE_PRELOADED_SYMBOLS 
#define THOT_HAVE_PRELOADED_SYMBOLS  1 
#endif

/* Define if the pthread library is present */
#ifndef THOT_HAVE_PTHREAD 
#define THOT_HAVE_PTHREAD  /**/ 
#endif

/* Define to 1 if you have the `readdir' function. */
#ifndef THOT_HAVE_READDIR 
#define THOT_HAVE_READDIR  1 
#endif

/* Define to 1 if your system has a GNU libc compatible `realloc' function,
   and to 0 otherwise. */
#ifndef THOT_HAVE_REALLOC 
#define THOT_HAVE_REALLOC  1 
#endif

/* Define if you have the shl_load function. */
/* #undef THOT_HAVE_SHL_LOAD */

/* define if the compiler supports ISO C++ standard library */
#ifndef THOT_HAVE_STD 
#define THOT_HAVE_STD  /**/ 
#endif

/* Define to 1 if stdbool.h conforms to C99. */
#ifndef THOT_HAVE_STDBOOL_H 
#define THOT_HAVE_STDBOOL_H  1 
#endif

/* Define to 1 if you have the <stdint.h> header file. */
#ifndef THOT_HAVE_STDINT_H 
#define THOT_HAVE_STDINT_H  1 
#endif

/* Define to 1 if you have the <stdio.h> header file. */
#ifndef THOT_HAVE_STDIO_H 
#define THOT_HAVE_STDIO_H  1 
#endif

/* Define to 1 if you have the <stdlib.h> header file. */
#ifndef THOT_HAVE_STDLIB_H 
#define THOT_HAVE_STDLIB_H  1 
#endif

/* define if the compiler supports Standard Template Library */
#ifndef THOT_HAVE_STL 
#define THOT_HAVE_STL  /**/ 
#endif

/* Define to 1 if you have the <strings.h> header file. */
#ifndef THOT_HAVE_STRINGS_H 
#define THOT_HAVE_STRINGS_H  1 
#endif

/* Define to 1 if you have the <string.h> header file. */
#ifndef THOT_HAVE_STRING_H 
#define THOT_HAVE_STRING_H  1 
#endif

/* Define to 1 if you have the `strlcat' function. */
#ifndef THOT_HAVE_STRLCAT 
#define THOT_HAVE_STRLCAT  1 
#endif

/* Define to 1 if you have the `strlcpy' function. */
#ifndef THOT_HAVE_STRLCPY 
#define THOT_HAVE_STRLCPY  1 
#endif

/* Define to 1 if you have the <sys/dl.h> header file. */
/* #undef THOT_HAVE_SYS_DL_H */

/* Define to 1 if you have the <sys/stat.h> header file. */
#ifndef THOT_HAVE_SYS_STAT_H 
#define THOT_HAVE_SYS_STAT_H  1 
#endif

/* Define to 1 if you have the <sys/time.h> header file. */
#ifndef THOT_HAVE_SYS_TIME_H 
#define THOT_HAVE_SYS_TIME_H  1 
#endif

/* Define to 1 if you have the <sys/types.h> header file. */
#ifndef THOT_HAVE_SYS_TYPES_H 
#define THOT_HAVE_SYS_TYPES_H  1 
#endif

/* Define to 1 if you have the <unistd.h> header file. */
#ifndef THOT_HAVE_UNISTD_H 
#define THOT_HAVE_UNISTD_H  1 
#endif

/* This value is set to 1 to indicate that the system argz facility works */
#ifndef THOT_HAVE_WORKING_ARGZ 
#define THOT_HAVE_WORKING_ARGZ  1 
#endif

/* Define if the lzma library is present */
#ifndef THOT_HAVE_ZLIB 
#define THOT_HAVE_ZLIB  /**/ 
#endif

/* Define to 1 if the system has the type `_Bool'. */
/* #undef THOT_HAVE__BOOL */

/* Define if kenlm library is enabled */
/* #undef THOT_KENLM_LIB_ENABLED */

/* Variable name used to represent library directory for so files */
#ifndef THOT_LIBDIR_VARNAME 
#define THOT_LIBDIR_VARNAME  "libdir" 
#endif

/* File name with LM_State type definition */
#ifndef THOT_LM_STATE_H 
#define THOT_LM_STATE_H  "LM_State.h" 
#endif

/* Define if the OS needs help to load dependent libraries for dlopen(). */
/* #undef THOT_LTDL_DLOPEN_DEPLIBS */

/* Define to the system default library search path. */
#ifndef THOT_LT_DLSEARCH_PATH 
#define THOT_LT_DLSEARCH_PATH  "/lib:/usr/lib:/usr/lib/x86_64-linux-gnu/libfakeroot:/app/lean4-4.33.0/build/release/stage1/lib/lean:/usr/local/lib:/usr/local/lib/x86_64-linux-gnu:/lib/x86_64-linux-gnu:/usr/lib/x86_64-linux-gnu:/lib32:/usr/lib32" 
#endif

/* The archive extension */
#ifndef THOT_LT_LIBEXT 
#define THOT_LT_LIBEXT  "a" 
#endif

/* The archive prefix */
#ifndef THOT_LT_LIBPREFIX 
#define THOT_LT_LIBPREFIX  "lib" 
#endif

/* Define to the extension used for runtime loadable modules, say, ".so". */
#ifndef THOT_LT_MODULE_EXT 
#define THOT_LT_MODULE_EXT  ".so" 
#endif

/* Define to the name of the environment variable that determines the run-time
   module search path. */
#ifndef THOT_LT_MODULE_PATH_VAR 
#define THOT_LT_MODULE_PATH_VAR  "LD_LIBRARY_PATH" 
#endif

/* Define to the sub-directory where libtool stores uninstalled libraries. */
#ifndef THOT_LT_OBJDIR 
#define THOT_LT_OBJDIR  ".libs/" 
#endif

/* Define to the shared library suffix, say, ".dylib". */
/* #undef THOT_LT_SHARED_EXT */

/* Define to the shared archive member specification, say "(shr.o)". */
/* #undef THOT_LT_SHARED_LIB_MEMBER */

/* Define if dlsym() requires a leading underscore in symbol names. */
/* #undef THOT_NEED_USCORE */

/* Name of package */
#ifndef THOT_PACKAGE 
#define THOT_PACKAGE  "thot" 
#endif

/* Define to the address where bug reports for this package should be sent. */
#ifndef THOT_PACKAGE_BUGREPORT 
#define THOT_PACKAGE_BUGREPORT  "daniel.ortiz.phd@gmail.com" 
#endif

/* Define to the full name of this package. */
#ifndef THOT_PACKAGE_NAME 
#define THOT_PACKAGE_NAME  "thot" 
#endif

/* Define to the full name and version of this package. */
#ifndef THOT_PACKAGE_STRING 
#define THOT_PACKAGE_STRING  "thot 3.2.0Beta" 
#endif

/* Define to the one symbol short name of this package. */
#ifndef THOT_PACKAGE_TARNAME 
#define THOT_PACKAGE_TARNAME  "thot" 
#endif

/* Define to the home page for this package. */
#ifndef THOT_PACKAGE_URL 
#define THOT_PACKAGE_URL  "" 
#endif

/* Define to the version of this package. */
#ifndef THOT_PACKAGE_VERSION 
#define THOT_PACKAGE_VERSION  "3.2.0Beta" 
#endif

/* File name with PpInfo type definition */
#ifndef THOT_PPINFO_H 
#define THOT_PPINFO_H  "PpInfo.h" 
#endif

/* File name with SmtModel type definition */
#ifndef THOT_SMTMODEL_H 
#define THOT_SMTMODEL_H  "SmtModel.h" 
#endif

/* Define to 1 if all of the C90 standard headers exist (not just the ones
   required in a freestanding environment). This macro is provided for
   backward compatibility; new code need not use it. */
#ifndef THOT_STDC_HEADERS 
#define THOT_STDC_HEADERS  1 
#endif

/* Define to 1 if your <sys/time.h> declares `struct tm'. */
/* #undef THOT_TM_IN_SYS_TIME */

/* Version number of package */
#ifndef THOT_VERSION 
#define THOT_VERSION  "3.2.0Beta" 
#endif

/* Number of bits in a file offset, on hosts where this is settable. */
/* #undef THOT__FILE_OFFSET_BITS */

/* Define to 1 to make fseeko visible on some hosts (e.g. glibc 2.2). */
/* #undef THOT__LARGEFILE_SOURCE */

/* Define for large files, on AIX-style hosts. */
/* #undef THOT__LARGE_FILES */

/* Define so that glibc/gnulib argp.h does not typedef error_t. */
/* #undef THOT___error_t_defined */

/* Define to empty if `const' does not conform to ANSI C. */
/* #undef _thot_const */

/* Define to a type to use for 'error_t' if it is not otherwise available. */
/* #undef _thot_error_t */

/* Define to `long int' if <sys/types.h> does not define. */
/* #undef _thot_off_t */

/* Define to rpl_realloc if the replacement function should be used. */
/* #undef _thot_realloc */

/* Define to `unsigned int' if <sys/types.h> does not define. */
/* #undef _thot_size_t */

/* Define to `int' if <sys/types.h> does not define. */
/* #undef _thot_ssize_t */
 
/* once:
___SRC_THOT_CONFIG_H
*/
#endif
#ifndef THOT_LIBDIR
#define THOT_LIBDIR "/usr/local/lib/thot"
#endif
