/* what /repo's configure finds in this sandbox; the harness builds do not use /repo/_build */
#define ARCH_X86_64 1
#define HAVE_SSE2 1
#define HAVE_BOOST_FUNCTIONAL_HASH_HPP 1
#define HAVE_FCNTL_H 1
#define HAVE_INTTYPES_H 1
#define HAVE_MMAP 1
#define HAVE_STDINT_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRING_H 1
#define HAVE_UNISTD_H 1
#define STDC_HEADERS 1
#define PACKAGE "alfalfa"
#define VERSION "0.1"
