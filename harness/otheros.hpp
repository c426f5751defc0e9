// the parts of the ucontext implementation for macOS and FreeBSD
#ifndef __ASSEMBLER__
#include <boost/predef.h>
#undef BOOST_OS_MACOS
#define BOOST_OS_MACOS 1
#undef BOOST_OS_BSD_FREE
#define BOOST_OS_BSD_FREE 1
#endif
