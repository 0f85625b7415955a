// Copyright (c) 2006-2022, Universities Space Research Association (USRA).
//  All rights reserved.
//
// Redistribution and use in source and binary forms, with or without
// modification, are permitted provided that the following conditions are met:
//     * Redistributions of source code must retain the above copyright
//       notice, this list of conditions and the following disclaimer.
//     * Redistributions in binary form must reproduce the above copyright
//       notice, this list of conditions and the following disclaimer in the
//       documentation and/or other materials provided with the distribution.
//     * Neither the name of the Universities Space Research Association nor the
//       names of its contributors may be used to endorse or promote products
//       derived from this software without specific prior written permission.
//
// THIS SOFTWARE IS PROVIDED BY USRA ``AS IS'' AND ANY EXPRESS OR IMPLIED
// WARRANTIES, INCLUDING, BUT NOT LIMITED TO, THE IMPLIED WARRANTIES OF
// MERCHANTABILITY AND FITNESS FOR A PARTICULAR PURPOSE ARE
// DISCLAIMED. IN NO EVENT SHALL USRA BE LIABLE FOR ANY DIRECT, INDIRECT,
// INCIDENTAL, SPECIAL, EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING,
// BUT NOT LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES; LOSS
// OF USE, DATA, OR PROFITS; OR BUSINESS INTERRUPTION) HOWEVER CAUSED AND
// ON ANY THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT LIABILITY, OR
// TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE
// USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.

// CMake template for plexil-config.h

#ifndef PLEXIL_CONFIG_H
#define PLEXIL_CONFIG_H

//
// Headers
//

#define HAVE_CASSERT 1
#define HAVE_CERRNO 1
#define HAVE_CFLOAT 1
#define HAVE_CINTTYPES 1
#define HAVE_CLIMITS 1
#define HAVE_CMATH 1
#define HAVE_CSIGNAL 1
#define HAVE_CSTDDEF 1
#define HAVE_CSTDINT 1
#define HAVE_CSTDIO 1
#define HAVE_CSTDLIB 1
#define HAVE_CSTRING 1
#define HAVE_CTIME 1

#define HAVE_ASSERT_H 1
#define HAVE_ERRNO_H 1
#define HAVE_FLOAT_H 1
#define HAVE_INTTYPES_H 1
#define HAVE_LIMITS_H 1
#define HAVE_MATH_H 1
#define HAVE_SIGNAL_H 1
#define HAVE_STDDEF_H 1
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRING_H 1
#define HAVE_TIME_H 1

#define HAVE_GOOD_INTTYPES_H 1
#define HAVE_GOOD_STDINT_H 1

/* POSIX headers */

#define HAVE_DLFCN_H 1
#define HAVE_FCNTL_H 1
#define HAVE_PTHREAD_H 1
#define HAVE_SEMAPHORE_H 1
#define HAVE_UNISTD_H 1
/* #undef HAVE_SYS_STAT_H */
#define HAVE_SYS_TIME_H 1

/* Networking */

#define HAVE_NETDB_H 1
#define HAVE_POLL_H 1
#define HAVE_ARPA_INET_H 1
#define HAVE_NETINET_IN_H 1
#define HAVE_SYS_SOCKET_H 1

/* glibc backtrace */
#define HAVE_EXECINFO_H 1

/* Grand Central Dispatch */
/* #undef HAVE_DISPATCH_DISPATCH_H */

/* Mach semaphores (macOS) */
/* #undef HAVE_MACH_SEMAPHORE_H */

/* Old vxWorks */
/* #undef HAVE_SOCKLIB_H */
/* #undef HAVE_SYSLIB_H */
/* #undef HAVE_VXWORKS_H */
#define HAVE_SYS_TIMES_H 1

//
// Functions
//

/* Time and timers */
#define HAVE_CLOCK_GETTIME 1
#define HAVE_CTIME_R 1
#define HAVE_GETITIMER 1
#define HAVE_GETTIMEOFDAY 1
#define HAVE_LOCALTIME_R 1

#define HAVE_TIMER_CREATE 1

/* Other POSIX specifics */
/* #undef HAVE_GETCWD */
#define HAVE_GETHOSTBYNAME 1
#define HAVE_GETPID 1
#define HAVE_ISATTY 1

/* Math - note that older vxWorks releases didn't have these by default */
#define HAVE_CEIL 1
#define HAVE_FLOOR 1
#define HAVE_ROUND 1
#define HAVE_SQRT 1
#define HAVE_TRUNC 1

//
// Types
//

#define HAVE_SUSECONDS_T 1

//
// Build time options
//

#define PIC 1
/* #undef NO_DEBUG_MESSAGE_SUPPORT */
#define PLEXIL_WITH_THREADS 1
/* no HAVE_DEBUG_LISTENER */
/* no IPC */



#endif /* PLEXIL_CONFIG_H */
