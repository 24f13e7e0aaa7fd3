/* Stand-in for the external ecl_config package (ecl_lite/ecl_tools), Linux values.
 * Not part of ecl_core; written from how ecl_core uses it. */
#ifndef VERIF_ECL_CONFIG_ECL_HPP
#define VERIF_ECL_CONFIG_ECL_HPP
#define ECL_PLATFORM ECL_IS_POSIX
#define ECL_IS_POSIX 1
#define ECL_IS_64BIT 1
#define ECL_HAS_TIMESTAMP 1
#define ECL_HAS_RT_TIMERS 1
#define ECL_HAS_MONOTONIC_CLOCK 1
#define ECL_HAS_CLOCK_NANOSLEEP 1
#define ECL_HAS_CPUTIME 1
#define ECL_HAS_SEMAPHORES 1
#define ECL_HAS_POSIX_SEMAPHORES 1
#define ECL_HAS_POSIX_TIMED_SEMAPHORES 1
#define ECL_HAS_SHARED_MEMORY 1
#define ECL_HAS_POSIX_SHARED_MEMORY 1
#define ECL_HAS_POSIX_THREADS 1
#define ECL_HAS_POSIX_PRIORITY_SCHEDULING 1
#define ECL_SIZE_OF_CHAR 1
#define ECL_SIZE_OF_SHORT 2
#define ECL_SIZE_OF_INT 4
#define ECL_SIZE_OF_LONG 8
#define ECL_SIZE_OF_LONG_LONG 8
#define ECL_SIZE_OF_FLOAT 4
#define ECL_SIZE_OF_DOUBLE 8
#define ECL_SIZE_OF_LONG_DOUBLE 16
#define ECL_CHAR_IS_SIGNED 1
#endif
