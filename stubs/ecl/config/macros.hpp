#ifndef VERIF_ECL_CONFIG_MACROS_HPP
#define VERIF_ECL_CONFIG_MACROS_HPP
#define ECL_HELPER_IMPORT
#define ECL_HELPER_EXPORT
#define ECL_HELPERS_LOCAL
#define ECL_HELPER_LOCAL
#define ECL_PUBLIC
#define ECL_LOCAL
#ifndef ECL_DEPRECATED
#define ECL_DEPRECATED
#endif
#define ECL_UNUSED __attribute__((unused))
#define ECL_DONT_INLINE __attribute__((noinline))
#endif
