#ifndef VERIF_ECL_ERRORS_MACROS_HPP
#define VERIF_ECL_ERRORS_MACROS_HPP
#define VERIF_STR2(x) #x
#define VERIF_STR1(x) VERIF_STR2(x)
#define LOC __FILE__ ":" VERIF_STR1(__LINE__)
#endif
