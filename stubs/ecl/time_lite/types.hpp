#ifndef VERIF_ECL_TL_TYPES_HPP
#define VERIF_ECL_TL_TYPES_HPP
#include <time.h>
namespace ecl { typedef struct timespec TimeStructure; }
#endif
