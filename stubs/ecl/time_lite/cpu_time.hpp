#ifndef VERIF_ECL_TL_CPU_HPP
#define VERIF_ECL_TL_CPU_HPP
#include <time.h>
#include "types.hpp"
#include "functions.hpp"
namespace ecl {
inline TimeError cpu_time(TimeStructure& t) {
  if (clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t) == 0) return TimeError(NoError);
  return TimeError(NotSupportedError);
}
}
#endif
