/* Stand-in for the external ecl_time_lite package (posix rt variant). */
#ifndef VERIF_ECL_TL_FUNCTIONS_HPP
#define VERIF_ECL_TL_FUNCTIONS_HPP
#include <time.h>
#include <errno.h>
#include "types.hpp"
#include "../errors/handlers.hpp"
namespace ecl {
class TimeError : public Error {
public:
  TimeError(const ErrorFlag& f = NoError) : Error(f) {}
};
inline TimeError epoch_time(TimeStructure& t) {
  if (clock_gettime(CLOCK_MONOTONIC, &t) == 0) return TimeError(NoError);
  switch (errno) {
    case EINVAL: return TimeError(NotSupportedError);
    case EPERM: return TimeError(PermissionsError);
    default: return TimeError(UnknownError);
  }
}
inline TimeError realtime_epoch_time(TimeStructure& t) {
  if (clock_gettime(CLOCK_REALTIME, &t) == 0) return TimeError(NoError);
  return TimeError(errno == EINVAL ? NotSupportedError : UnknownError);
}
inline TimeError sleep_until(const TimeStructure& t) {
  int r = clock_nanosleep(CLOCK_MONOTONIC, TIMER_ABSTIME, &t, 0);
  switch (r) {
    case 0: return TimeError(NoError);
    case EFAULT: return TimeError(MemoryError);
    case EINTR: return TimeError(InterruptedError);
    case EINVAL: return TimeError(InvalidArgError);
    default: return TimeError(UnknownError);
  }
}
}
#endif
