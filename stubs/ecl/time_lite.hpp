#ifndef VERIF_ECL_TL_HPP
#define VERIF_ECL_TL_HPP
#include "time_lite/types.hpp"
#include "time_lite/functions.hpp"
#include "time_lite/cpu_time.hpp"
#endif
