#ifndef VERIF_ECL_TL_CONFIG_HPP
#define VERIF_ECL_TL_CONFIG_HPP
#include "../config/ecl.hpp"
#endif
