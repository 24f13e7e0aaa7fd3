#ifndef VERIF_ECL_CONFIG_HPP
#define VERIF_ECL_CONFIG_HPP
#include <unistd.h>  // posix option macros (cpuwatch is only compiled where they are visible)
#include "config/ecl.hpp"
#include "config/macros.hpp"
#include "config/portable_types.hpp"
#endif
