#ifndef VERIF_ECL_ERRORS_HPP
#define VERIF_ECL_ERRORS_HPP
#include "errors/handlers.hpp"
#include "errors/macros.hpp"
#include "errors/compile_time_assert.hpp"
#endif
