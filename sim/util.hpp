// helpers for scenarios
#ifndef VERIF_UTIL_HPP
#define VERIF_UTIL_HPP
#include "sim.hpp"
#include "vk.hpp"
#include <ecl/exceptions/standard_exception.hpp>
#include <ecl/errors/handlers.hpp>
#include <new>
#define NP sim::NoPreempt np_
// Run an expression of the system under test; out: 0 ok, 1 StandardException, 2 bad_alloc.
// Anything else escapes (and is a violation).
#ifdef ECL_DISABLE_EXCEPTIONS
static const bool exceptions_on = false;
namespace ecl {
struct StandardException {                 // stands in for the missing class; only devices of scenarios throw it
  ErrorFlag f;
  StandardException(const char*, ErrorFlag e, const char* = "") : f(e) {}
  ErrorFlag flag() const { return f; }
  const char* what() const { return ""; }
};
}
#else
static const bool exceptions_on = true;
#endif
#define TRY(out, flagvar, expr) \
  do { out = 0; flagvar = ecl::NoError; \
    try { expr; } \
    catch (const ecl::StandardException& e_) { sim::Guard g_; out = 1; flagvar = e_.flag(); } \
    catch (const std::bad_alloc&) { sim::Guard g_; out = 2; flagvar = ecl::MemoryError; } } while (0)
#endif
