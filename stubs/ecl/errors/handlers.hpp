/* Stand-in for the external ecl_errors package. */
#ifndef VERIF_ECL_ERRORS_HANDLERS_HPP
#define VERIF_ECL_ERRORS_HANDLERS_HPP
#include "../config/macros.hpp"
#include "macros.hpp"
namespace ecl {
enum ErrorFlag {
  NoError = 0, UnknownError, SystemFailureError, OutOfRangeError, ConstructorError, DestructorError,
  ConversionError, InvalidInputError, InvalidObjectError, InvalidArgError, MemoryError, OpenError,
  CloseError, ReadError, WriteError, NotInitialisedError, PermissionsError, OutOfResourcesError,
  InterruptedError, NotSupportedError, UsageError, TimeOutError, PosixError, ConfigurationError,
  BlockingError, BusyError, IsLockedError, ConnectionError, ConnectionRefusedError, NotFoundError,
  ArgNotSupportedError, RaiiError
};
class Error {
public:
  Error() : error_flag(NoError) {}
  Error(const ErrorFlag& f) : error_flag(f) {}
  Error(const Error& e) : error_flag(e.error_flag) {}
  virtual ~Error() {}
  virtual const char* what() const {
    switch (error_flag) {
      case NoError: return "No error."; case TimeOutError: return "The operation timed out.";
      case MemoryError: return "Memory error."; case OpenError: return "Open error.";
      case ReadError: return "Read error."; case WriteError: return "Write error.";
      default: return "Error.";
    }
  }
  virtual const ErrorFlag& flag() const { return error_flag; }
  Error& operator=(const Error& e) { error_flag = e.error_flag; return *this; }
  Error& operator=(const ErrorFlag& f) { error_flag = f; return *this; }
  bool operator==(const Error& e) const { return error_flag == e.error_flag; }
  bool operator!=(const Error& e) const { return error_flag != e.error_flag; }
  bool operator==(const ErrorFlag& f) const { return error_flag == f; }
  bool operator!=(const ErrorFlag& f) const { return error_flag != f; }
protected:
  ErrorFlag error_flag;
};
}
#endif
