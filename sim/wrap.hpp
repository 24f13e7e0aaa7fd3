#ifndef VERIF_WRAP_HPP
#define VERIF_WRAP_HPP
// Intercepted calls are inert (the real function runs) unless code under test is running.
#define LIVE(real) if (!g_live) return real; Guard guard_
#define RV(e) do { errno = (e); return -1; } while (0)
#define SCRIPT(call) do { if (int e_ = scripted(call)) RV(e_); } while (0)     // for functions answering -1 and errno
#define SCRIPT_RC(call) do { if (int e_ = scripted(call)) return e_; } while (0)  // for functions answering the error
#endif
