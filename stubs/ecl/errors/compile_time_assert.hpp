#ifndef VERIF_ECL_CTA_HPP
#define VERIF_ECL_CTA_HPP
#define ecl_compile_time_assert(e) static_assert(e, "ecl_compile_time_assert")
#endif
