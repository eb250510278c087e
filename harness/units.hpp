// Every physical unit with the factor its name says (in its base unit), written down independently of the library.
#pragma once
#include "vf.hpp"
#include "spine/platform/hal.hpp"
#include "spine/structure/units/si.hpp"

using real_t = spnu::RealRawType; // float, or double in builds that ask for it

namespace prefixed { // every prefix, also those without a named unit
struct TagAny {};
template<typename M>
using any = spnu::Unit<TagAny, M, spnu::RealRawType>;
using any_a = any<spnu::Atto>;
using any_f = any<spnu::Femto>;
using any_p = any<spnu::Pico>;
using any_n = any<spnu::Nano>;
using any_u = any<spnu::Micro>;
using any_m = any<spnu::Milli>;
using any_c = any<spnu::Centi>;
using any_d = any<spnu::Deci>;
using any_1 = any<spnu::Base>;
using any_da = any<spnu::Deca>;
using any_h = any<spnu::Hecto>;
using any_k = any<spnu::Kilo>;
using any_M = any<spnu::Mega>;
using any_G = any<spnu::Giga>;
using any_T = any<spnu::Tera>;
using any_P = any<spnu::Peta>;
using any_E = any<spnu::Exa>;
} // namespace prefixed

/// un::X describes the unit that the library calls X (two names may well turn out to mean one and the same type)
namespace un {
#define UNIT_IN(SCOPE, U, F)                                                                                           \
    struct U {                                                                                                         \
        using type = SCOPE::U;                                                                                         \
        static constexpr double f = F;                                                                                 \
        static constexpr const char* name = #U;                                                                        \
    };
#define UNIT(U, F) UNIT_IN(prefixed, U, F)
UNIT(any_a, 1e-18) UNIT(any_f, 1e-15) UNIT(any_p, 1e-12) UNIT(any_n, 1e-9) UNIT(any_u, 1e-6) UNIT(any_m, 1e-3) UNIT(any_c, 1e-2) UNIT(any_d, 1e-1)
UNIT(any_1, 1) UNIT(any_da, 10) UNIT(any_h, 100) UNIT(any_k, 1e3) UNIT(any_M, 1e6) UNIT(any_G, 1e9) UNIT(any_T, 1e12) UNIT(any_P, 1e15) UNIT(any_E, 1e18)
#undef UNIT
#define UNIT(U, F) UNIT_IN(, U, F)

UNIT(farad_p, 1e-12) UNIT(farad_n, 1e-9) UNIT(farad_u, 1e-6) UNIT(farad_m, 1e-3) UNIT(farad, 1)
UNIT(coulomb_n, 1e-9) UNIT(coulomb_u, 1e-6) UNIT(coulomb_m, 1e-3) UNIT(coulomb, 1)
UNIT(siemens_u, 1e-6) UNIT(siemens_m, 1e-3) UNIT(siemens, 1)
UNIT(amp_u, 1e-6) UNIT(amp_m, 1e-3) UNIT(amp, 1)
UNIT(joule_p, 1e-12) UNIT(joule_n, 1e-9) UNIT(joule_u, 1e-6) UNIT(joule_m, 1e-3) UNIT(joule, 1) UNIT(joule_k, 1e3) UNIT(joule_M, 1e6) UNIT(joule_G, 1e9) UNIT(joule_T, 1e12)
UNIT(newton, 1) UNIT(newton_k, 1e3)
UNIT(hertz, 1) UNIT(hertz_k, 1e3) UNIT(hertz_M, 1e6) UNIT(hertz_G, 1e9)
UNIT(meter_n, 1e-9) UNIT(meter_u, 1e-6) UNIT(meter_m, 1e-3) UNIT(meter_c, 1e-2) UNIT(meter_d, 1e-1) UNIT(meter, 1) UNIT(meter_k, 1e3)
UNIT(gram_u, 1e-6) UNIT(gram_m, 1e-3) UNIT(gram, 1) UNIT(gram_k, 1e3)
UNIT(volt_u, 1e-6) UNIT(volt_m, 1e-3) UNIT(volt, 1)
UNIT(watt_m, 1e-3) UNIT(watt, 1) UNIT(watt_k, 1e3) UNIT(watt_M, 1e6) UNIT(watt_G, 1e9)
UNIT(pascal, 1) UNIT(pascal_k, 1e3) UNIT(pascal_M, 1e6)
UNIT(ohm_m, 1e-3) UNIT(ohm, 1) UNIT(ohm_k, 1e3) UNIT(ohm_M, 1e6)
UNIT(litre_ml, 1e-3) UNIT(litre, 1) UNIT(cubic_metre, 1e3)
UNIT(time_us, 1e-6) UNIT(time_ms, 1e-3) UNIT(time_s, 1) UNIT(time_m, 60) UNIT(time_h, 3600) UNIT(time_d, 86400) UNIT(time_W, 604800) UNIT(time_Y, 31536000)
UNIT(gray, 1) UNIT(mole, 1) UNIT(katal, 1) UNIT(sievert, 1) UNIT(lux, 1) UNIT(henry, 1) UNIT(lumen, 1) UNIT(weber, 1) UNIT(tesla, 1) UNIT(becquerel, 1)
UNIT(kelvin, 1) UNIT(celsius, 1)
#undef UNIT
#undef UNIT_IN
} // namespace un
