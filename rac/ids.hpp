// Long programs: independent variables whose identities are far apart.
#pragma once
#include "rac.hpp"
#include <uncertainties/ureal.hpp>
namespace rac {
inline long next_id() { return long(uncertainties::UReal<double>(0, 1).indepid()) + 1; } // of the next independent variable
inline void skip_to(long id) { for (long k = next_id(); k < id && k > 0; k = next_id()) {} }
// sometimes construct and forget thousands of variables, so that the next identity equals one in use modulo 2^16 or has another bit 15
inline void gap(Ctx &ctx, long used) {
    if (!ctx.rng.chance(1, 300)) return;
    long to = next_id();
    if (ctx.rng.chance(1, 2)) to += 65536 - (to - used) % 65536;
    else to += 32768 - to % 32768;
    ctx.log << "(independent variables are constructed and forgotten up to identity " << to << ")\n";
    skip_to(to);
}
// half way: identities beyond 2^24, where single precision cannot tell them apart
struct Midway { Midway() { midway = [] { skip_to((1L << 24) + 1); }; } };
inline Midway midway_setter;
}
