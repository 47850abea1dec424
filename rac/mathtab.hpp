// Oracle for the math functions: values and derivatives written from textbook formulas, in long double.
#pragma once
#include "rac.hpp"
namespace rac {
using R = long double;
struct Un { const char *name; bool (*dom)(R); R (*f)(R); R (*d)(R); R (*dd)(R); };
struct Bi { const char *name; bool (*dom)(R, R); R (*f)(R, R); R (*dx)(R, R); R (*dy)(R, R); R (*dxx)(R, R); R (*dyy)(R, R); R (*dxy)(R, R); };
static const R LN2 = 0.693147180559945309417232121458176568L, LN10 = 2.302585092994045684017991454684364208L, TWO_SQRTPI = 1.128379167095512573896158903121545172L;
#define D(e) [](R x) -> R { return e; }
#define B(e) [](R x) -> bool { return e; }
static const Un unary_table[] = {
    {"abs", B(x != 0), D(fabsl(x)), D(x > 0 ? 1 : -1), D(0)},
    {"exp", B(fabsl(x) < 50), D(expl(x)), D(expl(x)), D(expl(x))},
    {"exp2", B(fabsl(x) < 60), D(exp2l(x)), D(LN2 * exp2l(x)), D(LN2 * LN2 * exp2l(x))},
    {"expm1", B(fabsl(x) < 50), D(expm1l(x)), D(expl(x)), D(expl(x))},
    {"log", B(x > 0), D(logl(x)), D(1 / x), D(-1 / (x * x))},
    {"log10", B(x > 0), D(log10l(x)), D(1 / (x * LN10)), D(-1 / (x * x * LN10))},
    {"log2", B(x > 0), D(log2l(x)), D(1 / (x * LN2)), D(-1 / (x * x * LN2))},
    {"log1p", B(x > -0.999L), D(log1pl(x)), D(1 / (1 + x)), D(-1 / ((1 + x) * (1 + x)))},
    {"sqrt", B(x > 0), D(sqrtl(x)), D(0.5L / sqrtl(x)), D(-0.25L / (x * sqrtl(x)))},
    {"cbrt", B(x != 0), D(cbrtl(x)), D(1 / (3 * cbrtl(x) * cbrtl(x))), D(-2 / (9 * x * cbrtl(x) * cbrtl(x)))},
    {"sin", B(fabsl(x) < 1e4L), D(sinl(x)), D(cosl(x)), D(-sinl(x))},
    {"cos", B(fabsl(x) < 1e4L), D(cosl(x)), D(-sinl(x)), D(-cosl(x))},
    {"tan", B(fabsl(x) < 1e4L && fabsl(cosl(x)) > 1e-3L), D(tanl(x)), D(1 / (cosl(x) * cosl(x))), D(2 * sinl(x) / (cosl(x) * cosl(x) * cosl(x)))},
    {"asin", B(fabsl(x) < 0.999L), D(asinl(x)), D(1 / sqrtl(1 - x * x)), D(x / powl(1 - x * x, 1.5L))},
    {"acos", B(fabsl(x) < 0.999L), D(acosl(x)), D(-1 / sqrtl(1 - x * x)), D(-x / powl(1 - x * x, 1.5L))},
    {"atan", B(true), D(atanl(x)), D(1 / (1 + x * x)), D(-2 * x / ((1 + x * x) * (1 + x * x)))},
    {"sinh", B(fabsl(x) < 50), D(sinhl(x)), D(coshl(x)), D(sinhl(x))},
    {"cosh", B(fabsl(x) < 50), D(coshl(x)), D(sinhl(x)), D(coshl(x))},
    {"tanh", B(true), D(tanhl(x)), D(fabsl(x) > 100 ? 0 : 1 / (coshl(x) * coshl(x))), D(fabsl(x) > 100 ? 0 : -2 * tanhl(x) / (coshl(x) * coshl(x)))},
    {"asinh", B(true), D(asinhl(x)), D(1 / sqrtl(1 + x * x)), D(-x / powl(1 + x * x, 1.5L))},
    {"acosh", B(x > 1.001L), D(acoshl(x)), D(1 / sqrtl(x * x - 1)), D(-x / powl(x * x - 1, 1.5L))},
    {"atanh", B(fabsl(x) < 0.999L), D(atanhl(x)), D(1 / (1 - x * x)), D(2 * x / ((1 - x * x) * (1 - x * x)))},
    {"erf", B(true), D(erfl(x)), D(TWO_SQRTPI * expl(-x * x)), D(-2 * x * TWO_SQRTPI * expl(-x * x))},
    {"erfc", B(true), D(erfcl(x)), D(-TWO_SQRTPI * expl(-x * x)), D(2 * x * TWO_SQRTPI * expl(-x * x))},
};
#undef D
#undef B
#define D(e) [](R x, R y) -> R { return e; }
#define B(e) [](R x, R y) -> bool { return e; }
inline R dist_int(R q) { return fabsl(q - roundl(q)); }
inline R hyp3(R x, R y) { const R h = hypotl(x, y); return h * h * h; }
inline R sq(R x) { return x * x; }
inline R ipow(R x, R y, R c, R p) { return c == 0 ? 0 : c * powl(x, p); }
static const Bi binary_table[] = {
    {"fmod", B(y != 0 && fabsl(x / y) < 1e5L && dist_int(x / y) > 1e-4L), D(fmodl(x, y)), D(1), D(-truncl(x / y)), D(0), D(0), D(0)},
    {"remainder", B(y != 0 && fabsl(x / y) < 1e5L && fabsl(dist_int(x / y) - 0.5L) > 1e-4L), D(remainderl(x, y)), D(1), D(-roundl(x / y)), D(0), D(0), D(0)},
    {"fmax", B(x != y), D(x > y ? x : y), D(x > y ? 1 : 0), D(x > y ? 0 : 1), D(0), D(0), D(0)},
    {"fmin", B(x != y), D(x < y ? x : y), D(x < y ? 1 : 0), D(x < y ? 0 : 1), D(0), D(0), D(0)},
    {"pow", B(x > 0 && fabsl(y * logl(x)) < 40), D(powl(x, y)), D(y * powl(x, y - 1)), D(powl(x, y) * logl(x)), D(y * (y - 1) * powl(x, y - 2)), D(powl(x, y) * sq(logl(x))), D(powl(x, y - 1) * (1 + y * logl(x)))},
    {"hypot", B(x != 0 || y != 0), D(hypotl(x, y)), D(x / hypotl(x, y)), D(y / hypotl(x, y)), D(y * y / hyp3(x, y)), D(x * x / hyp3(x, y)), D(-x * y / hyp3(x, y))},
    {"atan2", B(x != 0 || y > 0), D(atan2l(x, y)), D(y / (x * x + y * y)), D(-x / (x * x + y * y)), D(-2 * x * y / sq(x * x + y * y)), D(2 * x * y / sq(x * x + y * y)), D((x * x - y * y) / sq(x * x + y * y))},
    // base of any sign, constant integer exponent (nonnegative when the base is zero)
    {"pow", B(y == floorl(y) && fabsl(y) < 20 && (x != 0 || y >= 0) && fabsl(y * logl(fabsl(x) + (x == 0))) < 40), D(powl(x, y)), D(ipow(x, y, y, y - 1)), D(0), D(ipow(x, y, y * (y - 1), y - 2)), D(0), D(0)},
};
#undef D
#undef B
static const int n_unary = sizeof(unary_table) / sizeof(*unary_table), n_binary = sizeof(binary_table) / sizeof(*binary_table);
static const int CONST_POW = n_binary - 1;

template<typename U> U apply1(int f, const U &x) {
    switch (f) {
    case 0: return abs(x); case 1: return exp(x); case 2: return exp2(x); case 3: return expm1(x); case 4: return log(x); case 5: return log10(x); case 6: return log2(x); case 7: return log1p(x);
    case 8: return sqrt(x); case 9: return cbrt(x); case 10: return sin(x); case 11: return cos(x); case 12: return tan(x); case 13: return asin(x); case 14: return acos(x); case 15: return atan(x);
    case 16: return sinh(x); case 17: return cosh(x); case 18: return tanh(x); case 19: return asinh(x); case 20: return acosh(x); case 21: return atanh(x); case 22: return erf(x); default: return erfc(x);
    }
}
template<typename U> U apply2(int f, const U &x, const U &y) {
    switch (f) { case 0: return fmod(x, y); case 1: return remainder(x, y); case 2: return fmax(x, y); case 3: return fmin(x, y); case 5: return hypot(x, y); case 6: return atan2(x, y); default: return pow(x, y); }
}
// tolerance: relative, plus a share of the scale of the function's local variation (cancellation near stationary points)
template<typename Real> Num approx(R v, R scale) { return Num(v, (fabsl(v) + scale) * 4096); }
inline R pick_arg(Ctx &ctx, bool (*dom)(R)) {
    for (int t = 0; t < 200; ++t) { double x; switch (ctx.rng.below(4)) { case 0: x = ctx.value(); break; case 1: x = (ctx.rng.unit() * 2 - 1) * 1.0; break; case 2: x = (ctx.rng.unit() * 2 - 1) * 8; break; default: x = 1 + ctx.rng.unit() * 4; } if (std::fabs(x) < 1e8 && (x == 0 || std::fabs(x) > 1e-8) && dom(x)) return x; }
    throw Skip();
}
inline bool pick_args(Ctx &ctx, int f, bool same, double &x, double &y) {
    for (int t = 0; t < 300; ++t) {
        auto one = [&] { switch (ctx.rng.below(4)) { case 0: return ctx.value(); case 1: return (ctx.rng.unit() * 2 - 1) * 6; case 2: return double(ctx.rng.range(-5, 5)); default: return ctx.rng.unit() * 4; } };
        x = one(); y = same ? x : f == CONST_POW ? double(ctx.rng.range(-4, 8)) : one();
        auto good = [](double z) { return std::fabs(z) < 1e6 && (z == 0 || std::fabs(z) > 1e-6); };
        if (good(x) && good(y) && binary_table[f].dom(x, y)) return true;
    }
    return false;
}
}
