#include "rac.hpp"
#include <uncertainties/ureal2.hpp>
#include <uncertainties/distr.hpp>
#include <uncertainties/impl.hpp>
const char *prop = "C15"; long default_cases = 40000, thorough_cases = 500000;
using namespace rac; namespace unc = uncertainties;
using R = long double;
// observe moments 2..8 (central) of an independent variable through the public interface
template<typename U> static void moments(Ctx &ctx, const U &x, Num mu, std::array<Num, 9> c) {
    using Real = typename U::real_type; const Num a = c[2]; const Num sd = rac::sqrt(a);
    ctx.close(x.first_order_n(), mu, "mean"); ctx.close(x.n(), mu, "mean"); ctx.close(x.s(), sd, "standard deviation", 32); ctx.close(x.m(2), a, "variance", 32);
    ctx.close(x.m(3), c[3], "third moment", 64); ctx.close(x.m(4), c[4], "fourth moment", 64);
    ctx.require(x.isindep(), "not an independent variable");
    if (!(a.v > 1e-12L)) return;
    ctx.require(x.indepid() > 0, "not an independent variable");
    ctx.close(x.skew(), c[3] / (a * sd), "skewness", 64); ctx.close(x.kurt(), c[4] / (a * a), "kurtosis", 64);
    // moments 5 to 8 from V and V^2, V = (x - mu) / sd
    const Real s = Real(sd.v); const U V = unary(x, Real(0), 1 / s, Real(0)), W = unary(x, Real(0), Real(0), 2 / s / s), Z = unary(x, Real(0), 1 / s, 2 / s / s);
    std::array<Num, 9> e; e[0] = Num(1); e[1] = Num(0); e[2] = Num(1); Num p = a; for (int k = 3; k <= 8; ++k) { p *= sd; e[k] = c[k] / p; }
    const Num one(1);
    const Num q3 = e[6] - Num(3) * e[4] + Num(2), q4 = e[8] - Num(4) * e[6] + Num(6) * e[4] - Num(3);
    ctx.close(W.m(3), q3, "sixth moment", 512); ctx.close(W.m(4), q4, "eighth moment", 512);
    ctx.close(Z.m(3), e[3] + Num(3) * (e[4] - one) + Num(3) * (e[5] - Num(2) * e[3]) + q3, "fifth moment", 1024);
    ctx.close(Z.m(4), e[4] + Num(4) * (e[5] - e[3]) + Num(6) * (e[6] - Num(2) * e[4] + one) + Num(4) * (e[7] - Num(3) * e[5] + Num(3) * e[3]) + q4, "seventh moment", 1024);
}
static std::array<R, 9> from_cumulants(const std::array<R, 9> &k) { // central moments
    std::array<R, 9> m{}; m[0] = 1;
    for (int n = 1; n <= 8; ++n) { R b = 1; m[n] = 0; for (int j = 0; j < n; ++j) { const R kk = j + 1 == 1 ? 0 : k[j + 1]; m[n] += b * kk * m[n - 1 - j]; b = b * (n - 1 - j) / (j + 1); } }
    return m;
}
template<typename F> static bool throws(F f) { try { (void)f(); } catch (const std::invalid_argument &) { return true; } return false; }
template<typename U> static void go(Ctx &ctx) {
    using Real = typename U::real_type;
    const U other = unc::distr::normal<U>(Real(0), Real(1)); U x; std::array<Num, 9> c;
    switch (ctx.rng.below(4)) {
    case 0: {
        const Real mu = Real(ctx.value()); Real s = Real(ctx.rng.chance(1, 12) ? 0.0 : ctx.value());
        ctx.log << "normal(" << mu << ", " << s << ")\n";
        if (s < 0) { ctx.require(throws([&] { return unc::distr::normal<U>(mu, s); }), "normal did not throw std::invalid_argument"); return; }
        x = unc::distr::normal<U>(mu, s); R g[] = {1, 0, 1, 0, 3, 0, 15, 0, 105}; Num p(1); for (int k = 0; k <= 8; ++k) { c[k] = p * Num(g[k]); p *= Num(s); }
        moments(ctx, x, Num(mu), c); if (s == 0) ctx.require(x.m(2) == 0, "zero deviation is not a constant");
        break; }
    case 1: {
        const int k = ctx.rng.chance(1, 12) ? 0 : ctx.rng.chance(1, 10) ? -ctx.rng.range(1, 1000) : ctx.rng.chance(1, 3) ? ctx.rng.range(1, 1000) : ctx.rng.range(1, 12);
        ctx.log << "chisquare(" << k << ")\n";
        if (k < 0) { ctx.require(throws([&] { return unc::distr::chisquare<U>(k); }), "chisquare did not throw std::invalid_argument"); return; }
        x = unc::distr::chisquare<U>(k);
        if (k == 0) { ctx.require(x.first_order_n() == 0 && x.m(2) == 0 && x.m(4) == 0 && cov(x, other) == 0, "chisquare(0) is not the constant 0"); return; }
        std::array<R, 9> cu{}; R f = 1; for (int n = 1; n <= 8; ++n) { cu[n] = f * k; f *= 2 * n; }
        const auto m = from_cumulants(cu); for (int n = 0; n <= 8; ++n) c[n] = Num(m[n], 8 * m[n]);
        moments(ctx, x, Num(k), c);
        break; }
    case 2: {
        Real l = Real(ctx.value()), r = Real(ctx.value()); if (ctx.rng.chance(1, 12)) r = l; else if (ctx.rng.chance(3, 4) && l > r) std::swap(l, r);
        ctx.log << "uniform(" << l << ", " << r << ")\n";
        if (l > r) { ctx.require(throws([&] { return unc::distr::uniform<U>(l, r); }), "uniform did not throw std::invalid_argument"); return; }
        x = unc::distr::uniform<U>(l, r); const Num h = (Num(r) - Num(l)) / Num(2); Num p(1); for (int k = 0; k <= 8; ++k) { c[k] = k % 2 ? Num(0, 1e-30L) : p / Num(k + 1); p *= h; }
        if (l == r) { ctx.require(x.first_order_n() == l && x.m(2) == 0 && x.m(4) == 0, "zero width is not a constant"); return; }
        moments(ctx, x, (Num(l) + Num(r)) / Num(2), c);
        break; }
    default: { // raw -> central -> standardized moments of a distribution on a few points
        const int np = ctx.rng.range(2, 7); std::vector<R> p, v; R t = 0; for (int i = 0; i < np; ++i) { p.push_back(ctx.rng.range(1, 9)); v.push_back(ctx.rng.range(-24, 24) / 8.0L + i * 0.125L); t += p[i]; }
        ctx.log << "central_moments and std_moments of the distribution on points"; for (int i = 0; i < np; ++i) ctx.log << " " << v[i] << ":" << p[i] / t;
        ctx.log << "\n";
        std::array<Real, 8> raw; std::array<Num, 9> rw; for (int k = 0; k <= 8; ++k) { R e = 0; for (int i = 0; i < np; ++i) e += p[i] / t * std::pow(v[i], R(k)); if (k) raw[k - 1] = Real(e); rw[k] = Num(k ? raw[k - 1] : 1); }
#ifndef RAC_PUBLIC_ONLY
        const std::array<Real, 7> cm = unc::internal::central_moments(raw);
        std::array<Num, 9> want;
        for (int n = 0; n <= 8; ++n) { Num s(0); R b = 1; for (int k = 0; k <= n; ++k) { Num q(b * ((n - k) % 2 ? -1 : 1)); q *= rw[k]; for (int j = 0; j < n - k; ++j) q *= rw[1]; s += q; b = b * (n - k) / (k + 1); } want[n] = s; if (n >= 2) ctx.close(cm[n - 2], s, "central moment " + std::to_string(n), 64); }
        if (cm[0] > Real(1e-3)) { const auto sm = unc::internal::std_moments(cm); const Num sd = rac::sqrt(Num(cm[0])); Num q = Num(cm[0]); for (int n = 3; n <= 8; ++n) { q *= sd; ctx.close(sm[n - 3], Num(cm[n - 2]) / q, "standardized moment " + std::to_string(n), 64); } }
        const int n = ctx.rng.range(0, 8), k = ctx.rng.range(0, n); int b = 1; for (int i = 0; i < k; ++i) b = b * (n - i) / (i + 1);
        ctx.equal(unc::internal::binom_coeff(n, k), b, "binomial coefficient");
#endif
        return; }
    }
    const U again = unc::distr::normal<U>(Real(0), Real(1));
    ctx.require(cov(x, other) == 0 && cov(x, again) == 0 && cov(other, again) == 0, "two constructions are correlated");
}
void run_case(Ctx &ctx) {
    switch (ctx.rng.below(3)) {
    case 0: ctx.log << "float: "; go<unc::ufloat2m>(ctx); break;
    case 1: ctx.log << "double, mean: "; go<unc::udouble2m>(ctx); break;
    default: ctx.log << "double, est: "; go<unc::udouble2e>(ctx);
    }
}
