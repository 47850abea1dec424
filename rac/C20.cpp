#include "rac.hpp"
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/math.hpp>
#include <uncertainties/impl.hpp>
const char *prop = "C20"; long default_cases = 60000, thorough_cases = 1000000;
using namespace rac; namespace unc = uncertainties;
template<typename Real> static Real bad(Ctx &ctx) {
    using L = std::numeric_limits<Real>;
    switch (ctx.rng.below(6)) { case 0: return L::infinity(); case 1: return -L::infinity(); case 2: return L::quiet_NaN(); case 3: return 0; case 4: return L::denorm_min() * 5; default: return -L::denorm_min(); }
}
template<typename Real> static Real good(Ctx &ctx) { return Real(ctx.nonzero()); }
static double small(Ctx &ctx) { double v; do v = ctx.rng.range(-40, 40) / 8.0; while (v == 0); return v; }
template<typename Real> static void first(Ctx &ctx) {
    Real n = good<Real>(ctx), s = std::fabs(good<Real>(ctx)); unc::UReal<Real> x;
    switch (ctx.rng.below(5)) {
    case 0: n = bad<Real>(ctx); x = unc::UReal<Real>(n, s); break;
    case 1: s = bad<Real>(ctx); if (s < 0) s = -s; x = unc::UReal<Real>(n, s); break;
    case 2: x = unc::UReal<Real>(n, s); break;
    case 3: s = 0; if (ctx.rng.chance(1, 2)) n = bad<Real>(ctx); x = unc::UReal<Real>(n); break;
    default: { // a dependent variable, one of whose sensitivities may offend
        const int k = ctx.rng.range(2, 6), where = ctx.rng.below(k + 2); std::vector<unc::UReal<Real>> xs; std::vector<Real> ds;
        long double s2 = 0; bool plain = true;
        for (int i = 0; i < k; ++i) { const Real sg = Real(std::fabs(small(ctx))); xs.emplace_back(Real(1), sg); Real d = Real(small(ctx)); if (i == where) { d = bad<Real>(ctx); if (d != 0 && std::isfinite(d)) d = 0; plain = plain && std::isfinite(d); } ds.push_back(d); s2 += (long double)d * sg * d * sg; }
        if (where == k) n = bad<Real>(ctx);
        x = nary(xs.begin(), xs.end(), n, ds.begin());
        s = plain ? Real(std::sqrt(s2)) : std::numeric_limits<Real>::quiet_NaN();
        if (plain && s2 == 0) throw Skip{};
        } }
    ctx.log << "x with mean " << n << " and standard deviation " << s << "\n";
    if (ctx.rng.chance(1, 2)) (void)x.s();
    ctx.equal(isfinite(x), std::isfinite(n) && std::isfinite(s), "isfinite(x)");
    ctx.equal(isnormal(x), std::isnormal(n) && std::isnormal(s), "isnormal(x)");
}
template<typename Real, unc::Prop P> static void second(Ctx &ctx) {
    using U = unc::UReal2<Real, P>;
    const int n = ctx.rng.range(0, ctx.rng.chance(1, 6) ? 7 : 4);
    std::vector<U> ind; for (int i = 0; i < n; ++i) ind.push_back(U(Real(1), Real(1), std::array<Real, 6>{0, 3, 0, 15, 0, 105}));
    // coefficients: mean, gradient, diagonal, off-diagonal (some not stored)
    std::vector<std::array<int, 2>> pos; const int total = 1 + n + n + n * (n - 1) / 2; const int where = ctx.rng.chance(1, 6) ? -1 : ctx.rng.below(total); int c = 0;
    bool fin = true, nor = true;
    auto value = [&](bool &offender) { offender = c++ == where; const Real v = offender ? bad<Real>(ctx) : good<Real>(ctx); fin = fin && std::isfinite(v); nor = nor && std::isnormal(v); return v; };
    bool off; const Real mu = value(off); U r{Real(0)};
    ctx.log << "x with mean " << mu;
    const std::vector<int> order = [&] { std::vector<int> o; for (int i = 0; i < n; ++i) o.push_back(i); if (ctx.rng.chance(1, 2)) std::reverse(o.begin(), o.end()); return o; }();
    for (int i : order) {
        const Real g = value(off), h = value(off); ctx.log << ", gradient " << g << " and Hessian " << h << " (variable " << i << ")";
        // built from constants times an independent variable with unit deviation: the coefficients are stored exactly
        // (an infinite or NaN derivative multiplies the other ones, so each coefficient is carried by one term)
        if (!std::isfinite(g) || !std::isfinite(h)) { nor = false; fin = fin && std::isfinite(g) && std::isfinite(h); }
        r = binary(r, unary(ind[i], Real(0), g, 2 * h), Real(0), Real(1), Real(1), Real(0), Real(0), Real(0));
    }
    const int missing = ctx.rng.below(3);
    for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) {
        if (missing && c != where && ctx.rng.chance(missing, 3)) { ++c; continue; }
        const Real t = value(off); if (t == 0) { fin = fin; }
        ctx.log << ", Hessian " << t << " (variables " << i << ", " << j << ")";
        // an entry of the Hessian at (i, j); its gradient and diagonal contributions are zero
        const U prod = binary(ind[i], ind[j], Real(0), Real(0), Real(0), Real(0), Real(0), 2 * t);
        if (t == 0) { // stored zero: t - t
            const U one = binary(ind[i], ind[j], Real(0), Real(0), Real(0), Real(0), Real(0), Real(2));
            r = binary(r, one, Real(0), Real(1), Real(1), Real(0), Real(0), Real(0)); r = binary(r, one, Real(0), Real(1), Real(-1), Real(0), Real(0), Real(0));
        } else r = binary(r, prod, Real(0), Real(1), Real(1), Real(0), Real(0), Real(0));
    }
    r = binary(r, U(Real(0)), mu, Real(1), Real(0), Real(0), Real(0), Real(0));
    ctx.log << "\n";
    ctx.equal(isfinite(r), fin, "isfinite(x)");
    ctx.equal(isnormal(r), nor, "isnormal(x)");
}
void run_case(Ctx &ctx) {
    switch (ctx.rng.below(6)) {
    case 0: first<double>(ctx); break;
    case 1: first<float>(ctx); break;
    case 2: second<float, unc::Prop::mean>(ctx); break;
    case 3: second<double, unc::Prop::mean>(ctx); break;
    default: second<double, unc::Prop::est>(ctx);
    }
}
