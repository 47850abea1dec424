#include "rac.hpp"
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/stat.hpp>
#include <uncertainties/impl.hpp>
#include <list>
#include <deque>
const char *prop = "C16"; long default_cases = 15000, thorough_cases = 300000;
using namespace rac; namespace unc = uncertainties;
template<typename Real> static bool same(Real a, Real b) { return a == b || (a != a && b != b); }
template<typename U> static void check(Ctx &ctx, const std::vector<U> &x) {
    using Real = typename U::real_type; const size_t n = x.size(); const std::vector<U> copy = x;
    for (int which = 0; which < 2; ++which) {
        const std::string nm = which ? "corr_matrix" : "cov_matrix";
        auto f = [&](const U &a, const U &b) -> Real { return which ? corr(a, b) : cov(a, b); };
        std::vector<Real> want(n * n); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) want[n * i + j] = f(copy[i], copy[j]);
        // cov is symmetric, up to rounding
        auto agree = [&](Real g, size_t k) { const size_t i = k / n, j = k % n; if (same<Real>(g, want[k]) || same<Real>(g, want[n * j + i])) return true;
            const Real scale = which ? Real(1) : std::sqrt(std::abs(var(copy[i]) * var(copy[j]))); return std::abs(g - want[k]) <= 4096 * std::numeric_limits<Real>::epsilon() * scale; };
        auto cmp = [&](const auto &got, const std::string &how) {
            ctx.require(got.size() == n * n, nm + how + ": " + std::to_string(got.size()) + " elements for " + std::to_string(n) + " variables");
            auto it = got.begin(); for (size_t k = 0; k < n * n; ++k, ++it) ctx.require(agree(*it, k), nm + how + ": wrong element (" + std::to_string(k / n) + ", " + std::to_string(k % n) + ") for " + std::to_string(n) + " variables");
        };
        using V = std::vector<Real>; using D = std::deque<Real>;
        switch (ctx.rng.below(4)) {
        case 0: cmp(which ? unc::corr_matrix<V>(x) : unc::cov_matrix<V>(x), " (vector)"); break;
        case 1: { const std::list<U> l(x.begin(), x.end()); cmp(which ? unc::corr_matrix<D>(l) : unc::cov_matrix<D>(l), " (list to deque)"); break; }
        case 2: { V out(n * n + 4, Real(-12345)); auto end = which ? unc::corr_matrix(x.begin(), x.end(), out.begin() + 2) : unc::cov_matrix(x.begin(), x.end(), out.begin() + 2);
            ctx.require(end == out.begin() + 2 + n * n, nm + " (iterators): wrong end of the output");
            for (int k = 0; k < 2; ++k) ctx.require(out[k] == Real(-12345) && out[n * n + 2 + k] == Real(-12345), nm + " (iterators): wrote outside of the matrix");
            cmp(V(out.begin() + 2, out.begin() + 2 + n * n), " (iterators)"); break; }
        default: { const std::list<U> l(x.begin(), x.end()); V out; if (which) unc::corr_matrix(l.begin(), l.end(), std::back_inserter(out)); else unc::cov_matrix(l.begin(), l.end(), std::back_inserter(out)); cmp(out, " (list, back_inserter)"); }
        }
    }
    const auto mu = unc::nom_vector<std::deque<Real>>(std::list<U>(x.begin(), x.end()));
    ctx.equal(mu.size(), n, "size of nom_vector"); for (size_t i = 0; i < n; ++i) ctx.require(same<Real>(mu[i], copy[i].n()), "wrong element of nom_vector");
    for (size_t i = 0; i < n; ++i) ctx.require(x[i].indepid() == copy[i].indepid() && same<Real>(x[i].n(), copy[i].n()), "an input was modified");
}
static double small(Ctx &ctx) { return ctx.rng.chance(1, 8) ? 0 : ctx.rng.range(-64, 64) / 16.0; }
static size_t length(Ctx &ctx) { return ctx.rng.chance(1, 150) ? ctx.rng.range(30, 70) : ctx.rng.chance(1, 12) ? ctx.rng.range(8, 20) : ctx.rng.below(7); }
template<typename Real> static void first(Ctx &ctx) {
    const size_t n = length(ctx); std::vector<unc::UReal<Real>> ind, x; for (int i = 0; i < 4; ++i) ind.emplace_back(Real(small(ctx)), Real(std::fabs(small(ctx))));
    ctx.log << n << " variables";
    for (size_t i = 0; i < n; ++i) {
        if (ctx.rng.chance(1, 4)) { x.push_back(ind[ctx.rng.below(4)]); ctx.log << ", independent"; continue; }
        unc::UReal<Real> u(Real(small(ctx))); ctx.log << ", " << u.n(); for (int k = 0; k < 4; ++k) if (ctx.rng.chance(1, 2)) { const Real c = Real(small(ctx)); u += c * ind[k]; ctx.log << " + " << c << "*x" << k; }
        x.push_back(u);
    }
    ctx.log << "\n"; check(ctx, x);
}
template<typename U> static void second(Ctx &ctx) {
    using Real = typename U::real_type; const size_t n = std::min<size_t>(length(ctx), 9); std::vector<U> ind, x; for (int i = 0; i < 3; ++i) ind.emplace_back(Real(small(ctx)), Real(std::fabs(small(ctx))), std::array<Real, 6>{Real(small(ctx)), 3, 1, 15, 2, 105}, Real(-1));
    ctx.log << n << " second-order variables";
    for (size_t i = 0; i < n; ++i) {
        if (ctx.rng.chance(1, 4)) { x.push_back(ind[ctx.rng.below(3)]); ctx.log << ", independent"; continue; }
        U u{Real(small(ctx))}; for (int k = 0; k < 3; ++k) if (ctx.rng.chance(1, 2)) { const Real c = Real(small(ctx)); u = u + c * ind[k] * ind[ctx.rng.below(3)]; ctx.log << " + " << c << "*x" << k << "^2"; }
        x.push_back(u);
    }
    ctx.log << "\n"; check(ctx, x);
}
static void sizes(Ctx &ctx) {
    const size_t n = ctx.rng.chance(1, 3) ? ctx.rng.below(3) : ctx.rng.below(9), m = ctx.rng.chance(1, 2) ? n * n : ctx.rng.below(int(n * n + 6));
    std::vector<double> s(n), c(m); for (auto &q : s) q = small(ctx); for (auto &q : c) q = small(ctx);
    ctx.log << "corr2cov with " << n << " deviations and " << m << " matrix elements\n";
    bool threw = false; std::vector<double> r;
    try { if (ctx.rng.chance(1, 2)) r = unc::corr2cov<std::vector<double>>(s, c); else { auto d = unc::corr2cov<std::deque<double>>(std::deque<double>(s.begin(), s.end()), c); r.assign(d.begin(), d.end()); } }
    catch (const std::invalid_argument &) { threw = true; }
    ctx.equal(threw, m != n * n, "corr2cov throws std::invalid_argument"); if (threw) return;
    ctx.equal(r.size(), n * n, "size of corr2cov");
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) ctx.close(r[n * i + j], Num(s[i]) * Num(s[j]) * Num(c[n * i + j]), "corr2cov element (" + std::to_string(i) + ", " + std::to_string(j) + ")");
}
void run_case(Ctx &ctx) {
    switch (ctx.rng.below(5)) {
    case 0: first<double>(ctx); break;
    case 1: first<float>(ctx); break;
    case 2: second<unc::udouble2e>(ctx); break;
    case 3: second<unc::ufloat2m>(ctx); break;
    default: sizes(ctx);
    }
}
