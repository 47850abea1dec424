#include "rac.hpp"
#include <uncertainties/ureal2.hpp>
#include <uncertainties/impl.hpp>
const char *prop = "C14"; long default_cases = 60000, thorough_cases = 1000000;
using namespace rac; namespace unc = uncertainties;
using R = long double;
// eigenvalues of a symmetric 5x5 matrix by the cyclic Jacobi method
static std::array<R, 5> eigenvalues(std::array<std::array<R, 5>, 5> a) {
    for (int sweep = 0; sweep < 60; ++sweep) {
        R off = 0; for (int i = 0; i < 5; ++i) for (int j = 0; j < i; ++j) off += a[i][j] * a[i][j];
        if (off == 0) break;
        for (int p = 0; p < 5; ++p) for (int q = p + 1; q < 5; ++q) {
            if (a[p][q] == 0) continue;
            const R th = (a[q][q] - a[p][p]) / (2 * a[p][q]); const R t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1)); const R c = 1 / std::sqrt(t * t + 1), s = t * c;
            for (int k = 0; k < 5; ++k) { const R x = a[k][p], y = a[k][q]; a[k][p] = c * x - s * y; a[k][q] = s * x + c * y; }
            for (int k = 0; k < 5; ++k) { const R x = a[p][k], y = a[q][k]; a[p][k] = c * x - s * y; a[q][k] = s * x + c * y; }
        }
    }
    std::array<R, 5> v; for (int i = 0; i < 5; ++i) v[i] = a[i][i]; return v;
}
// +1: must throw, -1: must not throw, 0: too near to the boundary for this precision
static int verdict(const std::array<R, 9> &m, R thr, R eps) {
    std::array<std::array<R, 5>, 5> h; for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) h[i][j] = m[i + j];
    const auto v = eigenvalues(h); R lo = v[0], hi = v[0], mx = 0; for (R x : v) { lo = std::min(lo, x); hi = std::max(hi, x); mx = std::max(mx, std::fabs(x)); }
    const R tol = 200 * eps * mx;
    if (hi <= tol) return hi < -tol ? 1 : 0;
    const R c = lo / hi, ctol = tol / hi * (1 + std::fabs(c));
    if (c < -thr - ctol) return 1;
    if (thr == 0 ? lo > tol : c > -thr + ctol) return -1;
    return 0;
}
static double small(Ctx &ctx) {
    static const double sp[] = {0, 1, -1, 2, 3, 0.5, 15, 105};
    return ctx.rng.chance(2, 5) ? sp[ctx.rng.below(8)] : ctx.rng.chance(1, 2) ? ctx.rng.range(-64, 64) / 8.0 : std::max(-1e3, std::min(1e3, ctx.value()));
}
template<typename Real, unc::Prop P> static void go(Ctx &ctx) {
    using U = unc::UReal2<Real, P>; const R eps = std::numeric_limits<Real>::epsilon();
    // moments: of a distribution on a few points (5 or more points: positive definite), gaussian, perturbed, or arbitrary
    std::array<R, 9> m{}; const int kind = ctx.rng.below(6); const bool central = ctx.rng.chance(1, 2);
    if (kind <= 2) {
        const int np = ctx.rng.range(2, 9); std::vector<R> p, x; R t = 0, mu = 0;
        for (int i = 0; i < np; ++i) { p.push_back(ctx.rng.range(1, 16)); x.push_back(ctx.rng.range(-20, 20) / 4.0L + i * 0.3L); t += p[i]; }
        for (int i = 0; i < np; ++i) { p[i] /= t; mu += p[i] * x[i]; }
        R var = 0; for (int i = 0; i < np; ++i) var += p[i] * (x[i] - mu) * (x[i] - mu);
        const R sc = central ? R(ctx.rng.range(1, 12)) / 8 / std::sqrt(var) : 1 / std::sqrt(var);
        for (int k = 0; k <= 8; ++k) for (int i = 0; i < np; ++i) m[k] += p[i] * std::pow((x[i] - mu) * sc, R(k));
        if (kind == 2) m[ctx.rng.range(central ? 2 : 3, 8)] *= 1 + (ctx.rng.unit() - 0.5L) * (ctx.rng.chance(1, 2) ? 0.5L : 0.02L);
    } else if (kind == 3) { const R s2 = central ? R(ctx.rng.range(1, 24)) / 8 : 1; R g[] = {1, 0, 1, 0, 3, 0, 15, 0, 105}; for (int k = 0; k <= 8; ++k) m[k] = g[k] * std::pow(std::sqrt(s2), R(k)); if (ctx.rng.chance(1, 3)) m[ctx.rng.range(3, 8)] += small(ctx) / 4; }
    else { m[2] = 1; for (int k = central ? 2 : 3; k <= 8; ++k) m[k] = small(ctx); if (kind == 5) { m[8] += ctx.rng.range(0, 2000); m[6] = std::fabs(m[6]); m[4] = std::fabs(m[4]); } }
    if (central && ctx.rng.chance(1, 15)) for (int k = 2; k <= 8; ++k) m[k] = 0;
    m[0] = 1; m[1] = 0; if (!central) m[2] = 1; else if (ctx.rng.chance(1, 20)) m[2] = -m[2];
    for (auto &q : m) q = Real(q);
    static const double thrs[] = {0, -1, 1e-12, 1e-6, 1e-3, 0.05, 0.2, 0.5, 1, 2, -0.5};
    const bool def = ctx.rng.chance(1, 5); const Real thr = def ? Real(0) : ctx.rng.chance(1, 4) ? Real(std::fabs(small(ctx)) / 16) : Real(thrs[ctx.rng.below(11)]);
    const Real n = Real(ctx.value()); Real s = Real(std::fabs(small(ctx))); if (!central && ctx.rng.chance(1, 8)) s = ctx.rng.chance(1, 2) ? -Real(0.25) : -s;
    std::array<Real, 7> cm; std::array<Real, 6> sm; for (int k = 2; k <= 8; ++k) cm[k - 2] = Real(m[k]); for (int k = 3; k <= 8; ++k) sm[k - 3] = Real(m[k]);
    ctx.log << "UReal2(" << n << ", "; if (!central) ctx.log << s << ", {"; else ctx.log << "{"; for (int k = central ? 2 : 3; k <= 8; ++k) ctx.log << m[k] << " "; ctx.log << "}"; if (!def) ctx.log << ", " << thr; ctx.log << ")\n";
    int want = thr < 0 ? -1 : verdict(m, thr, eps);
    if (!central && s < 0) want = 1;
    if (central && !(m[2] >= 0) && want != 1) throw Skip{}; // unchecked negative variance: outside the property
    U x; bool threw = false;
    U before(Real(0), Real(1), sm, Real(-1));
    try {
        if (central) x = def ? U(n, cm) : U(n, cm, thr); else x = def ? U(n, s, sm) : U(n, s, sm, thr);
    } catch (const std::invalid_argument &) { threw = true; }
    if (want == 0) throw Skip{};
    ctx.equal(threw, want > 0, "the constructor throws std::invalid_argument");
    if (threw) return;
    U after(Real(0), Real(1), sm, Real(-1));
    ctx.require(x.isindep() && x.indepid() > 0 && x.indepid() != before.indepid() && x.indepid() != after.indepid(), "the new variable is not a fresh independent one");
    ctx.equal(x.first_order_n(), n, "mean"); ctx.equal(x.n(), n, "mean");
    const Num m2 = central ? Num(m[2]) : Num(s) * Num(s); const Num sd = rac::sqrt(m2);
    std::array<Num, 9> c; c[0] = Num(1); c[1] = Num(0); c[2] = m2; Num sp = m2;
    for (int k = 3; k <= 8; ++k) { if (central) c[k] = m2.v > 0 ? Num(m[k], 4 * std::fabs(m[k])) : Num(0); else { sp *= sd; c[k] = sp * Num(m[k]); } }
    ctx.close(x.m(1), Num(0), "m(1)"); ctx.close(x.m(2), c[2], "m(2)"); ctx.close(x.m(3), c[3], "m(3)"); ctx.close(x.m(4), c[4], "m(4)"); ctx.close(x.s(), sd, "s()");
    if (m2.v > 1e-4L) {
        ctx.close(x.skew(), c[3] / (m2 * sd), "skew()", 32); ctx.close(x.kurt(), c[4] / (m2 * m2), "kurt()", 32);
        const U y = unary(x, Real(0), Real(0), Real(2)); // (x - n)^2
        const Num a = c[2];
        ctx.close(y.m(1), a, "mean square", 32); ctx.close(y.m(2), c[4] - a * a, "variance of the square", 64);
        ctx.close(y.m(3), c[6] - Num(3) * a * c[4] + Num(2) * a * a * a, "third moment of the square", 256);
        ctx.close(y.m(4), c[8] - Num(4) * a * c[6] + Num(6) * a * a * c[4] - Num(3) * a * a * a * a, "fourth moment of the square", 1024);
        const U z = unary(x, Real(0), Real(1), Real(2)); // (x - n) + (x - n)^2; expand E[(d + q)^k] with q = d^2 - a
        const Num dq = c[3], ddq = c[4] - a * a, dqq = c[5] - Num(2) * a * c[3], qqq = c[6] - Num(3) * a * c[4] + Num(2) * a * a * a;
        ctx.close(z.m(2), a + Num(2) * dq + ddq, "variance of a quadratic function", 64);
        ctx.close(z.m(3), c[3] + Num(3) * ddq + Num(3) * dqq + qqq, "third moment of a quadratic function", 512);
        const Num dddq = c[5] - a * c[3], ddqq = c[6] - Num(2) * a * c[4] + a * a * a, dqqq = c[7] - Num(3) * a * c[5] + Num(3) * a * a * c[3], q4 = c[8] - Num(4) * a * c[6] + Num(6) * a * a * c[4] - Num(3) * a * a * a * a;
        ctx.close(z.m(4), c[4] + Num(4) * dddq + Num(6) * ddqq + Num(4) * dqqq + q4, "fourth moment of a quadratic function", 2048);
    } else if (m2.v == 0) { ctx.require(x.m(2) == 0 && x.m(3) == 0 && x.m(4) == 0, "a zero variance does not give a constant"); const U y = unary(x, Real(0), Real(1), Real(2)); ctx.require(y.m(1) == 0 && y.m(2) == 0 && y.m(3) == 0 && y.m(4) == 0, "a zero variance does not give a constant"); }
    ctx.require(cov(x, before) == 0 && cov(x, after) == 0, "the new variable is correlated with another one");
}
void run_case(Ctx &ctx) {
    switch (ctx.rng.below(4)) {
    case 0: ctx.log << "float, mean\n"; go<float, unc::Prop::mean>(ctx); break;
    case 1: ctx.log << "double, mean\n"; go<double, unc::Prop::mean>(ctx); break;
    default: ctx.log << "double, est\n"; go<double, unc::Prop::est>(ctx);
    }
}
