#include "mathtab.hpp"
#include <uncertainties/ureal.hpp>
#include <uncertainties/math.hpp>
#include <uncertainties/impl.hpp>
const char *prop = "C07"; long default_cases = 60000, thorough_cases = 2000000;
using namespace rac; namespace unc = uncertainties;
template<typename Real> static void one(Ctx &ctx) {
    using U = unc::UReal<Real>;
    // an argument with mean n: constant, independent, or dependent on one or two independent variables
    std::vector<U> ind; std::vector<Real> sd;
    auto indep = [&] { const Real s = Real(ctx.rng.chance(1, 2) ? 0.5 * ctx.rng.range(1, 6) : 0.1 + ctx.rng.unit()); U u(Real(1), s); ind.push_back(u); sd.push_back(s); return int(ind.size()) - 1; };
    struct Arg { U u; std::map<int, Num> c; };
    auto arg = [&](Real n, int kind) {
        Arg a;
        if (kind == 0) { a.u = U(n); ctx.log << "UReal(" << n << ")"; }
        else if (kind == 1) { const int k = indep(); a.u = change_nom(ind[k], n); a.c[k] = Num(sd[k]); ctx.log << "UReal(" << n << ", " << sd[k] << ")"; }
        else { const int k = ind.empty() || ctx.rng.chance(1, 2) ? indep() : 0, q = indep(); const Real p = Real(ctx.rng.range(-4, 4) / 2.0), r = Real(ctx.rng.range(1, 4)); a.u = binary(ind[k], ind[q], n, p, r); a.c[k] = Num(p) * Num(sd[k]); a.c[q] = Num(r) * Num(sd[q]); ctx.log << "binary(V" << k << ", V" << q << ", " << n << ", " << p << ", " << r << ")"; }
        return a;
    };
    auto verify = [&](const U &r, const char *name, R mean, R scale, const std::map<int, Num> &c) {
        ctx.close(r.n(), approx<Real>(mean, 0), std::string("mean of ") + name);
        for (size_t k = 0; k < ind.size(); ++k) { auto it = c.find(int(k)); Num want = it == c.end() ? Num(0) : it->second; if (it != c.end()) want.e = (want.e + scale) * 4096; ctx.close(cov(r, ind[k]), want * Num(sd[k]), std::string("cov(") + name + "(...), independent variable " + std::to_string(k) + ")"); }
    };
    if (ctx.rng.chance(1, 2)) {
        const int f = ctx.index % n_unary; const Un &t = unary_table[f];
        const Real n = Real(pick_arg(ctx, t.dom)); if (!t.dom(n)) throw Skip();
        ctx.log << t.name << "(";
        Arg a = arg(n, ctx.rng.below(3)); ctx.log << ")\n";
        const U r = apply1(f, a.u); const R d = t.d(n);
        std::map<int, Num> c; R scale = 0; for (auto &p : a.c) { c[p.first] = Num(d) * p.second; scale = std::max(scale, fabsl(p.second.v) * (fabsl(t.f(n)) + fabsl(n * t.dd(n)) + fabsl(d) + (f == 18 ? 1 : 0))); }
        verify(r, t.name, t.f(n), scale, c);
        ctx.require(a.u.n() == n, "the argument was modified");
    } else {
        const int f = ctx.index % n_binary; const Bi &t = binary_table[f];
        const bool same = f != CONST_POW && ctx.rng.chance(1, 8); double xd, yd;
        if (!pick_args(ctx, f, same, xd, yd)) throw Skip();
        const Real x = Real(xd), y = Real(yd); if (!t.dom(x, y)) throw Skip();
        ctx.log << t.name << "(";
        Arg a = arg(x, ctx.rng.below(3)); ctx.log << ", "; Arg b = same ? a : arg(y, f == CONST_POW ? 0 : ctx.rng.below(3)); if (same) ctx.log << "the same variable"; ctx.log << ")\n";
        const U r = same ? apply2(f, a.u, a.u) : apply2(f, a.u, b.u);
        const R dx = t.dx(x, y), dy = t.dy(x, y); std::map<int, Num> c; R scale = 0;
        for (auto &p : a.c) { c[p.first] += Num(dx) * p.second; scale = std::max(scale, fabsl(p.second.v) * (fabsl(dx) + fabsl(x * t.dxx(x, y)) + fabsl(y * t.dxy(x, y)))); }
        for (auto &p : b.c) { c[p.first] += Num(dy) * p.second; scale = std::max(scale, fabsl(p.second.v) * (fabsl(dy) + fabsl(y * t.dyy(x, y)) + fabsl(x * t.dxy(x, y)))); }
        verify(r, t.name, t.f(x, y), scale, c);
    }
}
void run_case(Ctx &ctx) { if (ctx.rng.chance(1, 10)) { ctx.log << "float: "; one<float>(ctx); } else { ctx.log << "double: "; one<double>(ctx); } }
