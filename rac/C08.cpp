#include "mathtab.hpp"
#include <uncertainties/ureal2.hpp>
#include <uncertainties/math.hpp>
#include <uncertainties/impl.hpp>
const char *prop = "C08"; long default_cases = 60000, thorough_cases = 2000000;
using namespace rac; namespace unc = uncertainties;
template<typename Real, unc::Prop P> static void one(Ctx &ctx) {
    using U = unc::UReal2<Real, P>;
    const std::array<Real, 6> mom{0, 3, 0, 15, 0, 105};
    auto indep = [&](Real n) { const Real s = Real(ctx.rng.range(1, 6)) / 2; ctx.log << "UReal2(" << n << ", " << s << ", normal moments)"; return U(n, s, mom); };
    if (ctx.rng.chance(1, 2)) {
        const int f = ctx.index % n_unary; const Un &t = unary_table[f];
        const Real n = Real(pick_arg(ctx, t.dom)); if (!t.dom(n)) throw Skip();
        ctx.log << t.name << "(";
        const U x = indep(n); ctx.log << ")\n";
        const U r = apply1(f, x); const R F = t.f(n), d = t.d(n), dd = t.dd(n);
        ctx.close(r.first_order_n(), approx<Real>(F, 0), std::string("first-order mean of ") + t.name);
        ctx.close(r.grad(x), approx<Real>(d, fabsl(n * dd) + (f == 18 ? 1 : 0)), std::string("derivative of ") + t.name);
        ctx.close(r.hess(x, x), approx<Real>(dd, fabsl(n) * (fabsl(d) + fabsl(dd)) + fabsl(d) + fabsl(F) * 0 + (f == 18 ? 2 : 0)), std::string("second derivative of ") + t.name, 64);
        const U k = apply1(f, U(n));
        ctx.close(k.first_order_n(), approx<Real>(F, 0), std::string("first-order mean of ") + t.name + " of a constant");
        ctx.require(k.indepid() == 0, "function of a constant depends on something");
    } else {
        const int f = ctx.index % n_binary; const Bi &t = binary_table[f]; const bool same = f != CONST_POW && ctx.rng.chance(1, 8); double xd, yd;
        if (!pick_args(ctx, f, same, xd, yd)) throw Skip();
        const Real x = Real(xd), y = Real(yd); if (!t.dom(x, y)) throw Skip();
        const int kind = f == CONST_POW ? 1 : ctx.rng.below(4); // 0,3: both variable, 1: x only, 2: y only
        ctx.log << t.name << "(";
        U a, b;
        if (same) { a = indep(x); ctx.log << ", the same variable)\n"; }
        else { if (kind != 2) a = indep(x); else { a = U(x); ctx.log << x; } ctx.log << ", "; if (kind != 1) b = indep(y); else { b = U(y); ctx.log << y; } ctx.log << ")\n"; }
        const R F = t.f(x, y), dx = t.dx(x, y), dy = t.dy(x, y), dxx = t.dxx(x, y), dyy = t.dyy(x, y), dxy = t.dxy(x, y);
        const U r = same ? apply2(f, a, a) : apply2(f, a, b);
        const std::string nm = t.name;
        ctx.close(r.first_order_n(), approx<Real>(F, 0), "first-order mean of " + nm);
        const R s1 = (fabsl(x) + 1e-3L) * (fabsl(dxx) + fabsl(dxy)) + (fabsl(y) + 1e-3L) * (fabsl(dyy) + fabsl(dxy)), s2 = 4 * (fabsl(dxx) + fabsl(dyy) + fabsl(dxy)) + fabsl(dx / (fabsl(x) + 1e-3L)) + fabsl(dy / (fabsl(y) + 1e-3L));
        if (same) {
            ctx.close(r.grad(a), approx<Real>(dx + dy, fabsl(dx) + fabsl(dy) + s1), "derivative of " + nm + "(x, x)");
            ctx.close(r.hess(a, a), approx<Real>(dxx + dyy + 2 * dxy, s2), "second derivative of " + nm + "(x, x)", 64);
        } else {
            if (kind != 2) { ctx.close(r.grad(a), approx<Real>(dx, s1), "x derivative of " + nm); ctx.close(r.hess(a, a), approx<Real>(dxx, s2), "second x derivative of " + nm, 64); }
            if (kind != 1) { ctx.close(r.grad(b), approx<Real>(dy, s1), "y derivative of " + nm); ctx.close(r.hess(b, b), approx<Real>(dyy, s2), "second y derivative of " + nm, 64); }
            if (kind == 0 || kind == 3) { ctx.close(r.hess(a, b), approx<Real>(dxy, s2), "mixed derivative of " + nm, 64); ctx.close(r.hess(b, a), approx<Real>(dxy, s2), "mixed derivative of " + nm, 64); }
        }
    }
}
void run_case(Ctx &ctx) {
    switch (ctx.rng.below(6)) { case 0: ctx.log << "float: "; one<float, unc::Prop::mean>(ctx); break; case 1: ctx.log << "double, est: "; one<double, unc::Prop::est>(ctx); break; default: ctx.log << "double: "; one<double, unc::Prop::mean>(ctx); }
}
