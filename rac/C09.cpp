#include "rac.hpp"
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/functions.hpp>
#include <uncertainties/impl.hpp>
const char *prop = "C09"; long default_cases = 40000, thorough_cases = 800000;
using namespace rac; namespace unc = uncertainties;
template<typename Real> struct Poly2 { // polynomial of x, y with exact evaluation order, counting its calls
    Real c[4][4]; int deg;
    Real at(Real x, Real y) const { Real r = 0; for (int i = 3; i >= 0; --i) { Real q = 0; for (int j = 3; j >= 0; --j) q = q * y + (i + j <= deg ? c[i][j] : Real(0)); r = r * x + q; } return r; }
    Num num(Num x, Num y) const { Num r(0); for (int i = 3; i >= 0; --i) { Num q(0); for (int j = 3; j >= 0; --j) q = q * y + Num(i + j <= deg ? c[i][j] : Real(0)); r = r * x + q; } return r; }
};
template<typename Real> static Poly2<Real> poly(Ctx &ctx) { Poly2<Real> p; p.deg = ctx.rng.range(0, 3); for (auto &r : p.c) for (auto &v : r) v = Real(ctx.rng.range(-8, 8)) / 4; return p; }
template<typename Real> static void one(Ctx &ctx) {
    using U = unc::UReal<Real>; using M = unc::UReal2<Real, unc::Prop::mean>; using E = unc::UReal2<Real, unc::Prop::est>;
    const std::array<Real, 6> mom{0, 3, 0, 15, 0, 105};
    Poly2<Real> P[6]; for (auto &p : P) p = poly<Real>(ctx);
    const Real xn = Real(ctx.rng.range(-32, 32)) / 8, yn = Real(ctx.rng.range(-32, 32)) / 8, sx = Real(ctx.rng.range(1, 8)) / 4, sy = Real(ctx.rng.range(1, 8)) / 4;
    Real h = Real(std::ldexp(1.0, -ctx.rng.range(0, 6))); if (ctx.rng.chance(1, 8)) h = -h; if (ctx.rng.chance(1, 4)) h = Real(0.1 + ctx.rng.unit());
    const int what = ctx.rng.below(10); const bool def = ctx.rng.chance(1, 5); const Real eps = std::numeric_limits<Real>::epsilon();
    ctx.log << "builder " << what << (def ? " default step" : "") << " at (" << xn << ", " << yn << ") step " << h << " degree " << P[0].deg << " coefficients"; for (int i = 0; i < 4; ++i) for (int j = 0; i + j <= P[0].deg; ++j) ctx.log << " " << P[0].c[i][j]; ctx.log << "\n";
    ctx.close(unc::default_step<Real>(), rac::sqrt(Num(eps)), "default_step()", 2); ctx.close(unc::default_step<Real>(0), Num(eps), "default_step(0)", 2);
    ctx.close(unc::default_step<Real>(1), rac::sqrt(Num(eps)), "default_step(1)", 2); ctx.close(unc::default_step<Real>(2), rac::sqrt(rac::sqrt(Num(eps))), "default_step(2)", 2);
    const Num X(xn), Y(yn);
    auto u1 = [&](int k) { return unc::Unary<Real>([&P, k](const Real &x) { return P[k].at(x, 0); }); };
    auto u2 = [&](int k) { return unc::Binary<Real>([&P, k](const Real &x, const Real &y) { return P[k].at(x, y); }); };
    auto p1 = [&](int k, Num x) { return P[k].num(x, Num(0)); };
    auto p2 = [&](int k, Num x, Num y) { return P[k].num(x, y); };
    const int order = what == 2 || what == 3 || what == 6 || what == 8 ? 1 : 2; const Num H = def ? Num(order == 1 ? std::sqrt(eps) : std::sqrt(std::sqrt(eps))) : Num(h);
    // variables: independent, or a linear function of an independent one, with the same mean
    const bool dep = ctx.rng.chance(1, 2), konst = ctx.rng.chance(1, 10);
    if (what < 4) {
        U vx(1, sx), vy(2, sy); U x = konst ? U(xn) : dep ? unary(vx, xn, Real(-2)) : change_nom(vx, xn), y = change_nom(vy, yn);
        const Num cx = konst ? Num(0) : Num(dep ? -2 : 1) * Num(sx) * Num(sx), cy = Num(sy) * Num(sy);
        U r; Num f, dx, dy(0);
        switch (what) {
        case 0: r = unc::uunary<Real>(u1(0), u1(1))(x); f = p1(0, X); dx = p1(1, X); break;
        case 1: r = unc::ubinary<Real>(u2(0), u2(1), u2(2))(x, y); f = p2(0, X, Y); dx = p2(1, X, Y); dy = p2(2, X, Y); break;
        case 2: r = (def ? unc::uunary<Real>(u1(0)) : unc::uunary<Real>(u1(0), h))(x); f = p1(0, X); dx = (p1(0, X + H) - f) / H; break;
        default: r = (def ? unc::ubinary<Real>(u2(0)) : unc::ubinary<Real>(u2(0), h))(x, y); f = p2(0, X, Y); dx = (p2(0, X + H, Y) - f) / H; dy = (p2(0, X, Y + H) - f) / H;
        }
        ctx.close(r.n(), f, "mean"); ctx.close(cov(r, vx), dx * cx, "derivative with respect to x", 64); ctx.close(cov(r, vy), what % 2 ? dy * cy : Num(0), "derivative with respect to y", 64);
        if (what % 2) { // the same variable twice
            U q = what == 1 ? unc::ubinary<Real>(u2(0), u2(1), u2(2))(x, x) : (def ? unc::ubinary<Real>(u2(0)) : unc::ubinary<Real>(u2(0), h))(x, x);
            Num ff = p2(0, X, X), a = what == 1 ? p2(1, X, X) : (p2(0, X + H, X) - ff) / H, b = what == 1 ? p2(2, X, X) : (p2(0, X, X + H) - ff) / H;
            ctx.close(q.n(), ff, "mean of f(x, x)"); ctx.close(cov(q, vx), (a + b) * cx, "derivative of f(x, x)", 64);
        }
        return;
    }
    auto second = [&](auto tag) {
        using V = decltype(tag); constexpr unc::Prop PR = V::prop_mode;
        V vx(xn, sx, mom), vy(yn, sy, mom); V x = konst ? V(xn) : dep ? unary(vx, xn, Real(-2), Real(0)) : vx, y = vy;
        V r; Num f, dx, dy(0), dxx, dyy(0), dxy(0); const Num two(2); bool bin = false;
        switch (what) {
        case 4: r = unc::uunary2<Real, PR>(u1(0), u1(1), u1(2))(x); f = p1(0, X); dx = p1(1, X); dxx = p1(2, X); break;
        case 5: bin = true; r = unc::ubinary2<Real, PR>(u2(0), u2(1), u2(2), u2(3), u2(4), u2(5))(x, y); f = p2(0, X, Y); dx = p2(1, X, Y); dy = p2(2, X, Y); dxx = p2(3, X, Y); dyy = p2(4, X, Y); dxy = p2(5, X, Y); break;
        case 6: r = (def ? unc::uunary2<Real, PR>(u1(0), u1(1)) : unc::uunary2<Real, PR>(u1(0), u1(1), h))(x); f = p1(0, X); dx = p1(1, X); dxx = (p1(1, X + H) - dx) / H; break;
        case 7: r = (def ? unc::uunary2<Real, PR>(u1(0)) : unc::uunary2<Real, PR>(u1(0), h))(x); f = p1(0, X); dx = (p1(0, X + H) - p1(0, X - H)) / (two * H); dxx = (p1(0, X + H) + p1(0, X - H) - two * f) / (H * H); break;
        case 8: bin = true; P[2] = P[1]; // f_x supplied in P1, f_y in P2; keep the mixed derivative symmetric: P1 = a(x+y), P2 = a(x+y)
            for (auto k : {1, 2}) { const Real a = P[1].c[1][0], b = P[1].c[0][0]; P[k].deg = 3; for (auto &q : P[k].c) for (auto &v : q) v = 0; P[k].c[0][0] = b; P[k].c[1][0] = P[k].c[0][1] = a; P[k].c[1][1] = 1; }
            P[1].c[2][0] = 2; P[2].c[0][2] = -3; P[1].c[0][2] = P[2].c[2][0] = 0; P[2].c[0][3] = 1;
            r = (def ? unc::ubinary2<Real, PR>(u2(0), u2(1), u2(2)) : unc::ubinary2<Real, PR>(u2(0), u2(1), u2(2), h))(x, y); f = p2(0, X, Y); dx = p2(1, X, Y); dy = p2(2, X, Y);
            dxx = (p2(1, X + H, Y) - dx) / H; dyy = (p2(2, X, Y + H) - dy) / H; dxy = (p2(1, X, Y + H) - dx) / H; break;
        default: bin = true; r = (def ? unc::ubinary2<Real, PR>(u2(0)) : unc::ubinary2<Real, PR>(u2(0), h))(x, y); f = p2(0, X, Y);
            { const Num rc = p2(0, X + H, Y), lc = p2(0, X - H, Y), cr = p2(0, X, Y + H), cl = p2(0, X, Y - H), rr = p2(0, X + H, Y + H), ll = p2(0, X - H, Y - H);
              dx = (rc - lc) / (two * H); dy = (cr - cl) / (two * H); dxx = (rc + lc - two * f) / (H * H); dyy = (cr + cl - two * f) / (H * H); dxy = (rr + ll - rc - lc - cr - cl + two * f) / (two * H * H); }
        }
        const Num c = konst ? Num(0) : Num(dep ? -2 : 1);
        ctx.close(r.first_order_n(), f, "first-order mean"); ctx.close(r.grad(vx), dx * c, "x derivative", 64); ctx.close(r.hess(vx, vx), dxx * c * c, "second x derivative", 128);
        if (bin) { ctx.close(r.grad(vy), dy, "y derivative", 64); ctx.close(r.hess(vy, vy), dyy, "second y derivative", 128); ctx.close(r.hess(vx, vy), dxy * c, "mixed derivative", 128); }
    };
    if (ctx.rng.chance(1, 2)) second(M()); else second(E());
}
void run_case(Ctx &ctx) { if (ctx.rng.chance(1, 8)) { ctx.log << "float: "; one<float>(ctx); } else { ctx.log << "double: "; one<double>(ctx); } }
