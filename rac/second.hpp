// Histories of operations on second-order variables, with a shadow computed by the second-order chain rule and
// moments computed by expanding the quadratic form into monomials of the independent variables.
#pragma once
#include "rac.hpp"
#include "ids.hpp"
#include <uncertainties/ureal2.hpp>
#include <uncertainties/impl.hpp>

namespace rac {
namespace unc = uncertainties;
using Mono = std::vector<unsigned char>;
using Poly = std::map<Mono, Num>;

inline Poly pmul(const Poly &a, const Poly &b) {
    Poly r;
    for (const auto &p : a) for (const auto &q : b) {
        Mono m(p.first.size()); for (size_t i = 0; i < m.size(); ++i) m[i] = p.first[i] + q.first[i];
        const Num t = p.second * q.second; auto it = r.find(m);
        if (it == r.end()) r.emplace(m, t); else it->second += t;
    }
    return r;
}
enum Ops2 { UNARY = 1, BINARY = 2, OPER = 4, ASSIGN = 8, SCALAR = 16, COPY = 32, LINEAR = 64, DENSE = 128 };
enum Obs2 { MEAN = 1, GRAD = 2, HESS = 4, MOM = 8, MOMHI = 16, COV = 32, CHAIN = 64, PURE = 128, IDS = 256, STATS = 512 };

template<typename Real, unc::Prop P>
struct World2 {
    using U = unc::UReal2<Real, P>;
    using Pair = std::pair<int, int>;
    struct Var { U u; Num mu; std::map<int, Num> g; std::map<Pair, Num> h; std::set<int> deps; };
    Ctx &ctx; int obs;
    std::vector<U> ind; std::vector<Real> sd; std::vector<std::array<Real, 6>> mom; std::vector<unc::Id> ids;
    std::vector<Var> v;
    World2(Ctx &c, int o): ctx(c), obs(o) {}
    std::string name(int i) const { return "v" + std::to_string(i); }
    Num get(const Var &x, int i, int j) const { if (i > j) std::swap(i, j); auto it = x.h.find({i, j}); return it == x.h.end() ? Num(0) : it->second; }
    Num getg(const Var &x, int i) const { auto it = x.g.find(i); return it == x.g.end() ? Num(0) : it->second; }
    double small() {
        static const double sp[] = {0, 1, -1, 2, -2, 0.5, 3};
        return ctx.rng.chance(2, 5) ? sp[ctx.rng.below(7)] : ctx.rng.chance(1, 2) ? ctx.rng.range(-32, 32) / 8.0 : std::max(-1e3, std::min(1e3, ctx.value()));
    }
    std::array<Real, 6> moments() {
        std::array<Real, 6> m;
        switch (ctx.rng.below(4)) {
        case 0: m = {0, 3, 0, 15, 0, 105}; break;
        case 1: { // a two or three point distribution, standardized
            double p[3], x[3]; double t = 0; for (int i = 0; i < 3; ++i) { p[i] = ctx.rng.range(1, 8); x[i] = ctx.rng.range(-6, 6) + i * 0.25; t += p[i]; }
            double mu = 0, var = 0; for (int i = 0; i < 3; ++i) mu += p[i] / t * x[i]; for (int i = 0; i < 3; ++i) var += p[i] / t * (x[i] - mu) * (x[i] - mu);
            const double s = std::sqrt(var);
            for (int k = 3; k <= 8; ++k) { double e = 0; for (int i = 0; i < 3; ++i) e += p[i] / t * std::pow((x[i] - mu) / s, k); m[k - 3] = Real(e); }
            break; }
        default: for (auto &q : m) q = Real(small());
        }
        return m;
    }
    int add_indep() {
        const Real n = Real(small()); Real s; do s = Real(std::fabs(small())); while (!(s > Real(1e-4)));
        if (ctx.rng.chance(1, 25)) s = 0;
        const auto m = moments();
        if (!ids.empty()) gap(ctx, ids[0]);
        Var w; w.u = U(n, s, m, Real(-1)); w.mu = Num(n);
        const int k = int(ind.size()); w.g[k] = Num(s); w.deps.insert(k);
        ind.push_back(w.u); sd.push_back(s); mom.push_back(m); ids.push_back(w.u.indepid());
        ctx.log << name(int(v.size())) << " = UReal2(" << n << ", " << s << ", {"; for (auto q : m) ctx.log << q << " "; ctx.log << "}, -1)\n";
        v.push_back(w); return int(v.size()) - 1;
    }
    int pick() { return ctx.rng.below(int(v.size())); }
    static bool in(const Num &x) { return std::isfinite(x.v) && std::fabs(x.v) < 1e6L && (x.v == 0 || std::fabs(x.v) > 1e-9L) && x.e < 1e4L * (1 + std::fabs(x.v)) * 1e3L; }
    bool sane(const Var &w) const {
        if (!in(w.mu)) return false;
        for (const auto &p : w.g) if (!in(p.second)) return false;
        for (const auto &p : w.h) if (!in(p.second)) return false;
        return true;
    }
    // second-order chain rule for f(x, y)
    void chain(Var &w, const Var *x, const Var *y, Num fx, Num fy, Num fxx, Num fyy, Num fxy) {
        std::set<int> keys(x->deps); if (y) keys.insert(y->deps.begin(), y->deps.end());
        w.deps = keys;
        const Num half(0.5L);
        for (int i : keys) {
            Num g = fx * getg(*x, i); if (y) g += fy * getg(*y, i);
            w.g[i] = g;
            for (int j : keys) if (i <= j) {
                Num h = fx * get(*x, i, j) + half * fxx * getg(*x, i) * getg(*x, j);
                if (y) {
                    h += fy * get(*y, i, j) + half * fyy * getg(*y, i) * getg(*y, j);
                    h += half * fxy * (getg(*x, i) * getg(*y, j) + getg(*x, j) * getg(*y, i));
                }
                w.h[{i, j}] = h;
            }
        }
    }
    int step(int ops) {
        std::vector<int> avail; for (int b = 1; b <= DENSE; b <<= 1) if (ops & b) avail.push_back(b);
        const int op = avail[ctx.rng.below(int(avail.size()))];
        Var w; int target = -1; auto &L = ctx.log; const std::string nm = name(int(v.size()));
        std::function<void()> apply = [] {};
        auto N = [](Real r) { return Num(r); };
        int right = -1; Var rb;
        switch (op) {
        case UNARY: {
            const int i = pick(); const Real m = Real(small()), a = Real(small()), b = Real(small());
            L << nm << " = unary(" << name(i) << ", " << m << ", " << a << ", " << b << ")\n";
            chain(w, &v[i], nullptr, N(a), Num(0), N(b), Num(0), Num(0)); w.mu = N(m); if (!sane(w)) return -1;
            right = i; rb = v[i]; w.u = unary(v[i].u, m, a, b);
            break; }
        case BINARY: case ASSIGN: {
            const int i = pick(), j = ctx.rng.chance(1, 5) ? i : pick(); Real d[5]; for (auto &q : d) q = Real(small()); const Real m = Real(small());
            if (op == BINARY) L << nm << " = binary("; else L << "binary_assign(";
            L << name(i) << ", " << name(j) << ", " << m << ", dx " << d[0] << ", dy " << d[1] << ", dxx " << d[2] << ", dyy " << d[3] << ", dxy " << d[4] << ")\n";
            const Var a = v[i], b = v[j];
            chain(w, &a, &b, N(d[0]), N(d[1]), N(d[2]), N(d[3]), N(d[4])); w.mu = N(m); if (!sane(w)) return -1;
            if (op == BINARY) { right = j; rb = v[j]; w.u = binary(v[i].u, v[j].u, m, d[0], d[1], d[2], d[3], d[4]); if (i != j) same(i, a); }
            else { if (i != j) { right = j; rb = v[j]; } binary_assign(v[i].u, v[j].u, m, d[0], d[1], d[2], d[3], d[4]); w.u = v[i].u; target = i; }
            break; }
        case OPER: case LINEAR: case SCALAR: {
            const bool scalar = op == SCALAR; const int i = pick(); int j = ctx.rng.chance(1, 5) ? i : pick(); const int o = op == LINEAR ? ctx.rng.below(2) : ctx.rng.below(scalar ? 4 : 5);
            Var b; Real k = 0; const bool swap = scalar && ctx.rng.chance(1, 2);
            Var a = v[i];
            if (scalar) { k = Real(small()); b.mu = N(k); b.u = U(k); } else b = v[j];
            L << nm << " = "; if (swap) L << k << " " << "+-*/"[o] << " " << name(i) << "\n"; else { L << name(i) << " " << "+-*/n"[o] << " "; if (scalar) L << k << "\n"; else L << name(j) << "\n"; }
            if (swap) std::swap(a, b);
            const Num am = a.mu, bm = b.mu;
            if (o == 3 && std::fabs(bm.v) < 1e-3L) return -1;
            switch (o) {
            case 0: chain(w, &a, &b, Num(1), Num(1), Num(0), Num(0), Num(0)); w.mu = am + bm; break;
            case 1: chain(w, &a, &b, Num(1), Num(-1), Num(0), Num(0), Num(0)); w.mu = am - bm; break;
            case 2: chain(w, &a, &b, bm, am, Num(0), Num(0), Num(1)); w.mu = am * bm; break;
            case 3: chain(w, &a, &b, Num(1) / bm, -(am / (bm * bm)), Num(0), Num(2) * am / (bm * bm * bm), -(Num(1) / (bm * bm))); w.mu = am / bm; break;
            default: chain(w, &a, nullptr, Num(-1), Num(0), Num(0), Num(0), Num(0)); w.mu = -am;
            }
            if (!sane(w)) return -1;
            const U x = a.u, y = b.u;
            if (scalar) switch (o) {
                case 0: w.u = swap ? k + v[i].u : v[i].u + k; break; case 1: w.u = swap ? k - v[i].u : v[i].u - k; break;
                case 2: w.u = swap ? k * v[i].u : v[i].u * k; break; default: w.u = swap ? k / v[i].u : v[i].u / k; break; }
            else switch (o) { case 0: w.u = v[i].u + v[j].u; break; case 1: w.u = v[i].u - v[j].u; break; case 2: w.u = v[i].u * v[j].u; break; case 3: w.u = v[i].u / v[j].u; break; default: w.u = -v[i].u; }
            break; }
        case DENSE: { // a linear combination of independent variables, their squares and a random subset of their products
            const int n = int(ind.size()), density = ctx.rng.range(1, 4); U r(Real(0)); L << nm << " = sum of";
            auto add = [&](const U &t, Real k) { r = binary(r, t, Real(0), Real(1), k, Real(0), Real(0), Real(0)); };
            for (int i = 0; i < n; ++i) {
                const Real g = Real(small()), h = Real(ctx.rng.chance(1, 4) ? 0.0 : small());
                L << " " << g << "*V" << i << " + " << h << "*V" << i << "^2";
                add(unary(ind[i], Real(0), g, 2 * h), Real(1)); w.deps.insert(i);
                w.g[i] = Num(g) * Num(sd[i]); w.h[{i, i}] = Num(h) * Num(sd[i]) * Num(sd[i]);
                for (int j = i + 1; j < n; ++j) {
                    if (ctx.rng.below(4) >= density) continue;
                    const Real t = Real(small()); L << " + " << t << "*V" << i << "*V" << j;
                    add(binary(ind[i], ind[j], Real(0), Real(0), Real(0), Real(0), Real(0), t), Real(1));
                    w.h[{i, j}] = Num(t) * Num(sd[i]) * Num(sd[j]) * Num(0.5L);
                }
            }
            const Real m = Real(small()); r = unary(r, m, Real(1), Real(0)); L << " + " << m << " (V: independent variables)\n";
            w.mu = Num(m); w.u = r; if (!sane(w)) return -1;
            break; }
        case COPY: { const int i = pick(); L << nm << " = +" << name(i) << "\n"; w = v[i]; w.u = +v[i].u; break; }
        }
        if (right >= 0) same(right, rb);
        if (target < 0) { v.push_back(w); return int(v.size()) - 1; }
        v[target] = w; return target;
    }
    void same(int i, const Var &b) {
        if (!(obs & PURE)) return;
        const U &x = v[i].u, &y = b.u;
        ctx.require(x.first_order_n() == y.first_order_n() && x.indepid() == y.indepid(), "an operand was modified");
        for (size_t k = 0; k < ind.size(); ++k) if (sd[k] > 0) {
            ctx.require(x.grad(ind[k]) == y.grad(ind[k]), "an operand's gradient was modified");
            for (size_t q = 0; q < ind.size(); ++q) if (sd[q] > 0) ctx.require(x.hess(ind[k], ind[q]) == y.hess(ind[k], ind[q]), "an operand's Hessian was modified");
        }
    }
    static bool solid(const Num &x) { return std::fabs(x.v) > 1e3L * std::numeric_limits<Real>::epsilon() * x.e; }
    Poly poly(const Var &w) const {
        const size_t n = ind.size(); Poly p;
        for (const auto &q : w.g) { Mono m(n, 0); m[q.first] = 1; p[m] = q.second; }
        for (const auto &q : w.h) { Mono m(n, 0); m[q.first.first] += 1; m[q.first.second] += 1; p[m] = q.first.first == q.first.second ? q.second : Num(2) * q.second; }
        return p;
    }
    Num expect(const Mono &m) const {
        Num r(1);
        for (size_t i = 0; i < m.size(); ++i) switch (m[i]) { case 0: case 2: break; case 1: return Num(0, 0); default: r *= Num(mom[i][m[i] - 3]); }
        return r;
    }
    Num expect(const Poly &p) const { Num r(0, 0); for (const auto &q : p) { const Num e = expect(q.first); if (e.v != 0 || e.e != 0) r += q.second * e; } return r; }
    Num expect2(const Poly &a, const Poly &b) const {
        Num r(0, 0);
        for (const auto &p : a) for (const auto &q : b) { Mono m(p.first.size()); bool zero = false; for (size_t i = 0; i < m.size(); ++i) { m[i] = p.first[i] + q.first[i]; if (m[i] == 1) { zero = true; break; } } if (!zero) r += p.second * q.second * expect(m); }
        return r;
    }
    void check(int i) {
        Var &w = v[i]; const U &u = w.u; const std::string nm = name(i); const int n = int(ind.size());
        if (obs & MEAN) ctx.close(u.first_order_n(), w.mu, "first-order mean of " + nm);
        if (obs & IDS) {
            int nz = 0, last = -1; for (int k : w.deps) if (solid(getg(w, k))) { ++nz; last = k; }
            if (w.deps.empty()) ctx.equal(u.indepid(), 0, "identity of constant " + nm);
            else if (nz == int(w.deps.size())) { if (nz == 1) ctx.equal(u.indepid(), ids[last], "identity of " + nm); else ctx.equal(u.indepid(), int(unc::invalid_id), "identity of " + nm); }
        }
        if (obs & (GRAD | HESS)) for (int k = 0; k < n; ++k) if (sd[k] > 0) {
            if (obs & GRAD) ctx.close(u.grad(ind[k]), getg(w, k) / Num(sd[k]), nm + ".grad(independent " + std::to_string(k) + ")", 32);
            if (obs & HESS) for (int q = 0; q < n; ++q) if (sd[q] > 0)
                ctx.close(u.hess(ind[k], ind[q]), Num(2) * get(w, k, q) / (Num(sd[k]) * Num(sd[q])), nm + ".hess(independent " + std::to_string(k) + ", independent " + std::to_string(q) + ")", 32);
        }
        if (obs & MOM) {
            const Poly p = poly(w); const Num m1 = expect(p);
            ctx.close(u.m(1), m1, nm + ".m(1)", 64);
            ctx.close(u.n(), P == unc::Prop::est ? w.mu - m1 : w.mu + m1, nm + ".n()", 64);
            ctx.close(nom(u), P == unc::Prop::est ? w.mu - m1 : w.mu + m1, "nom(" + nm + ")", 64);
            Poly q = p; Mono zero(ind.size(), 0); if (ind.size()) q[zero] = -m1;
            const Num m2 = expect2(q, q);
            ctx.close(u.m(2), m2, nm + ".m(2)", 256); ctx.close(var(u), m2, "var(" + nm + ")", 256);
            if ((obs & MOMHI) && n <= (ctx.thorough ? 7 : 5)) {
                const Poly q2 = pmul(q, q);
                ctx.close(u.m(3), expect2(q2, q), nm + ".m(3)", 1024);
                ctx.close(u.m(4), expect2(q2, q2), nm + ".m(4)", 4096);
            }
            if (obs & STATS) {
                const Real a2 = u.m(2), a3 = u.m(3), a4 = u.m(4);
                if (a2 > Real(1e-6) && std::isfinite(a4)) {
                    const Num A(a2), s = rac::sqrt(A);
                    ctx.close(u.s(), s, nm + ".s() against sqrt(m(2))", 16); ctx.close(sdev(u), s, "sdev(" + nm + ")", 16);
                    ctx.close(u.skew(), Num(a3) / (A * s), nm + ".skew()", 16); ctx.close(u.kurt(), Num(a4) / (A * A), nm + ".kurt()", 16);
                }
            }
        }
        if (obs & COV) for (int r = 0; r < 3; ++r) {
            const int j = r == 0 ? i : pick(); const Poly p = poly(w), q = poly(v[j]);
            const Num want = expect2(p, q) - expect(p) * expect(q);
            ctx.close(cov(u, v[j].u), want, "cov(" + nm + ", " + name(j) + ")", 256);
            ctx.close(cov(v[j].u, u), want, "cov(" + name(j) + ", " + nm + ")", 256);
            const Num vx = expect2(p, p) - expect(p) * expect(p), vy = expect2(q, q) - expect(q) * expect(q);
            if (vx.v > 1e-3L && vy.v > 1e-3L && vx.e < 1e4L * vx.v && vy.e < 1e4L * vy.v && std::numeric_limits<Real>::digits > 30)
                ctx.close(corr(u, v[j].u), want / (rac::sqrt(vx) * rac::sqrt(vy)), "corr(" + nm + ", " + name(j) + ")", 1024);
        }
        if (obs & CHAIN) for (int r = 0; r < 4; ++r) {
            const int a = pick(), b = ctx.rng.chance(1, 2) ? a : pick(); const Var &x = v[a], &y = v[b];
            auto single = [](const Var &x) { return x.deps.size() == 1; };
            auto threw = [&](auto f) { try { (void)f(); } catch (const std::invalid_argument &) { return true; } return false; };
            auto generic = [&](const Var &x) { for (int k : x.deps) if (!solid(getg(x, k))) return false; return true; };
            if (!generic(x) || !generic(y)) continue;
            const Num z(0, 0);
            if (single(x)) {
                const int k = *x.deps.begin();
                ctx.close(u.grad(x.u), getg(w, k) / getg(x, k), nm + ".grad(" + name(a) + ")", 32);
            } else ctx.require(threw([&] { return u.grad(x.u); }), nm + ".grad(" + name(a) + ") did not throw std::invalid_argument");
            if (!single(x) || !single(y)) { ctx.require(threw([&] { return u.hess(x.u, y.u); }), nm + ".hess(" + name(a) + ", " + name(b) + ") did not throw std::invalid_argument"); continue; }
            const int k = *x.deps.begin(), q = *y.deps.begin();
            const Num gx = getg(x, k), gy = getg(y, q);
            if (k != q) {
                const Num want = Num(2) * get(w, k, q) / (gx * gy);
                ctx.close(u.hess(x.u, y.u), want, nm + ".hess(" + name(a) + ", " + name(b) + ")", 32);
                ctx.close(u.hess(y.u, x.u), want, nm + ".hess(" + name(b) + ", " + name(a) + ")", 32);
            } else {
                const Num hx = get(x, k, k), hy = get(y, q, q);
                auto differ = [](const Num &p, const Num &q) { return std::fabs(p.v - q.v) > 1e-3L * (std::fabs(p.v) + std::fabs(q.v)) && solid(p - q); };
                if (differ(gx, gy) || differ(hx, hy)) ctx.require(threw([&] { return u.hess(x.u, y.u); }), nm + ".hess(" + name(a) + ", " + name(b) + ") did not throw for different functions of one independent variable");
                else if (a == b) ctx.close(u.hess(x.u, y.u), (Num(2) * get(w, k, k) - getg(w, k) / gx * (Num(2) * hx)) / (gx * gx), nm + ".hess(" + name(a) + ", " + name(a) + ")", 32);
            }
        }
    }
    void start(int lo, int hi) {
        const int n = ctx.rng.range(lo, hi);
        for (int i = 0; i < n; ++i) add_indep();
        if (ctx.rng.chance(1, 4)) { Var w; const Real k = Real(small()); w.u = U(k); w.mu = Num(k); ctx.log << name(int(v.size())) << " = UReal2(" << k << ")\n"; v.push_back(w); }
    }
    void check_all() { for (size_t i = 0; i < v.size(); ++i) check(int(i)); }
};
template<typename Real, unc::Prop P>
void history2(Ctx &ctx, int ops, int obs, int lo, int hi, int maxsteps) {
    World2<Real, P> w(ctx, obs); w.start(lo, hi);
    const int steps = ctx.rng.range(1, maxsteps);
    for (int k = 0; k < steps; ++k) { const int i = w.step(ops); if (i >= 0) w.check(i); }
    if (ctx.rng.chance(1, 4)) w.check_all();
}
inline void history2_any(Ctx &ctx, int ops, int obs, int lo, int hi, int maxsteps) {
    switch (ctx.rng.below(8)) {
    case 0: ctx.log << "UReal2<float, mean>\n"; history2<float, unc::Prop::mean>(ctx, ops, obs, lo, hi, maxsteps); break;
    case 1: case 2: case 3: ctx.log << "UReal2<double, est>\n"; history2<double, unc::Prop::est>(ctx, ops, obs, lo, hi, maxsteps); break;
    default: ctx.log << "UReal2<double, mean>\n"; history2<double, unc::Prop::mean>(ctx, ops, obs, lo, hi, maxsteps);
    }
}
} // namespace rac
