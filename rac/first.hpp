// Histories of operations on first-order variables, with a shadow computed by linear propagation.
#pragma once
#include "rac.hpp"
#include "ids.hpp"
#include <uncertainties/ureal.hpp>
#include <uncertainties/impl.hpp>

namespace rac {
namespace unc = uncertainties;

enum Ops { UNARY = 1, BINARY = 2, NARY = 4, OPER = 8, ASSIGN = 16, OPASSIGN = 32, READ = 64, COPY = 128, CHANGE = 256, CONVERT = 512, SCALAR = 1024 };
enum Obs { MEAN = 1, SENS = 2, VAR = 4, COV = 8, IDS = 16, GRAD = 32, PURE = 64, CORR = 128 };

template<typename Real>
struct World {
    using U = unc::UReal<Real>;
    struct Var { U u; Num mu; std::map<int, Num> c; std::set<int> deps; };
    Ctx &ctx;
    int obs;
    std::vector<U> ind; std::vector<Real> sd; std::vector<unc::Id> ids;
    std::vector<Var> v;
    World(Ctx &c, int o): ctx(c), obs(o) {}

    std::string name(int i) const { return "v" + std::to_string(i); }
    int add_indep(bool allow_zero) {
        const Real n = Real(ctx.value());
        const Real s = Real(allow_zero && ctx.rng.chance(1, 12) ? 0.0 : ctx.positive());
        if (!ids.empty()) gap(ctx, ids[0]);
        Var w; w.u = U(n, s); w.mu = Num(n);
        const int k = int(ind.size());
        w.c[k] = Num(s); w.deps.insert(k);
        ind.push_back(w.u); sd.push_back(s); ids.push_back(w.u.indepid());
        if (obs & IDS) {
            ctx.require(ids[k] > 0, "identity of a new independent variable is not positive");
            for (int i = 0; i < k; ++i) ctx.require(ids[i] != ids[k], "two constructions gave the same identity");
        }
        ctx.log << "v" << v.size() << " = UReal(" << n << ", " << s << ")\n";
        v.push_back(w);
        return int(v.size()) - 1;
    }
    void add_const() {
        Var w; const Real n = Real(ctx.value());
        if (ctx.rng.chance(1, 4)) { w.u = U(); w.mu = Num(0); ctx.log << "v" << v.size() << " = UReal()\n"; }
        else { w.u = U(n); w.mu = Num(n); ctx.log << "v" << v.size() << " = UReal(" << n << ")\n"; }
        v.push_back(w);
    }
    void comb(std::map<int, Num> &r, const Num &d, const std::map<int, Num> &c) { for (const auto &p : c) r[p.first] = r.count(p.first) ? r[p.first] + d * p.second : d * p.second; }
    Real coefval() {
        static const double sp[] = {0, 1, -1, 2, -2, 0.5, -0.5};
        return ctx.rng.chance(2, 5) ? Real(sp[ctx.rng.below(7)]) : Real(ctx.value());
    }
    int pick() { return ctx.rng.below(int(v.size())); }
    bool sane(const Var &w) const {
        auto in = [](const Num &x) { return std::isfinite(x.v) && std::fabs(x.v) < 1e12L && (x.v == 0 || std::fabs(x.v) > 1e-12L) && x.e < 1e16L * (1 + std::fabs(x.v)); };
        if (!in(w.mu)) return false;
        for (const auto &p : w.c) if (!in(p.second)) return false;
        return true;
    }

    // one random operation; returns index of the variable that has changed, or -1
    int step(int ops) {
        std::vector<int> avail;
        for (int b = 1; b <= SCALAR; b <<= 1) if (ops & b) avail.push_back(b);
        const int op = avail[ctx.rng.below(int(avail.size()))];
        Var w; int target = -1;
        auto &L = ctx.log;
        const std::string nm = "v" + std::to_string(v.size());
        switch (op) {
        case UNARY: {
            const int i = pick(); const Real m = Real(ctx.value()), d = coefval();
            L << nm << " = unary(" << name(i) << ", " << m << ", " << d << ")\n";
            w.u = unary(v[i].u, m, d); w.mu = Num(m); comb(w.c, Num(d), v[i].c); w.deps = v[i].deps;
            break; }
        case BINARY: {
            const int i = pick(), j = ctx.rng.chance(1, 6) ? i : pick(); const Real m = Real(ctx.value()), d = coefval(), e = coefval();
            L << nm << " = binary(" << name(i) << ", " << name(j) << ", " << m << ", " << d << ", " << e << ")\n";
            w.u = binary(v[i].u, v[j].u, m, d, e); w.mu = Num(m); comb(w.c, Num(d), v[i].c); comb(w.c, Num(e), v[j].c);
            w.deps = v[i].deps; w.deps.insert(v[j].deps.begin(), v[j].deps.end());
            break; }
        case NARY: {
            const int n = ctx.rng.chance(1, 60) ? ctx.rng.range(21, 140) : ctx.rng.chance(1, 10) ? ctx.rng.range(8, 20) : ctx.rng.below(6);
            const Real m = Real(ctx.value()); std::vector<U> xs; std::vector<Real> ds;
            L << nm << " = nary({";
            for (int k = 0; k < n; ++k) { const int i = pick(); const Real d = coefval(); xs.push_back(v[i].u); ds.push_back(d); L << name(i) << "*" << d << " "; comb(w.c, Num(d), v[i].c); w.deps.insert(v[i].deps.begin(), v[i].deps.end()); }
            L << "}, " << m << ")\n";
            const std::vector<U> before = xs;
            w.u = nary(xs.begin(), xs.end(), m, ds.begin()); w.mu = Num(m);
            break; }
        case OPER: {
            const int i = pick(), j = ctx.rng.chance(1, 6) ? i : pick(); const int o = ctx.rng.below(6);
            const Var a = v[i], b = v[j];
            w.deps = a.deps; if (o < 4) w.deps.insert(b.deps.begin(), b.deps.end());
            if (o == 3 && (b.u.n() == 0 || std::fabs(b.u.n()) < Real(1e-6))) return -1;
            L << nm << " = " << name(i) << " " << "+-*/np"[o] << " " << name(j) << "\n";
            const Num am = a.mu, bm = b.mu;
            switch (o) {
            case 0: w.u = v[i].u + v[j].u; w.mu = am + bm; comb(w.c, Num(1), a.c); comb(w.c, Num(1), b.c); break;
            case 1: w.u = v[i].u - v[j].u; w.mu = am - bm; comb(w.c, Num(1), a.c); comb(w.c, Num(-1), b.c); break;
            case 2: w.u = v[i].u * v[j].u; w.mu = am * bm; comb(w.c, bm, a.c); comb(w.c, am, b.c); break;
            case 3: w.u = v[i].u / v[j].u; w.mu = am / bm; comb(w.c, Num(1) / bm, a.c); comb(w.c, -(am / (bm * bm)), b.c); break;
            case 4: w.u = -v[i].u; w.mu = -am; comb(w.c, Num(-1), a.c); break;
            default: w.u = +v[i].u; w.mu = am; w.c = a.c; break;
            }
            break; }
        case SCALAR: {
            const int i = pick(); const int o = ctx.rng.below(8); const Real k = o == 6 ? Real(ctx.nonzero()) : Real(ctx.value());
            const Var a = v[i]; const Num K(k), am = a.mu;
            if (o == 7 && (a.u.n() == 0 || std::fabs(a.u.n()) < Real(1e-6))) return -1;
            L << nm << " = " << name(i) << " scalar-op" << o << " " << k << "\n";
            w.deps = a.deps;
            switch (o) {
            case 0: w.u = v[i].u + k; w.mu = am + K; w.c = a.c; break;
            case 1: w.u = k + v[i].u; w.mu = am + K; w.c = a.c; break;
            case 2: w.u = v[i].u - k; w.mu = am - K; w.c = a.c; break;
            case 3: w.u = k - v[i].u; w.mu = K - am; comb(w.c, Num(-1), a.c); break;
            case 4: w.u = v[i].u * k; w.mu = am * K; comb(w.c, K, a.c); break;
            case 5: w.u = k * v[i].u; w.mu = am * K; comb(w.c, K, a.c); break;
            case 6: w.u = v[i].u / k; w.mu = am / K; comb(w.c, Num(1) / K, a.c); break;
            default: w.u = k / v[i].u; w.mu = K / am; comb(w.c, -(K / (am * am)), a.c); break;
            }
            break; }
        case ASSIGN: {
            const int i = pick(), j = ctx.rng.chance(1, 4) ? i : pick(); const Real m = Real(ctx.value()), d = coefval(), e = coefval();
            L << name(i) << ".binary_assign(" << name(j) << ", " << m << ", " << d << ", " << e << ")\n";
            w.mu = Num(m); comb(w.c, Num(d), v[i].c); comb(w.c, Num(e), v[j].c);
            w.deps = v[i].deps; w.deps.insert(v[j].deps.begin(), v[j].deps.end());
            if (!sane(w)) return -1;
            const Var right = v[j];
            v[i].u.binary_assign(v[j].u, m, d, e); w.u = v[i].u; target = i;
            if (i != j) unchanged(j, right);
            break; }
        case OPASSIGN: {
            const int i = pick(), j = ctx.rng.chance(1, 4) ? i : pick(); const int o = ctx.rng.below(4);
            const Var a = v[i], b = v[j]; const Num am = a.mu, bm = b.mu;
            if (o == 3 && (b.u.n() == 0 || std::fabs(b.u.n()) < Real(1e-6))) return -1;
            L << name(i) << " " << "+-*/"[o] << "= " << name(j) << "\n";
            w.deps = a.deps; w.deps.insert(b.deps.begin(), b.deps.end());
            switch (o) {
            case 0: w.mu = am + bm; comb(w.c, Num(1), a.c); comb(w.c, Num(1), b.c); break;
            case 1: w.mu = am - bm; comb(w.c, Num(1), a.c); comb(w.c, Num(-1), b.c); break;
            case 2: w.mu = am * bm; comb(w.c, bm, a.c); comb(w.c, am, b.c); break;
            default: w.mu = am / bm; comb(w.c, Num(1) / bm, a.c); comb(w.c, -(am / (bm * bm)), b.c); break;
            }
            if (!sane(w)) return -1;
            switch (o) { case 0: v[i].u += v[j].u; break; case 1: v[i].u -= v[j].u; break; case 2: v[i].u *= v[j].u; break; default: v[i].u /= v[j].u; }
            w.u = v[i].u; target = i;
            if (i != j) unchanged(j, b);
            break; }
        case READ: {
            const int i = pick(); const int o = ctx.rng.below(4);
            L << "read " << "svSV"[o] << " of " << name(i) << "\n";
            const U &c = v[i].u;
            switch (o) { case 0: (void)v[i].u.s(); break; case 1: (void)var(v[i].u); break; case 2: (void)c.s(); break; default: (void)var(c); }
            return i; }
        case COPY: {
            const int i = pick(); L << nm << " = copy of " << name(i) << "\n";
            w = v[i];
            if (ctx.rng.chance(1, 3)) { U t = v[i].u; U z(Real(3), Real(2)); z = t; w.u = z; }
            break; }
        case CHANGE: {
            const int i = pick(); const Real m = Real(ctx.value()); L << nm << " = change_nom(" << name(i) << ", " << m << ")\n";
            w = v[i]; w.mu = Num(m); w.u = change_nom(v[i].u, m);
            break; }
        case CONVERT: {
            const int i = pick(); L << nm << " = round trip of " << name(i) << " through long double\n";
            w = v[i]; unc::UReal<long double> t = v[i].u; w.u = t;
            break; }
        }
        if (!sane(w)) return -1;
        if (target < 0) { v.push_back(w); return int(v.size()) - 1; }
        v[target] = w;
        return target;
    }
    void unchanged(int j, const Var &before) {
        if (!(obs & PURE)) return;
        const U &a = v[j].u, &b = before.u;
        ctx.require(a.n() == b.n() || (a.n() != a.n() && b.n() != b.n()), "the right operand's mean was modified");
        ctx.require(a.indepid() == b.indepid(), "the right operand's identity was modified");
        for (size_t k = 0; k < ind.size(); ++k) ctx.require(cov(a, ind[k]) == cov(b, ind[k]), "the right operand's sensitivities were modified");
    }
    // the sensitivity differs from zero by more than any rounding error
    static bool solid(const Num &x) { return std::fabs(x.v) > 1e3L * std::numeric_limits<Real>::epsilon() * x.e; }
    Num varof(const Var &w) { Num r(0, 0); for (const auto &p : w.c) r += p.second * p.second; return r; }
    void check(int i) {
        Var &w = v[i]; const U &u = w.u; const std::string nm = name(i);
        if (obs & MEAN) { ctx.close(u.n(), w.mu, "mean of " + nm); ctx.close(nom(u), w.mu, "nom of " + nm); }
        if (obs & SENS) for (size_t k = 0; k < ind.size(); ++k) {
            const Num want = w.c.count(int(k)) ? w.c[int(k)] * Num(sd[k]) : Num(0);
            ctx.close(cov(u, ind[k]), want, "cov(" + nm + ", independent " + std::to_string(k) + ")");
            ctx.close(cov(ind[k], u), want, "cov(independent " + std::to_string(k) + ", " + nm + ")");
        }
        if (obs & VAR) {
            const Num vv = varof(w), ss = rac::sqrt(vv);
            auto one = [&](const U &c, U m, const char *tag) {
                if (ctx.rng.chance(1, 2)) { ctx.close(var(c), vv, std::string("var(const ") + nm + ")" + tag); ctx.close(c.s(), ss, nm + ".s() const" + tag); ctx.close(sdev(c), ss, "sdev(" + nm + ")" + tag); }
                if (ctx.rng.chance(1, 2)) { ctx.close(m.s(), ss, nm + ".s()" + tag); ctx.require(!(m.s() < 0), "negative standard deviation"); ctx.close(var(m), vv, "var(" + nm + ") after s()" + tag); const U &mc = m; ctx.close(mc.s(), ss, nm + ".s() const after s()" + tag); ctx.close(var(mc), vv, "var const after s()"); }
                else { ctx.close(var(m), vv, std::string("var(") + nm + ")" + tag); ctx.close(m.s(), ss, nm + ".s() after var" + tag); const U &mc = m; ctx.close(mc.s(), ss, nm + ".s() const after var" + tag); }
                ctx.close(cov(c, c), vv, "cov(" + nm + ", itself)");
            };
            one(u, w.u, "");
        }
        if (obs & COV) for (int r = 0; r < 3; ++r) {
            const int j = r == 0 ? i : pick(); Num want(0, 0);
            for (const auto &p : w.c) { auto it = v[j].c.find(p.first); if (it != v[j].c.end()) want += p.second * it->second; }
            ctx.close(cov(u, v[j].u), want, "cov(" + nm + ", " + name(j) + ")");
            ctx.close(cov(v[j].u, u), want, "cov(" + name(j) + ", " + nm + ")");
            if (obs & CORR) {
                const Num sx = rac::sqrt(varof(w)), sy = rac::sqrt(varof(v[j]));
                if (sx.v > 1e-6 && sy.v > 1e-6 && sx.e < 1e4L * sx.v && sy.e < 1e4L * sy.v) ctx.close(corr(u, v[j].u), want / (sx * sy), "corr(" + nm + ", " + name(j) + ")", 64);
            }
        }
        if (obs & IDS) {
            int nz = 0, last = -1;
            for (int k : w.deps) { auto it = w.c.find(k); if (it != w.c.end() && solid(it->second)) { ++nz; last = k; } }
            if (w.deps.empty()) { ctx.equal(u.indepid(), 0, "identity of the constant " + nm); ctx.require(u.isindep(), "isindep of a constant"); ctx.close(var(u), Num(0), "variance of a constant"); }
            else if (nz == int(w.deps.size())) {
                if (nz == 1) { ctx.equal(u.indepid(), ids[last], "identity of " + nm); ctx.require(u.isindep(), "isindep of a function of one independent variable"); }
                else { ctx.equal(u.indepid(), int(unc::invalid_id), "identity of " + nm); ctx.require(!u.isindep(), "isindep of a function of several independent variables"); }
            }
        }
        if (obs & GRAD) for (int r = 0; r < 4; ++r) {
            const int j = pick(); Var &x = v[j]; U y = w.u;
            const bool generic = [&] { for (int k : x.deps) if (!solid(x.c[k])) return false; return true; }();
            if (!generic) continue;
            if (x.deps.size() == 1) {
                const int k = *x.deps.begin(); const Num want = w.c.count(k) ? w.c[k] / x.c[k] : Num(0);
                const U xb = x.u;
                ctx.close(y.grad(x.u), want, nm + ".grad(" + name(j) + ")");
                ctx.require(y.n() == w.u.n() && y.indepid() == w.u.indepid(), "grad modified its receiver");
                for (size_t q = 0; q < ind.size(); ++q) ctx.require(cov(y, ind[q]) == cov(w.u, ind[q]) && cov(x.u, ind[q]) == cov(xb, ind[q]), "grad modified a variable");
            } else {
                bool threw = false; try { (void)y.grad(x.u); } catch (const std::invalid_argument &) { threw = true; }
                ctx.require(threw, nm + ".grad(" + name(j) + ") did not throw std::invalid_argument");
            }
        }
    }
    void start(bool allow_zero) {
        const int n = ctx.rng.chance(1, 150) ? ctx.rng.range(17, 140) : ctx.rng.chance(1, 12) ? ctx.rng.range(6, 12) : ctx.rng.range(1, 4);
        for (int i = 0; i < n; ++i) add_indep(allow_zero);
        if (ctx.rng.chance(1, 2)) add_const();
    }
    void check_all() { for (size_t i = 0; i < v.size(); ++i) check(int(i)); }
};

template<typename Real>
void history(Ctx &ctx, int ops, int obs, bool allow_zero = true) {
    World<Real> w(ctx, obs);
    w.start(allow_zero);
    const int steps = ctx.rng.chance(1, 20) ? ctx.rng.range(15, 40) : ctx.rng.range(1, 8);
    for (int k = 0; k < steps; ++k) {
        if (ctx.rng.chance(1, 10)) w.add_indep(allow_zero);
        const int i = w.step(ops);
        if (i >= 0) w.check(i);
    }
    w.check_all();
}
template<typename>
struct TypeName;
inline void history_any(Ctx &ctx, int ops, int obs, bool allow_zero = true) {
    switch (ctx.rng.below(8)) {
    case 0: ctx.log << "Real = float\n"; history<float>(ctx, ops, obs, allow_zero); break;
    default: ctx.log << "Real = double\n"; history<double>(ctx, ops, obs, allow_zero); break;
    }
}
} // namespace rac
