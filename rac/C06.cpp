#include "first.hpp"
const char *prop = "C06"; long default_cases = 30000, thorough_cases = 500000;
using namespace rac;
template<typename A, typename B>
void conv(Ctx &ctx) {
    const long double sl = 64 * std::max(1.0L, (long double)std::numeric_limits<A>::epsilon() / std::numeric_limits<B>::epsilon());
    World<A> w(ctx, 0);
    w.start(true);
    const int steps = ctx.rng.range(0, 6);
    for (int k = 0; k < steps; ++k) w.step(UNARY | BINARY | NARY | READ | (ctx.rng.chance(1, 3) ? ASSIGN : 0));
    std::vector<unc::UReal<B>> ind; for (auto &u : w.ind) ind.push_back(u);
    for (size_t i = 0; i < w.v.size(); ++i) {
        auto &x = w.v[i]; const std::string nm = "converted v" + std::to_string(i);
        const unc::UReal<A> src = x.u;
        unc::UReal<B> y = src;
        ctx.close(y.n(), x.mu, "mean of " + nm, sl);
        ctx.equal(y.indepid(), src.indepid(), "identity of " + nm);
        ctx.equal(y.isindep(), src.isindep(), "isindep of " + nm);
        for (size_t k = 0; k < ind.size(); ++k) ctx.close(cov(y, ind[k]), x.c.count(int(k)) ? x.c[int(k)] * Num(w.sd[k]) : Num(0), "cov(" + nm + ", independent)", sl);
        const Num vv = w.varof(x);
        const unc::UReal<B> &cy = y;
        ctx.close(var(cy), vv, "var(" + nm + ")", sl); ctx.close(cy.s(), rac::sqrt(vv), "s of " + nm, sl);
        ctx.close(y.s(), rac::sqrt(vv), "s of " + nm, sl); ctx.close(var(y), vv, "var(" + nm + ")", sl);
        // change_nom, unary plus, nom, sdev
        const A n = A(ctx.value());
        unc::UReal<A> z = change_nom(src, n);
        ctx.log << "change_nom(v" << i << ", " << n << ")\n";
        ctx.equal(z.n(), n, "mean after change_nom"); ctx.equal(z.indepid(), src.indepid(), "identity after change_nom");
        ctx.equal(src.n(), x.u.n(), "mean of the argument of change_nom");
        for (size_t k = 0; k < w.ind.size(); ++k) ctx.close(cov(z, w.ind[k]), x.c.count(int(k)) ? x.c[int(k)] * Num(w.sd[k]) : Num(0), "cov after change_nom");
        ctx.close(var(z), vv, "var after change_nom"); ctx.close(z.s(), rac::sqrt(vv), "s after change_nom");
        unc::UReal<A> p = +src;
        ctx.equal(p.n(), src.n(), "mean of +x"); ctx.equal(p.indepid(), src.indepid(), "identity of +x");
        for (size_t k = 0; k < w.ind.size(); ++k) ctx.require(cov(p, w.ind[k]) == cov(src, w.ind[k]), "sensitivity of +x");
        ctx.equal(nom(src), src.n(), "nom"); ctx.equal(sdev(src), src.s(), "sdev"); ctx.close(sdev(src), rac::sqrt(vv), "sdev");
        ctx.close(src.n(), x.mu, "n()");
    }
}
void run_case(Ctx &ctx) {
    switch (ctx.rng.below(4)) {
    case 0: ctx.log << "float -> double\n"; conv<float, double>(ctx); break;
    case 1: ctx.log << "double -> float\n"; conv<double, float>(ctx); break;
    case 2: ctx.log << "double -> long double\n"; conv<double, long double>(ctx); break;
    default: ctx.log << "long double -> double\n"; conv<long double, double>(ctx); break;
    }
}
