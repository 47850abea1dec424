#include "second.hpp"
const char *prop = "C19"; long default_cases = 12000, thorough_cases = 150000;
using namespace rac;
template<typename A, unc::Prop P, typename B, unc::Prop Q, bool implicit>
void conv(Ctx &ctx) {
    const long double sl = 64 * std::max(1.0L, (long double)std::numeric_limits<A>::epsilon() / std::numeric_limits<B>::epsilon());
    World2<A, P> w(ctx, 0); w.start(1, 4);
    const int steps = ctx.rng.range(0, 5);
    for (int k = 0; k < steps; ++k) w.step(UNARY | BINARY | OPER | DENSE);
    using V = unc::UReal2<B, Q>;
    auto to = [](const unc::UReal2<A, P> &x) -> V { if constexpr (implicit) { V y = x; return y; } else return V(x); };
    std::vector<V> ind; for (auto &u : w.ind) ind.push_back(to(u));
    std::vector<V> all; for (auto &x : w.v) all.push_back(to(x.u));
    for (size_t i = 0; i < w.v.size(); ++i) {
        auto &x = w.v[i]; const std::string nm = "converted v" + std::to_string(i);
        const unc::UReal2<A, P> src = x.u; const V y = to(src);
        ctx.require(src.first_order_n() == x.u.first_order_n() && src.indepid() == x.u.indepid(), "conversion modified its source");
        ctx.close(y.first_order_n(), x.mu, "first-order mean of " + nm, sl);
        ctx.equal(y.indepid(), src.indepid(), "identity of " + nm); ctx.equal(y.isindep(), src.isindep(), "isindep of " + nm);
        const int n = int(ind.size());
        for (int k = 0; k < n; ++k) if (w.sd[k] > 0) {
            ctx.close(y.grad(ind[k]), w.getg(x, k) / Num(w.sd[k]), nm + ".grad", sl);
            for (int q = 0; q < n; ++q) if (w.sd[q] > 0) ctx.close(y.hess(ind[k], ind[q]), Num(2) * w.get(x, k, q) / (Num(w.sd[k]) * Num(w.sd[q])), nm + ".hess", sl);
            ctx.require(src.grad(w.ind[k]) == x.u.grad(w.ind[k]), "conversion modified its source");
        }
        const Poly p = w.poly(x); const Num m1 = w.expect(p);
        ctx.close(y.m(1), m1, nm + ".m(1)", sl); ctx.close(y.n(), Q == unc::Prop::est ? x.mu - m1 : x.mu + m1, nm + ".n()", 4 * sl);
        Poly q = p; Mono zero(w.ind.size(), 0); q[zero] = -m1;
        ctx.close(y.m(2), w.expect2(q, q), nm + ".m(2)", 16 * sl);
        if (n <= 4) { const Poly q2 = pmul(q, q); ctx.close(y.m(3), w.expect2(q2, q), nm + ".m(3)", 64 * sl); ctx.close(y.m(4), w.expect2(q2, q2), nm + ".m(4)", 256 * sl); }
        const int j = ctx.rng.below(int(all.size())); const Poly pj = w.poly(w.v[j]);
        ctx.close(cov(y, all[j]), w.expect2(p, pj) - m1 * w.expect(pj), "cov(" + nm + ", converted v" + std::to_string(j) + ")", 16 * sl);
    }
    for (int k = 0; k < int(ind.size()); ++k) if (w.sd[k] > 0) { // all six moments of each independent variable
        auto &m = w.mom[k]; const Num s(w.sd[k]), s2 = s * s;
        ctx.close(ind[k].m(3), Num(m[0]) * s2 * s, "third moment", 4 * sl); ctx.close(ind[k].m(4), Num(m[1]) * s2 * s2, "fourth moment", 4 * sl);
        const V sq = unary(ind[k], B(0), B(0), B(2) / B(w.sd[k]) / B(w.sd[k])); // V^2
        auto E = [&](int q) { return q == 0 ? Num(1) : q == 2 ? Num(1) : Num(m[q - 3]); };
        const Num one(1);
        ctx.close(sq.m(3), E(6) - Num(3) * E(4) + Num(2), "sixth moment", 64 * sl);
        ctx.close(sq.m(4), E(8) - Num(4) * E(6) + Num(6) * E(4) - Num(3), "eighth moment", 64 * sl);
        const V lin = unary(ind[k], B(0), B(1) / B(w.sd[k]), B(0)); // V
        const V mix = binary(lin, sq, B(0), B(1), B(1), B(0), B(0), B(0)); // V + V^2
        // E[(V + V^2 - 1)^3], contains v5; E[(...)^4], contains v7
        ctx.close(mix.m(3), E(3) + Num(3) * (E(4) - one) + Num(3) * (E(5) - Num(2) * E(3)) + (E(6) - Num(3) * E(4) + Num(2)), "fifth moment", 64 * sl);
        const Num t1 = E(5) - E(3), t2 = E(6) - Num(2) * E(4) + one, t3 = E(7) - Num(3) * E(5) + Num(3) * E(3);
        ctx.close(mix.m(4), E(4) + Num(4) * t1 + Num(6) * t2 + Num(4) * t3 + (E(8) - Num(4) * E(6) + Num(6) * E(4) - Num(3)), "seventh moment", 64 * sl);
    }
}
void run_case(Ctx &ctx) {
    using unc::Prop;
    switch (ctx.rng.below(6)) {
    case 0: ctx.log << "explicit: UReal2<double, est> -> UReal2<double, mean>\n"; conv<double, Prop::est, double, Prop::mean, false>(ctx); break;
    case 1: ctx.log << "explicit: UReal2<double, mean> -> UReal2<float, est>\n"; conv<double, Prop::mean, float, Prop::est, false>(ctx); break;
    case 2: ctx.log << "explicit: UReal2<float, est> -> UReal2<double, mean>\n"; conv<float, Prop::est, double, Prop::mean, false>(ctx); break;
    case 3: ctx.log << "implicit: UReal2<float, mean> -> UReal2<double, mean>\n"; conv<float, Prop::mean, double, Prop::mean, true>(ctx); break;
    case 4: ctx.log << "explicit: UReal2<double, mean> -> UReal2<long double, mean>\n"; conv<double, Prop::mean, long double, Prop::mean, false>(ctx); break;
    default: ctx.log << "implicit: UReal2<double, est> -> UReal2<float, est>\n"; conv<double, Prop::est, float, Prop::est, true>(ctx); break;
    }
}
