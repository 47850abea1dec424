#include "first.hpp"
#include <uncertainties/ureal2.hpp>
#include <thread>
const char *prop = "C04"; long default_cases = 20000, thorough_cases = 200000;
using namespace rac;
static std::set<int> all_ids;
template<typename T> static void fresh_id(Ctx &ctx, const T &x, const char *what) {
    const int id = x.indepid();
    ctx.require(id > 0, std::string("identity of a new independent variable is not positive: ") + what);
    ctx.require(all_ids.insert(id).second, std::string("identity already given to another construction: ") + what + " id " + std::to_string(id));
    ctx.require(x.isindep(), "a new independent variable is not isindep()");
}
void run_case(Ctx &ctx) {
    if (ctx.index % 4 == 0) { history_any(ctx, UNARY | BINARY | NARY | COPY | READ | ASSIGN | CHANGE | CONVERT, IDS); return; }
    using U = unc::UReal<double>; using F = unc::UReal<float>; using E = unc::UReal2<double, unc::Prop::est>; using M = unc::UReal2<double, unc::Prop::mean>;
    std::vector<U> us; std::vector<M> ms;
    const int n = ctx.rng.range(1, 8);
    for (int k = 0; k < n; ++k) {
        const int what = ctx.rng.below(10); const double m = ctx.value(), s = ctx.rng.chance(1, 6) ? 0.0 : ctx.positive();
        ctx.log << "construct kind " << what << " (" << m << ", " << s << ")\n";
        const std::array<double, 6> st{0, 3, 0, 15, 0, 105}; const std::array<double, 7> cm{s * s, 0, 3 * std::pow(s, 4), 0, 15 * std::pow(s, 6), 0, 105 * std::pow(s, 8)};
        switch (what) {
        case 0: case 1: { U x(m, s); fresh_id(ctx, x, "UReal<double>"); us.push_back(x); break; }
        case 2: { F x{float(m), float(s)}; fresh_id(ctx, x, "UReal<float>"); break; }
        case 3: { E x(m, s, st); fresh_id(ctx, x, "UReal2 est"); break; }
        case 4: { M x(m, s, st); fresh_id(ctx, x, "UReal2 mean"); ms.push_back(x); break; }
        case 5: { M x(m, cm, -1); fresh_id(ctx, x, "UReal2 mean from central moments"); ms.push_back(x); break; }
        case 6: { // constants
            U a(m), b, c = m; E d(m), e; M f(m), g;
            ctx.require(a.indepid() == 0 && b.indepid() == 0 && c.indepid() == 0 && d.indepid() == 0 && e.indepid() == 0 && f.indepid() == 0 && g.indepid() == 0, "constant with nonzero identity");
            ctx.require(var(a) == 0 && var(b) == 0 && var(d) == 0 && var(e) == 0 && var(f) == 0 && var(g) == 0, "constant with nonzero variance");
            ctx.require(a.isindep() && d.isindep() && b.n() == 0 && a.n() == m && d.first_order_n() == m && g.first_order_n() == 0 && c.n() == m, "constant's mean or isindep");
            break; }
        case 7: { // copies
            U a(m, s); fresh_id(ctx, a, "UReal"); U b = a; U c(1, 1); fresh_id(ctx, c, "UReal"); c = a; U d(std::move(b));
            ctx.require(d.indepid() == a.indepid() && c.indepid() == a.indepid(), "a copy has another identity");
            ctx.close(cov(a, c), Num(s) * Num(s), "covariance of a copy with the original"); ctx.close(cov(a, d), Num(s) * Num(s), "covariance of a moved copy with the original");
            M e(m, s, st); fresh_id(ctx, e, "UReal2"); M f = e, g; g = e;
            ctx.require(f.indepid() == e.indepid() && g.indepid() == e.indepid(), "a second-order copy has another identity");
            ctx.close(cov(e, f), Num(s) * Num(s), "covariance of a second-order copy", 64); ctx.close(cov(e, g), Num(s) * Num(s), "covariance of a second-order copy", 64);
            break; }
        case 8: { // negative standard deviation
            const double t = s > 0 ? -s : -1; bool threw = false;
            try { U x(m, t); } catch (const std::invalid_argument &) { threw = true; } ctx.require(threw, "negative standard deviation accepted by UReal");
            threw = false; try { F x{float(m), float(t)}; threw = float(t) == 0; } catch (const std::invalid_argument &) { threw = true; } ctx.require(threw, "negative standard deviation accepted by UReal<float>");
            threw = false; try { M x(m, t, st); } catch (const std::invalid_argument &) { threw = true; } ctx.require(threw, "negative standard deviation accepted by UReal2");
            threw = false; try { E x(m, t, st, -1.0); } catch (const std::invalid_argument &) { threw = true; } ctx.require(threw, "negative standard deviation accepted by UReal2");
            break; }
        default: { // second-order results
            M a(m, s > 0 ? s : 1, st), b(m, 1, st); fresh_id(ctx, a, "UReal2"); fresh_id(ctx, b, "UReal2");
            M c = unary(a, 1.0, 2.0, 3.0), d = a + b, e = binary(a, a, 1.0, 1.0, 2.0, 0.5, 0.5, 0.5), f = unary(M(m), 1.0, 2.0, 3.0), h = M(2.0) * M(3.0), i = a + M(m), j = M(m) * a;
            ctx.require(c.indepid() == a.indepid() && e.indepid() == a.indepid() && i.indepid() == a.indepid() && j.indepid() == a.indepid(), "second-order function of one variable has another identity");
            ctx.require(d.indepid() == unc::invalid_id && !d.isindep(), "second-order function of two variables is reported independent");
            ctx.require(f.indepid() == 0 && h.indepid() == 0, "second-order function of constants has an identity");
            break; }
        }
    }
    for (size_t i = 0; i < us.size(); ++i) for (size_t j = 0; j < us.size(); ++j) if (i != j) ctx.require(cov(us[i], us[j]) == 0, "distinct constructions are correlated");
    for (size_t i = 0; i < ms.size(); ++i) for (size_t j = 0; j < ms.size(); ++j) if (i != j) ctx.require(cov(ms[i], ms[j]) == 0, "distinct second-order constructions are correlated");
    if (ctx.index % 2000 == 1) { // schedules: sampled
        ctx.log << "8 threads construct concurrently\n";
        std::vector<std::thread> th; std::vector<std::vector<int>> got(8);
        for (int t = 0; t < 8; ++t) th.emplace_back([t, &got] { for (int k = 0; k < 4000; ++k) { if (k % 2) { U x(1, 1); got[t].push_back(x.indepid()); } else { M x(1, 1, std::array<double, 6>{0, 3, 0, 15, 0, 105}, -1.0); got[t].push_back(x.indepid()); } } });
        for (auto &t : th) t.join();
        for (auto &g : got) for (int id : g) ctx.require(id > 0 && all_ids.insert(id).second, "an identity was given twice under concurrent construction");
    }
}
