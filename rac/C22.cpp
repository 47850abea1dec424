// Threads run programs over variables of their own and variables they share read-only; the same programs are then run one
// after the other and must give the same results. Compiled with the thread sanitizer where it works: a data race stops it.
#include "rac.hpp"
#include <thread>
#include <atomic>
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/math.hpp>
#include <uncertainties/distr.hpp>
#include <uncertainties/functions.hpp>
#include <uncertainties/stat.hpp>
#include <uncertainties/ureals.hpp>
#include <uncertainties/io.hpp>
#include <uncertainties/impl.hpp>
const char *prop = "C22"; long default_cases = 3000, thorough_cases = 20000;
using namespace rac; namespace unc = uncertainties;
using U = unc::UReal<double>; using E = unc::UReal2<double, unc::Prop::est>; using M = unc::UReal2<double, unc::Prop::mean>;
struct Shared { std::vector<U> u; std::vector<E> e; std::vector<M> m; };
struct Result { std::vector<double> v; std::vector<std::string> s; std::vector<int> ids; };
template<typename T> static void observe(const T &x, Result &r) { r.v.push_back(unc::nom(x)); r.v.push_back(unc::sdev(x)); }
static void look(const U &x, Result &r) { observe(x, r); r.v.push_back(var(x)); r.s.push_back(unc::format(x)); r.s.push_back(x.format(2.0f, " pm ")); if (x.indepid() > 0) x.isindep(); r.v.push_back(unc::isfinite(x)); }
template<typename T> static void look2(const T &x, Result &r) { observe(x, r); r.v.push_back(x.skew()); r.v.push_back(x.kurt()); r.v.push_back(x.m(2)); r.v.push_back(x.first_order_n()); r.s.push_back(unc::format(x)); r.v.push_back(unc::isfinite(x)); }
static U math(const U &x, int k) {
    using namespace unc;
    switch (k) { case 0: return exp(x); case 1: return exp2(x); case 2: return log(x * x + 1.0); case 3: return log10(x * x + 1.0); case 4: return log2(x * x + 1.0); case 5: return sqrt(x * x + 1.0);
    case 6: return sin(x); case 7: return cos(x); case 8: return atan(x); case 9: return tanh(x); case 10: return erf(x); case 11: return erfc(x); case 12: return atan2(x, x * x + 1.0); case 13: return hypot(x, x + 1.0); case 14: return cbrt(x + 0.1); case 15: return expm1(x); default: return abs(x); }
}
template<typename T> static T math2(const T &x, int k) {
    using namespace unc; const T q = x * x + T(1);
    switch (k) { case 0: return exp(x); case 1: return exp2(x); case 2: return log(q); case 3: return log10(q); case 4: return log2(q); case 5: return sqrt(q); case 6: return sin(x); case 7: return cos(x); case 8: return atan(x); case 9: return tanh(x); case 10: return erf(x); case 11: return erfc(x); case 12: return atan2(x, q); case 13: return hypot(x, q); default: return expm1(x); }
}
template<typename T> static void second(const std::vector<T> &shared, Rng &g, Result &r, int steps) {
    std::vector<T> own;
    auto any = [&]() -> const T & { const int n = int(own.size() + shared.size()), k = g.below(n); return k < int(own.size()) ? own[k] : shared[k - own.size()]; };
    for (int i = 0; i < steps; ++i) {
        switch (g.below(12)) {
        case 0: own.push_back(unc::distr::normal<T>(g.range(-2, 2), g.range(0, 3) / 4.0)); r.ids.push_back(own.back().indepid()); break;
        case 1: own.push_back(unc::distr::chisquare<T>(g.range(1, 4))); r.ids.push_back(own.back().indepid()); break;
        case 2: own.push_back(unc::distr::uniform<T>(-g.range(1, 3), g.range(1, 3))); r.ids.push_back(own.back().indepid()); break;
        case 3: own.push_back(T(g.range(-3, 3), 0.5, std::array<double, 6>{0, 3, 0, 15, 0, 105})); r.ids.push_back(own.back().indepid()); break;
        case 4: own.push_back(any() + any()); break;
        case 5: own.push_back(any() * any()); break;
        case 6: own.push_back(math2(any() * T(0.125), g.below(15))); break;
        case 7: look2(any(), r); break;
        case 8: { const T &a = any(), &b = any(); r.v.push_back(cov(a, b)); r.v.push_back(var(a)); break; }
        case 9: { const T &a = any(), &b = any(); try { r.v.push_back(a.grad(b)); r.v.push_back(a.hess(b, b)); } catch (const std::invalid_argument &) { r.v.push_back(-1); } break; }
        case 10: if (!own.empty()) { T &a = own[g.below(int(own.size()))]; const T &b = any(); if (g.chance(1, 2)) binary_assign(a, b, 2, 1, 0, 0.5, 0.25, -1); else a = a - b; } break;
        case 11: { std::vector<T> v{any(), any()}; for (double d : unc::cov_matrix<std::vector<double>>(v)) r.v.push_back(d); break; }
        }
        if (own.size() > 6) own.erase(own.begin() + 1);
    }
    for (const T &x : own) look2(x, r);
}
static void program(const Shared &sh, uint64_t seed, Result &r) {
    Rng g(seed);
    if (g.chance(1, 3)) { if (g.chance(1, 2)) second(sh.e, g, r, 14); else second(sh.m, g, r, 14); return; }
    std::vector<U> own;
    auto any = [&]() -> const U & { const int n = int(own.size() + sh.u.size()), k = g.below(n); return k < int(own.size()) ? own[k] : sh.u[k - own.size()]; };
    for (int i = 0; i < 30; ++i) {
        switch (g.below(13)) {
        case 0: case 1: own.push_back(U(g.range(-4, 4), g.range(0, 5) / 4.0)); r.ids.push_back(own.back().indepid()); break;
        case 2: own.push_back(any() + any()); break;
        case 3: own.push_back(any() * any()); break;
        case 4: own.push_back(math(any() * 0.125, g.below(17))); break;
        case 5: look(any(), r); break;
        case 6: { const U &a = any(), &b = any(); r.v.push_back(cov(a, b)); if (unc::sdev(a) > 0 && unc::sdev(b) > 0) r.v.push_back(corr(a, b)); break; }
        case 7: { U a = any(); const U &b = any(); try { r.v.push_back(a.grad(b)); } catch (const std::invalid_argument &) { r.v.push_back(-1); } break; }
        case 8: if (!own.empty()) { U &a = own[g.below(int(own.size()))]; const U &b = any(); if (g.chance(1, 2)) a += b; else a *= b; r.v.push_back(a.s()); } break;
        case 9: { const unc::UReal<float> f = any(); r.v.push_back(unc::nom(f)); const U b = f; own.push_back(b); break; }
        case 10: { const std::vector<U> v = unc::ureals<std::vector<U>>(std::vector<double>{1, 2}, std::vector<double>{2, 1, 1, 3}); own.push_back(v[0] * v[1]); break; }
        case 11: { const auto f = unc::uunary<double>([](double x) { return std::sin(x); }); own.push_back(f(any())); break; }
        case 12: { std::vector<U> v{any(), any(), any()}; for (double d : unc::cov_matrix<std::vector<double>>(v)) r.v.push_back(d); break; }
        }
        if (own.size() > 8) own.erase(own.begin() + 1);
    }
    for (const U &x : own) look(x, r);
}
// first use of everything by several threads at once, before any other use; then many constructions at once
static void cold(Ctx &ctx) {
    const int n = 4, k = 3000; ctx.log << n << " threads use every function for the first time, then construct " << k << " variables each\n";
    std::vector<std::vector<int>> ids(n); std::atomic<int> ready{0}; std::vector<std::thread> th;
    for (int t = 0; t < n; ++t) th.emplace_back([&, t] {
        ++ready; while (ready < n) {}
        Result r; U x(1, 0.5); E e(1, 0.5, std::array<double, 6>{0, 3, 0, 15, 0, 105}); M m(1, 0.5, std::array<double, 6>{0, 3, 0, 15, 0, 105});
        for (int i = 0; i < 17; ++i) look(math(x, i), r);
        for (int i = 0; i < 15; ++i) { look2(math2(e, i), r); look2(math2(m, i), r); }
        for (int i = 1; i < 4; ++i) { look2(unc::distr::normal<E>(i, 1), r); look2(unc::distr::chisquare<E>(i), r); look2(unc::distr::uniform<E>(0, i), r); look2(unc::distr::normal<M>(i, 1), r); look2(unc::distr::chisquare<M>(i), r); look2(unc::distr::uniform<M>(0, i), r); }
        r.v.push_back(unc::uunary2<double, unc::Prop::est>([](double v) { return v * v; })(e).n()); r.v.push_back(unc::uunary<double>([](double v) { return v * v; })(x).n());
        r.v.push_back(nom(unc::ureals<std::vector<U>>(std::vector<double>{1, 2}, std::vector<double>{2, 1, 1, 3})[0]));
#ifndef RAC_PUBLIC_ONLY
        r.v.push_back(unc::internal::std_moments(unc::internal::central_moments(std::array<double, 8>{1, 2, 3, 10, 15, 76, 105, 764}))[0]);
#endif
        for (int i = 0; i < k; ++i) ids[t].push_back(i % 3 == 0 ? U(1, 1).indepid() : i % 3 == 1 ? E(0, 1, std::array<double, 6>{0, 3, 0, 15, 0, 105}, -1).indepid() : M(0, std::array<double, 7>{1, 0, 3, 0, 15, 0, 105}, -1).indepid());
    });
    for (auto &t : th) t.join();
    std::set<int> all;
    for (auto &v : ids) for (int id : v) ctx.require(id > 0 && all.insert(id).second, "two threads constructed independent variables with the same identity " + std::to_string(id));
}
static bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b || std::fabs(a - b) <= 1e-7 * (std::fabs(a) + std::fabs(b)) + 1e-9; }
void run_case(Ctx &ctx) {
    Shared sh;
    if (ctx.index < 8) cold(ctx);
    for (int i = 0; i < 3; ++i) { sh.u.push_back(U(i, 1 + i / 2.0)); sh.e.push_back(E(i, 0.5, std::array<double, 6>{0, 3, 0, 15, 0, 105})); sh.m.push_back(M(i, 0.5, std::array<double, 6>{0.5, 3, 0, 15, 0, 105}, -1)); }
    sh.u.push_back(sh.u[0] * sh.u[1]); sh.u.push_back(sh.u[1] - 2.0 * sh.u[2]); sh.u.push_back(U(2.5));
    sh.e.push_back(sh.e[0] * sh.e[1]); sh.m.push_back(sh.m[0] * sh.m[1] + sh.m[2]);
    const int n = ctx.thorough ? ctx.rng.range(2, 8) : ctx.rng.range(2, 4);
    std::vector<uint64_t> seeds; for (int t = 0; t < n; ++t) seeds.push_back(ctx.rng.chance(1, 4) && t ? seeds[0] : ctx.rng.next());
    ctx.log << n << " threads, programs";
    for (auto s : seeds) ctx.log << " " << s;
    ctx.log << " (rac/C22.cpp: program), sharing " << sh.u.size() << " + " << sh.e.size() << " + " << sh.m.size() << " variables read-only\n";
    std::vector<Result> par(n), seq(n);
    {
        std::atomic<int> ready{0}; std::vector<std::thread> th;
        for (int t = 0; t < n; ++t) th.emplace_back([&, t] { ++ready; while (ready < n) {} program(sh, seeds[t], par[t]); });
        for (auto &t : th) t.join();
    }
    for (int t = 0; t < n; ++t) program(sh, seeds[t], seq[t]);
    std::set<int> ids;
    for (int t = 0; t < n; ++t) {
        for (int id : par[t].ids) if (id != 0) { ctx.require(ids.insert(id).second, "two threads constructed independent variables with the same identity " + std::to_string(id)); }
        ctx.require(par[t].v.size() == seq[t].v.size() && par[t].s.size() == seq[t].s.size(), "thread " + std::to_string(t) + " produced a different number of results than the same program run alone");
        for (size_t i = 0; i < par[t].v.size(); ++i) ctx.require(same(par[t].v[i], seq[t].v[i]), "thread " + std::to_string(t) + ", result " + std::to_string(i) + ": " + std::to_string(par[t].v[i]) + " concurrently, " + std::to_string(seq[t].v[i]) + " alone");
        if (par[t].v == seq[t].v) for (size_t i = 0; i < par[t].s.size(); ++i) ctx.require(par[t].s[i] == seq[t].s[i], "thread " + std::to_string(t) + ": '" + par[t].s[i] + "' concurrently, '" + seq[t].s[i] + "' alone");
    }
}
