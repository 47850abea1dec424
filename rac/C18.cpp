#include "rac.hpp"
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/io.hpp>
#include <uncertainties/impl.hpp>
#include <sys/wait.h>
#include <unistd.h>
const char *prop = "C18"; long default_cases = 60000, thorough_cases = 1500000;
using namespace rac; namespace unc = uncertainties;
using R = long double;
// oracle: reads a formatted number back; digits = significant digits shown, last = value of one unit of the last digit
struct Read { R v; R last; int decimals; int sig; bool neg; bool ok; };
static Read read_plain(const std::string &t) {
    Read r{0, 1, 0, 0, false, false}; size_t i = 0;
    if (i < t.size() && t[i] == '-') { r.neg = true; ++i; }
    bool dot = false, any = false, lead = true; R v = 0; int dec = 0, sig = 0;
    if (i + 1 < t.size() && t[i] == '0' && std::isdigit((unsigned char)t[i + 1])) return r; // no leading zeros
    for (; i < t.size(); ++i) {
        if (t[i] == '.') { if (dot || !any) return r; dot = true; continue; }
        if (!std::isdigit((unsigned char)t[i])) return r;
        any = true; v = v * 10 + (t[i] - '0'); if (dot) ++dec;
        if (t[i] != '0') lead = false; if (!lead) ++sig;
    }
    if (!any || t.back() == '.') return r;
    r.decimals = dec; r.last = powl(10, -dec); r.v = v * r.last * (r.neg ? -1 : 1); r.sig = sig; r.ok = true;
    return r;
}
static bool read_exp(const std::string &t, int &e) {
    if (t.size() < 2 || (t[0] != '+' && t[0] != '-')) return false;
    for (size_t i = 1; i < t.size(); ++i) if (!std::isdigit((unsigned char)t[i])) return false;
    e = atoi(t.c_str()); return true;
}
static void check_number(Ctx &ctx, R x, const std::string &t, R eps) { // 6 significant digits
    if (std::isnan(x)) return ctx.require(t == "nan", "nan shown as '" + t + "'");
    if (std::isinf(x)) return ctx.require(t == (x > 0 ? "inf" : "-inf"), "infinity shown as '" + t + "'");
    if (x == 0) return ctx.require(t == "0", "zero shown as '" + t + "'");
    std::string m = t; int e = 0; const size_t k = t.find('e');
    if (k != std::string::npos) { m = t.substr(0, k); ctx.require(read_exp(t.substr(k + 1), e), "bad exponent in '" + t + "'"); }
    const Read r = read_plain(m); ctx.require(r.ok, "not a number: '" + t + "'");
    ctx.require(r.neg == (x < 0), "wrong sign: '" + t + "'");
    ctx.require(r.sig == 6, "not 6 significant digits: '" + t + "'");
    const R p = powl(10, e), d = fabsl(r.v * p - x);
    ctx.require(d <= 0.5L * r.last * p * (1 + 1e-9L) + 64 * eps * fabsl(x), "'" + t + "' is not the number rounded to the digits shown");
}
template<typename Real, typename U> static void one(Ctx &ctx, const U &x, Real mu, Real s, float errdig, const std::string &sep) {
    const R eps = std::numeric_limits<Real>::epsilon();
    ctx.log << "format(" << mu << " +- " << s << ", " << errdig << ", '" << sep << "')\n";
    std::string t;
    if (errdig == 1.5f && sep == " ± " && ctx.rng.chance(1, 2)) { if (ctx.rng.chance(1, 2)) t = unc::format(x); else { std::ostringstream ss; ss << x; t = ss.str(); } }
    else if (ctx.rng.chance(1, 3)) t = x.format(errdig, sep); else t = unc::format(x, errdig, sep);
    ctx.log << "  -> '" << t << "'\n";
    std::string body = t; int e = 0; bool exp = false;
    const bool plain = !std::isfinite(mu) || !std::isfinite(s) || s == 0;
    if (!plain && !t.empty() && t[0] == '(') {
        const size_t k = t.rfind(")e"); ctx.require(k != std::string::npos && read_exp(t.substr(k + 2), e), "malformed common exponent: '" + t + "'");
        body = t.substr(1, k - 1); exp = true;
    }
    const size_t k = body.find(sep); ctx.require(k != std::string::npos, "separator missing in '" + t + "'");
    const std::string ms = body.substr(0, k), ss = body.substr(k + sep.size());
    if (plain) { check_number(ctx, mu, ms, eps); check_number(ctx, s, ss, eps); return; }
    const Read m = read_plain(ms), d = read_plain(ss);
    ctx.require(m.ok && d.ok, "not numbers: '" + t + "'");
    ctx.require(!d.neg, "negative uncertainty: '" + t + "'");
    ctx.require(m.neg == (mu < 0), "wrong sign of the mean: '" + t + "'");
    ctx.require(m.decimals == d.decimals, "mean and uncertainty are not rounded to the same decimal place: '" + t + "'");
    const R p = powl(10, e);
    // number of digits of the uncertainty
    const int n0 = int(floorf(errdig)); const R frac = errdig - n0;
    auto want = [&](R v, int &lo, int &hi) { const R l = log10l(v), f = l - floorl(l); const bool up = f < frac; lo = hi = n0 + (up ? 1 : 0); if (fabsl(f - frac) < 1e-5L) { lo = n0; hi = n0 + (frac > 0 ? 1 : 0); } if (1 - f < 1e-5L || f < 1e-5L) { lo = std::min(lo, n0); hi = std::max(hi, n0 + (frac > 0)); } };
    int lo, hi; want(s, lo, hi);
    // rounding to lo digits may carry into a new digit, a power of ten; its own number of digits is then the one to show if it is larger
    const R l10 = floorl(log10l(s)), unit = powl(10, l10 - lo + 1), gap = s / unit - (powl(10, lo) - 0.5L), tol = powl(10, lo) * (std::is_same<Real, float>::value ? 1e-5L : 1e-12L);
    const int up = n0 + (frac > 0 ? 1 : 0);
    if (gap > -tol) { hi = std::max(hi, up); if (gap > tol && frac > 1e-5L && lo < up && fabsl(log10l(s) - roundl(log10l(s))) > 1e-6L) lo = hi; }
    ctx.require(d.sig >= lo && d.sig <= hi, "uncertainty shown with " + std::to_string(d.sig) + " significant digits instead of " + std::to_string(lo) + ": '" + t + "'");
    ctx.require(fabsl(d.v * p - s) <= 0.5L * d.last * p * (1 + 1e-6L) + 64 * eps * fabsl((R)s), "uncertainty is not s rounded to the digits shown: '" + t + "'");
    ctx.require(fabsl(m.v * p - mu) <= 0.5L * m.last * p * (1 + 1e-9L) + 64 * eps * fabsl((R)mu), "mean is not rounded to the digits shown: '" + t + "'");
}
static const struct { double mu, s; const char *key; float ed = 1.5f; } extremes[] = {
    {-1, 9.9999999000000009e-68, "format(UReal(-1, 9.9999999000000009e-68), 6): a mean with more than 22 digits, whose power of ten is not a floating point number, trips an assertion", 6},
    {1e300, 1e-20, "format(UReal(1e300, 1e-20)): the scaled integer mantissa overflows"},
    {1, 1e-310, "format(UReal(1, 1e-310)): the power of ten that scales the mantissa overflows"},
    {1e-320, 0, "format(UReal(1e-320, 0)): the power of ten that scales the mantissa overflows"},
};
void run_case(Ctx &ctx) {
    if (ctx.index < 4) { // each in a child process with its own time limit
        const auto &c = extremes[ctx.index]; ctx.log << c.key << "\n"; fflush(stdout);
        const pid_t pid = fork();
        if (pid == 0) { signal(SIGABRT, SIG_DFL); if (!freopen("/dev/null", "w", stderr)) {} alarm(3); Ctx in(1); try { one<double>(in, unc::UReal<double>(c.mu, c.s), c.mu, c.s, c.ed, " pm "); } catch (...) { _exit(1); } _exit(0); }
        int st = 0; waitpid(pid, &st, 0);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) ctx.known = c.key;
        return;
    }
    double mu, s;
    auto mag = [&] { const int k = ctx.rng.below(6); double m = k == 0 ? 1 : k == 1 ? 9.9999999 : k == 2 ? ctx.rng.range(1, 99) / 10.0 : k == 3 ? 9.4 + 0.6 * ctx.rng.unit() : 1 + 9 * ctx.rng.unit(); return m; };
    const int big = ctx.rng.chance(1, 8) ? 140 : ctx.rng.chance(1, 2) ? 3 : 12;
    s = mag() * std::pow(10.0, ctx.rng.range(-big, big)); if (ctx.rng.chance(1, 10)) s = ctx.nonneg();
    switch (ctx.rng.below(6)) {
    case 0: mu = ctx.value(); break;
    case 1: mu = 0; break;
    case 2: mu = std::pow(10.0, std::floor(std::log10(s > 0 ? s : 1)) + ctx.rng.range(-3, 5)) * (1 - ctx.rng.unit() * std::pow(10.0, -ctx.rng.range(0, 5))); break; // close to a power of ten
    default: mu = mag() * std::pow(10.0, std::floor(std::log10(s > 0 ? s : 1)) + ctx.rng.range(-6, 9));
    }
    if (ctx.rng.chance(1, 2)) mu = -mu;
    if (ctx.rng.chance(1, 12)) s = 0;
    if (ctx.rng.chance(1, 40)) mu = std::numeric_limits<double>::infinity() * (ctx.rng.chance(1, 2) ? 1 : -1);
    if (ctx.rng.chance(1, 60)) mu = std::numeric_limits<double>::quiet_NaN();
    if (ctx.rng.chance(1, 60)) s = std::numeric_limits<double>::infinity();
    static const float eds[] = {1.5f, 1.5f, 2, 2, 3, 1.01f, 1.99f, 1.3f, 2.5f, 4.2f, 6};
    const float ed = ctx.rng.chance(1, 4) ? float(1 + 5 * ctx.rng.unit()) : eds[ctx.rng.below(11)];
    static const char *seps[] = {" ± ", " +/- ", " pm ", "|", "+-"};
    const std::string sep = seps[ctx.rng.below(5)];
    if (ctx.rng.chance(1, 15)) {
        const float bad[] = {1.0f, 0.999f, 0.0f, -1.0f, 0.5f, -5.0f}; const float b = bad[ctx.rng.below(6)]; bool threw = false;
        ctx.log << "format(" << mu << " +- " << s << ", " << b << ")\n";
        try { unc::format(unc::UReal<double>(mu, s), b, sep); } catch (const std::invalid_argument &) { threw = true; }
        ctx.require(threw, "a request of one digit or fewer did not throw std::invalid_argument"); return;
    }
    if (!(ed > 1.0f)) throw Skip();
    for (double q : {mu, s}) if (std::isfinite(q) && q != 0 && !(std::fabs(q) > 1e-250 && std::fabs(q) < 1e250)) throw Skip(); // recorded findings: the scaling overflows
    if (std::isfinite(mu) && mu != 0 && std::isfinite(s) && s > 0 && std::log10(std::fabs(mu)) - std::log10(s) + ed > 20) throw Skip(); // the recorded finding
    switch (ctx.rng.below(6)) {
    case 0: { const float m = float(mu), d = float(s); if (big > 12 || (d > 0 && (d < 1e-25f || d > 1e25f || std::fabs(m) > 1e25f)) || (std::isfinite(m) && m != 0 && std::fabs(m) < 1e-25f)) throw Skip(); one<float>(ctx, unc::UReal<float>(m, d), m, d, ed, sep); break; }
    case 1: if (std::isfinite(mu) && std::isfinite(s)) { unc::UReal2<double, unc::Prop::mean> x(mu, s, std::array<double, 6>{0, 3, 0, 15, 0, 105}, -1.0); one<double>(ctx, x, x.n(), x.s(), ed, sep); break; } // fall through
    default: one<double>(ctx, unc::UReal<double>(mu, s), mu, s, ed, sep);
    }
}
