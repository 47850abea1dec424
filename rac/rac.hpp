// Runtime assertion checking of the property contracts against the compiled real code: shared infrastructure.
// Each cNN.cpp defines `const char *prop` and `void run_case(Ctx &)`, which builds one input from ctx.rng through
// the public interface only, evaluates the real code and compares with an oracle written here from the property text.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <chrono>
#include <fstream>
#include <functional>
#include <iomanip>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <algorithm>
#include <array>
#include <csignal>
#include <csetjmp>

namespace rac {

struct Fail { std::string what; };
struct Skip {};

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed): s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    int below(int n) { return n <= 0 ? 0 : int(next() % uint64_t(n)); }
    int range(int a, int b) { return a + below(b - a + 1); }
    bool chance(int num, int den) { return below(den) < num; }
    double unit() { return double(next() >> 11) / 9007199254740992.0; }
};

// A number with a running bound on the rounding error of any reasonable evaluation, in units of the working epsilon.
struct Num {
    long double v = 0, e = 0;
    Num() {}
    Num(long double v_): v(v_), e(std::fabs(v_)) {}
    Num(long double v_, long double e_): v(v_), e(e_) {}
};
inline Num operator+(const Num &a, const Num &b) { return {a.v + b.v, a.e + b.e + std::fabs(a.v) + std::fabs(b.v)}; }
inline Num operator-(const Num &a, const Num &b) { return {a.v - b.v, a.e + b.e + std::fabs(a.v) + std::fabs(b.v)}; }
inline Num operator-(const Num &a) { return {-a.v, a.e}; }
inline Num operator*(const Num &a, const Num &b) { return {a.v * b.v, std::fabs(a.v) * b.e + std::fabs(b.v) * a.e + 2 * std::fabs(a.v * b.v) + 2e-7L * a.e * b.e}; }
inline Num operator/(const Num &a, const Num &b) {
    const long double q = a.v / b.v;
    if (!(std::fabs(b.v) > 1e-5L * b.e)) return {q, std::numeric_limits<long double>::infinity()};
    return {q, a.e / std::fabs(b.v) + std::fabs(q) * b.e / std::fabs(b.v) + 3 * std::fabs(q)};
}
inline Num &operator+=(Num &a, const Num &b) { return a = a + b; }
inline Num &operator-=(Num &a, const Num &b) { return a = a - b; }
inline Num &operator*=(Num &a, const Num &b) { return a = a * b; }
inline Num sqrt(const Num &a) {
    const long double r = std::sqrt(a.v > 0 ? a.v : 0);
    return {r, r > 0 ? a.e / r + r : std::sqrt(a.e) * 1e8L};
}
inline bool ok(const Num &a) { return std::isfinite(a.v) && std::isfinite(a.e); }

struct Ctx {
    Rng rng;
    std::ostringstream log;
    std::vector<double> pool;
    bool thorough = false;
    long index = 0;
    long distinct_key = 0;
    bool nontrivial = true;
    std::string known; // set by a case to mark a known finding
    explicit Ctx(uint64_t seed): rng(seed) { log << std::setprecision(17); }

    // a value: special, mined from the sources (or from the prover's counterexample), small dyadic, or random
    double value() {
        static const double special[] = {0, 1, -1, 2, -2, 0.5, -0.5, 3, -3, 4, 0.25, 1.5, -1.5, 10, -10, 7, 100, 0.125, 1e-3, 1e3, -1e3, 1e6, 1e-6};
        const int k = rng.below(10);
        if (k < 3) return special[rng.below(sizeof(special) / sizeof(*special))];
        if (k < 5 && !pool.empty()) {
            double v = pool[rng.below(int(pool.size()))];
            switch (rng.below(5)) { case 0: v = -v; break; case 1: v = v + 0.5; break; case 2: v = std::nextafter(v, rng.chance(1, 2) ? 1e300 : -1e300); break; default: break; }
            if (std::fabs(v) < 1e-30) v = 0; // no subnormals
            return v;
        }
        if (k < 8) return rng.range(-64, 64) / 16.0;
        if (k < 9) return (rng.unit() * 2 - 1) * 3;
        return (rng.unit() * 2 - 1) * std::pow(10.0, rng.range(-4, 4));
    }
    double nonneg() { return std::fabs(value()); }
    double positive() { double v; do v = std::fabs(value()); while (!(v > 0)); return v; }
    double nonzero() { double v; do v = value(); while (v == 0); return v; }

    [[noreturn]] void fail(const std::string &what) { throw Fail{what}; }
    void require(bool c, const std::string &what) { if (!c) fail(what); }
    template<typename T>
    void close(const T &got, const Num &want, const std::string &what, long double slack = 16) {
        if (!ok(want)) return;
        const long double lim = std::numeric_limits<T>::max() / 16;
        if (std::fabs(want.v) > lim || want.e > lim) return;
        const long double tol = slack * std::numeric_limits<T>::epsilon() * want.e + 64 * (long double)std::numeric_limits<T>::min();
        const long double d = std::fabs((long double)got - want.v);
        if (!(d <= tol)) {
            std::ostringstream ss;
            ss << std::setprecision(17) << what << ": got " << (long double)got << ", the property requires " << want.v << " (tolerance " << tol << ")";
            fail(ss.str());
        }
    }
    template<typename T, typename W>
    void equal(const T &got, const W &want, const std::string &what) {
        if (!(got == want)) {
            std::ostringstream ss;
            ss << std::setprecision(17) << what << ": got " << got << ", the property requires " << want;
            fail(ss.str());
        }
    }
};

} // namespace rac

extern const char *prop;
void run_case(rac::Ctx &);
extern long default_cases, thorough_cases;

namespace rac {
inline std::vector<double> read_pool(const char *path) {
    std::vector<double> v;
    if (path) { std::ifstream f(path); double d; while (f >> d) v.push_back(d); }
    return v;
}
inline void (*midway)() = nullptr; // called before half of the cases
inline sigjmp_buf jump;
inline volatile sig_atomic_t in_case = 0;
inline void on_signal(int sig) { if (in_case) siglongjmp(jump, sig); _exit(3); }
}

#ifndef RAC_NO_MAIN
int main(int argc, char **argv) {
    using namespace rac;
    uint64_t seed = 1; long cases = -1; double limit = 30; long only = -1; bool thorough = false;
    const char *poolfile = nullptr, *replay = "replay.txt", *out = nullptr;
    for (int i = 1; i < argc; ++i) {
        const std::string a = argv[i];
        auto next = [&]() { return argv[++i]; };
        if (a == "--seed") seed = strtoull(next(), nullptr, 10);
        else if (a == "--cases") cases = atol(next());
        else if (a == "--limit") limit = atof(next());
        else if (a == "--case") only = atol(next());
        else if (a == "--pool") poolfile = next();
        else if (a == "--replay") replay = next();
        else if (a == "--out") out = next();
        else if (a == "--thorough") thorough = true;
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    if (cases < 0) cases = thorough ? thorough_cases : default_cases;
    const std::vector<double> pool = read_pool(poolfile);
    const auto t0 = std::chrono::steady_clock::now();
    long done = 0, skipped = 0; bool failed = false;
    std::set<uint64_t> seen; std::vector<std::string> samples; std::set<std::string> knowns;
    std::string what, trail; long where = -1;
    for (long i = only >= 0 ? only : 0; i < (only >= 0 ? only + 1 : cases); ++i) {
        if (midway && (i == cases / 2 || (i == only && only > cases / 2))) midway();
        if ((i & 15) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > limit) break;
        auto *ctx = new Ctx(seed * 1000003ull + uint64_t(i)); // not destroyed after a crash
        ctx->pool = pool; ctx->index = i; ctx->thorough = thorough;
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_NODEFER;
        for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGBUS}) sigaction(s, &sa, nullptr);
        bool bad = false;
        const int sig = sigsetjmp(jump, 1);
        if (sig == 0) {
            in_case = 1;
            try { run_case(*ctx); ++done; }
            catch (const Fail &f) { bad = true; what = f.what; }
            catch (const Skip &) { ++skipped; }
            catch (const std::exception &e) { bad = true; what = std::string("unexpected exception: ") + e.what(); }
            in_case = 0;
        } else { in_case = 0; bad = true; what = "the program was stopped by signal " + std::to_string(sig) + " (failed assertion or crash)"; }
        trail = ctx->log.str();
        if (!ctx->known.empty()) knowns.insert(ctx->known);
        if (only >= 0) printf("%s\n", trail.c_str());
        if (bad) { failed = true; where = i; break; }
        if (ctx->nontrivial && !trail.empty()) {
            if (seen.insert(std::hash<std::string>()(trail)).second && samples.size() < 4 && (i % 37) == 5) samples.push_back(trail.substr(0, 600));
        }
        if (samples.empty()) samples.push_back(trail.substr(0, 600));
        delete ctx;
    }
    if (failed) {
        std::ofstream f(replay);
        f << "property " << prop << "\n" << what << "\n\ninput (calls made on the real code, in order):\n" << trail
          << "\n\nreplayed by the harness rac/" << prop << ".cpp with: --seed " << seed << " --case " << where << (thorough ? " --thorough" : "")
          << (poolfile ? " --pool " : "") << (poolfile ? poolfile : "") << "\n";
        printf("FAIL %s\n", what.c_str());
    }
    for (const auto &k : knowns) printf("KNOWN %s\n", k.c_str());
    auto esc = [](const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; };
    if (out) {
        std::ofstream f(out);
        f << "{\"evaluations\": " << done << ", \"skipped\": " << skipped << ", \"distinct_nontrivial\": " << seen.size() << ", \"failed\": " << (failed ? "true" : "false")
          << ", \"what\": \"" << esc(what) << "\", \"samples\": [";
        for (size_t i = 0; i < samples.size(); ++i) f << (i ? ", " : "") << "\"" << esc(samples[i]) << "\"";
        f << "]}\n";
    }
    return failed ? 1 : 0;
}
#endif
