#include "rac.hpp"
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureals.hpp>
#include <uncertainties/impl.hpp>
#include <deque>
const char *prop = "C17"; long default_cases = 20000, thorough_cases = 300000;
using namespace rac; namespace unc = uncertainties;
// does the factorization of the linear algebra library (trusted) accept the matrix?
template<typename Real> static bool factorizes(const std::vector<Real> &c, int n) {
    Eigen::Matrix<Real, Eigen::Dynamic, Eigen::Dynamic> V(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) V(i, j) = c[i + size_t(n) * j];
    const Eigen::LDLT<Eigen::Matrix<Real, Eigen::Dynamic, Eigen::Dynamic>> f(V); return f.info() == Eigen::Success && f.isPositive();
}
template<typename Real> static void go(Ctx &ctx) {
    using U = unc::UReal<Real>; using V = std::vector<U>;
    const int n = ctx.rng.chance(1, 200) ? ctx.rng.range(17, 40) : ctx.rng.chance(1, 15) ? ctx.rng.range(9, 16) : ctx.rng.below(9);
    const int kind = ctx.rng.below(10); std::vector<Real> mu(n), c(size_t(n) * n), full;
    for (auto &q : mu) q = Real(ctx.value());
    ctx.log << "n = " << n << ", ";
    if (kind == 0) { // sizes
        size_t m = ctx.rng.below(n * n + 2 * n + 6); if (m == size_t(n) * n) ++m;
        ctx.log << "matrix with " << m << " elements\n"; bool threw = false;
        try { (void)unc::ureals<V>(mu, std::vector<Real>(m, Real(1))); } catch (const std::invalid_argument &) { threw = true; }
        return ctx.require(threw, "ureals did not throw std::invalid_argument when the sizes do not match");
    }
    // A A^T with A of rank r; exact in floating point (small multiples of 1/4)
    const int r = kind <= 2 && n > 0 ? ctx.rng.range(0, n) : n + ctx.rng.below(3);
    std::vector<double> A(size_t(n) * r); for (auto &q : A) q = ctx.rng.range(-12, 12) / 4.0;
    if (kind == 3) { for (auto &q : A) q = 0; for (int i = 0; i < n; ++i) { const int b = ctx.rng.below(r); A[i * r + b] = (ctx.rng.chance(1, 2) ? 1 : -1) * (b + 1) / 2.0; } } // plus or minus copies of independent variables
    if (kind == 4) for (int i = 0; i < n; ++i) if (ctx.rng.chance(1, 3)) for (int k = 0; k < r; ++k) A[i * r + k] = 0; // constants
    if (kind == 5) for (int i = 0; i < n; ++i) for (int k = 0; k < r; ++k) if (i != k) A[i * r + k] = 0; // diagonal
    double mx = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double s = 0; for (int k = 0; k < r; ++k) s += A[i * r + k] * A[j * r + k]; c[i + size_t(n) * j] = Real(s); mx = std::max(mx, std::fabs(s)); }
    const double sc = ctx.rng.chance(1, 3) ? std::pow(2.0, ctx.rng.range(-20, 20)) : 1; for (auto &q : c) q *= Real(sc); mx *= sc;
    bool bad = false;
    if (kind == 6 && n > 0) { // clearly not positive semidefinite
        bad = true; const int i = ctx.rng.below(n), j = ctx.rng.below(n);
        if (i == j) c[i + size_t(n) * i] = -c[i + size_t(n) * i] - Real(mx) - Real(sc);
        else { const Real big = Real(3) * (Real(mx) + Real(sc)); c[i + size_t(n) * j] = c[j + size_t(n) * i] = ctx.rng.chance(1, 2) ? big : -big; }
    }
    full = c; // the other triangle is not read
    if (ctx.rng.chance(1, 2)) for (int j = 0; j < n; ++j) for (int i = 0; i < j; ++i) c[i + size_t(n) * j] = ctx.rng.chance(1, 3) ? std::numeric_limits<Real>::quiet_NaN() : Real(ctx.value() * 100);
    ctx.log << "covariance"; for (auto q : c) ctx.log << " " << q; ctx.log << ", means"; for (auto q : mu) ctx.log << " " << q; ctx.log << "\n";
    V x; bool threw = false;
    try { if (ctx.rng.chance(1, 4)) x = unc::ureals<V>(std::deque<Real>(mu.begin(), mu.end()), std::deque<Real>(c.begin(), c.end())); else x = unc::ureals<V>(mu, c); } catch (const std::exception &) { threw = true; }
    if (bad) return ctx.require(threw, "ureals accepted a matrix that is not positive semidefinite");
    // the factorization refuses singular matrices that are indefinite by its rounding errors, or in which it meets a zero pivot early
    if (threw && !factorizes(full, n)) throw Skip{};
    ctx.require(!threw, "ureals refused a positive semidefinite matrix");
    ctx.equal(int(x.size()), n, "number of variables");
    for (int i = 0; i < n; ++i) {
        ctx.close(x[i].n(), Num(mu[i]), "mean " + std::to_string(i));
        for (int j = 0; j < n; ++j) { const Num want((long double)full[i + size_t(n) * j], 4 * mx * (n + 1)); ctx.close(cov(x[i], x[j]), want, "cov(" + std::to_string(i) + ", " + std::to_string(j) + ")", 32); }
        ctx.close(var(x[i]), Num((long double)full[i + size_t(n) * i], 4 * mx * (n + 1)), "var(" + std::to_string(i) + ")", 32);
    }
    if (n && ctx.rng.chance(1, 2)) { const V y = unc::ureals<V>(mu, c); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) ctx.require(cov(x[i], y[j]) == 0, "two calls gave correlated variables"); }
}
void run_case(Ctx &ctx) {
    if (ctx.index == 7) {
        ctx.log << "ureals({0, 0, 0}, {4, -4, 0, -4, 4, 0, 0, 0, 1})\n";
        try { (void)unc::ureals<std::vector<unc::udouble>>(std::vector<double>(3), std::vector<double>{4, -4, 0, -4, 4, 0, 0, 0, 1}); } catch (const std::runtime_error &) { ctx.known = "ureals({0, 0, 0}, {4, -4, 0, -4, 4, 0, 0, 0, 1}): a singular positive semidefinite matrix is refused because the LDLT factorization meets a zero pivot before a nonzero one"; }
    }
    if (ctx.rng.chance(1, 4)) { ctx.log << "float, "; go<float>(ctx); } else go<double>(ctx); }
