// Translation unit from which the verification-condition generator reads the AST of the real code. It only
// instantiates and odr-uses what /repo declares; nothing in it is verified. Sections are selected by -DVC_*.
#include <vector>
#include <array>
#include <string>
#ifdef VC_UREAL
#include <uncertainties/ureal.hpp>
#endif
#ifdef VC_UREAL2
#include <uncertainties/ureal2.hpp>
#endif
#ifdef VC_MATH
#include <uncertainties/math.hpp>
#endif
#ifdef VC_FUNCTIONS
#include <uncertainties/functions.hpp>
#endif
#ifdef VC_DISTR
#include <uncertainties/distr.hpp>
#endif
#ifdef VC_STAT
#include <uncertainties/stat.hpp>
#endif
#ifdef VC_UREALS
#include <uncertainties/ureals.hpp>
#endif
#ifdef VC_IO
#include <uncertainties/io.hpp>
#endif
#include <uncertainties/impl.hpp>

namespace unc = uncertainties;
namespace uncertainties { namespace vcdriver {
#ifdef VC_UREAL
using U = UReal<double>;
using F = UReal<float>;
#ifdef VC_CORE
inline void use_ureal(U x, U y, const U &cx, const U &cy, double d) {
    U z; z = U(d, d); z = U(d);
    x.isindep(); x.indepid(); x.n(); x.s(); cx.s(); x.format();
    z = change_nom(cx, d);
    F f = x; U back = f; (void)back;
    cov(x, y); var(x); var(cx); corr(x, y); x.grad(y);
    z = unary(x, d, d); z = binary(x, y, d, d, d);
    std::vector<U> v(3, x); std::vector<double> dv(3, d);
    z = nary(v.begin(), v.end(), d, dv.begin());
    x.binary_assign(y, d, d, d);
    z = +x; z = -x; z = x + y; z = x - y; z = x * y; z = x / y;
    x += y; x -= y; x *= y; x /= y;
    nom(x); sdev(x);
}
#endif
#endif
#ifdef VC_MATH
template<typename T>
inline void use_math(const T &x, const T &y) {
    T z;
    z = abs(x); z = fmod(x, y); z = remainder(x, y); z = fmax(x, y); z = fmin(x, y);
    z = exp(x); z = exp2(x); z = expm1(x); z = log(x); z = log10(x); z = log2(x); z = log1p(x);
    z = pow(x, y); z = sqrt(x); z = cbrt(x); z = hypot(x, y);
    z = sin(x); z = cos(x); z = tan(x); z = asin(x); z = acos(x); z = atan(x); z = atan2(x, y);
    z = sinh(x); z = cosh(x); z = tanh(x); z = asinh(x); z = acosh(x); z = atanh(x);
    z = erf(x); z = erfc(x);
    isfinite(x); isnormal(x);
}
#ifdef VC_UREAL
inline void use_math1(const U &x) { use_math(x, x); }
#endif
#endif
#ifdef VC_UREAL2
using E = UReal2<double, Prop::est>;
using M = UReal2<double, Prop::mean>;
using EF = UReal2<float, Prop::est>;
using MF = UReal2<float, Prop::mean>;
#ifdef VC_MATH
inline void use_math2(const E &x, const M &y) { use_math(x, x); use_math(y, y); }
#endif
#ifdef VC_CORE
template<typename T>
inline void use_ureal2(T x, T y, const T &cx, double d) {
    std::array<double, 7> m7; std::array<double, 6> m6;
    T z; z = T(d); z = T(d, m7); z = T(d, m7, d); z = T(d, d, m6); z = T(d, d, m6, d);
    x.isindep(); x.indepid(); x.first_order_n(); x.n(); x.s(); x.skew(); x.kurt(); x.m(1); x.format();
    cov(x, y); var(x); corr(x, y); x.grad(y); x.hess(y, z);
    z = unary(x, d, d, d); z = binary(x, y, d, d, d, d, d, d);
    binary_assign(x, y, d, d, d, d, d, d);
    z = +x; z = -x; z = x + y; z = x - y; z = x * y; z = x / y;
    nom(x); sdev(x);
}
inline void use_conv2(const E &e, const M &m, const EF &ef, const MF &mf) {
    M w2 = mf; MF f3(m); M m2(mf); E e2(mf); M m3(ef); EF e4(m);
    M a(e); E b(m); EF c(e); E d(ef); MF f(e);
    E w = ef;                       // implicit, same mode
}
inline void use_internal(double d) {
    std::array<double, 8> z8; std::array<double, 7> z7;
    internal::HKMatrix<double> H; internal::hamburger(H);
    internal::HessGrad<double> hg;
    const internal::HessGrad<double> &chg = hg;
    hg.diag(1); chg.diag(1); chg.diag_get(1); hg.tri(1, 2); chg.tri(1, 2); chg.tri_get(1, 2); chg.tri_find(1, 2);
    hg.hhess(1, 2); chg.hhess_get(1, 2); hg.dbegin(); hg.dend();
    internal::compute_m1(hg); internal::compute_m2(hg); internal::compute_m3(hg); internal::compute_m4(hg);
    internal::compute_mom(hg, 2); internal::compute_c2(hg, hg);
}
inline void use2(E e, M m) { use_ureal2(e, e, e, 1); use_ureal2(m, m, m, 1); }
#endif
#ifdef VC_DISTR
inline void use_distr(double d) {
    std::array<double, 8> z8; std::array<double, 7> z7;
    z7 = internal::central_moments(z8); internal::std_moments(z7);
    internal::binom_coeff(3, 2); internal::compute_binom_coeffs();
    E e = distr::normal<E>(d, d); e = distr::chisquare<E>(3); e = distr::uniform<E>(d, d);
    M m = distr::normal<M>(d, d); m = distr::chisquare<M>(3); m = distr::uniform<M>(d, d);
}
#endif
#endif
#ifdef VC_STAT
template<typename T>
inline void use_stat(T x, double d) {
    std::vector<T> v(3, x); std::vector<double> out(9), s(3);
    cov_matrix(v.begin(), v.end(), out.begin()); out = cov_matrix<std::vector<double>>(v);
    corr_matrix(v.begin(), v.end(), out.begin()); out = corr_matrix<std::vector<double>>(v);
    out = nom_vector<std::vector<double>>(v);
    out = corr2cov<std::vector<double>>(s, out);
}
inline void use_stat1(U x, E e, M m) { use_stat(x, 1); use_stat(e, 1); use_stat(m, 1); }
#endif
#ifdef VC_UREALS
inline void use_ureals() {
    std::vector<double> out(9), s(3);
    std::vector<U> v = ureals<std::vector<U>>(s, out);
}
#endif
#ifdef VC_FUNCTIONS
#ifdef VC_UREAL2
template<Prop P>
inline void use_functions2(const UReal2<double, P> &x) {
    Unary<double> f; Binary<double> g;
    uunary2<double, P>(f, f, f); uunary2<double, P>(f, f); uunary2<double, P>(f, f, 0.5);
    uunary2<double, P>(f); uunary2<double, P>(f, 0.5);
    ubinary2<double, P>(g, g, g, g, g, g); ubinary2<double, P>(g, g, g); ubinary2<double, P>(g, g, g, 0.5);
    ubinary2<double, P>(g); ubinary2<double, P>(g, 0.5);
}
inline void use_f2(const E &e, const M &m) { use_functions2(e); use_functions2(m); }
#endif
inline void use_functions() {
    Unary<double> f; Binary<double> g;
    uunary<double>(f, f); uunary<double>(f); uunary<double>(f, 0.5);
    ubinary<double>(g, g, g); ubinary<double>(g); ubinary<double>(g, 0.5);
    default_step<double>(); default_step<double>(2);
}
#endif
#ifdef VC_IO
inline void use_io(U x) { format(x); format(1.0); }
#endif
}}
#ifdef VC_UREAL
template class unc::UReal<double>;
template class unc::UReal<float>;
#endif
#ifdef VC_UREAL2
template class unc::UReal2<double, unc::Prop::est>;
template class unc::UReal2<double, unc::Prop::mean>;
template class unc::internal::HessGrad<double>;
#endif
