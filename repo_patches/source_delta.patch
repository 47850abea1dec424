From 76528831a85236f85e0518005d105d678940d7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 01/12] fix: UReal::grad returned 0 when called on an
 independent variable

---
 uncertainties/ureal.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/uncertainties/ureal.hpp b/uncertainties/ureal.hpp
index 0b78d4f..a2e5589 100644
--- a/uncertainties/ureal.hpp
+++ b/uncertainties/ureal.hpp
@@ -582,9 +582,13 @@ namespace uncertainties {
                 throw std::invalid_argument(ss.str());
             }
             const Id xid = x.id > 0 ? x.id : x.sigma.begin()->first;
+            const Real &xg = x.id > 0 ? x.sdev : x.sigma.begin()->second;
+            if (this->id > 0) {
+                // independent variables keep their coefficient in sdev
+                return this->id == xid ? this->sdev / xg : Real(0);
+            }
             const typename std::map<Id, Real>::const_iterator it = this->sigma.find(xid);
             if (it != this->sigma.end()) {
-                const Real &xg = x.id > 0 ? x.sdev : x.sigma.begin()->second;
                 return it->second / xg;
             } else {
                 return 0;
-- 
2.43.0


From a46c112c9b904b4ae44353dfae84d95b588147e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 02/12] fix: derivatives of atan2 for UReal had the wrong sign
 and were NaN at x == 0

---
 uncertainties/math.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/uncertainties/math.hpp b/uncertainties/math.hpp
index 5bf1b07..694a0a6 100644
--- a/uncertainties/math.hpp
+++ b/uncertainties/math.hpp
@@ -171,10 +171,8 @@ namespace uncertainties {
     template<typename Real>
     UReal<Real> atan2(const UReal<Real> &x, const UReal<Real> &y) {
         using std::atan2;
-        const Real yx = y.n() / x.n();
-        const Real dy = Real(1) / ((Real(1) + yx * yx) * x.n());
-        const Real dx = dy * (-yx);
-        return binary(x, y, atan2(x.n(), y.n()), dx, dy);
+        const Real xxyy = x.n() * x.n() + y.n() * y.n();
+        return binary(x, y, atan2(x.n(), y.n()), y.n() / xxyy, -x.n() / xxyy);
     }
     template<typename Real>
     UReal<Real> sinh(const UReal<Real> &x) {
-- 
2.43.0


From c40fd828999aef4c10c91d18e2d9b6f010b61668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 03/12] fix: derivative of cbrt for UReal was NaN for negative
 arguments

---
 uncertainties/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uncertainties/math.hpp b/uncertainties/math.hpp
index 694a0a6..595e027 100644
--- a/uncertainties/math.hpp
+++ b/uncertainties/math.hpp
@@ -124,8 +124,8 @@ namespace uncertainties {
     template<typename Real>
     UReal<Real> cbrt(const UReal<Real> &x) {
         using std::cbrt;
-        using std::pow;
-        return unary(x, cbrt(x.n()), pow(x.n(), -Real(2) / Real(3)) / Real(3));
+        const Real c = cbrt(x.n());
+        return unary(x, c, Real(1) / (3 * c * c));
     }
     template<typename Real>
     UReal<Real> hypot(const UReal<Real> &x, const UReal<Real> &y) {
-- 
2.43.0


From a2f5e365b2a7712cd4db8aaad322f8dd55c1bcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 04/12] fix: isfinite and isnormal for UReal2 did not compile

---
 uncertainties/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uncertainties/math.hpp b/uncertainties/math.hpp
index 595e027..0d8b25b 100644
--- a/uncertainties/math.hpp
+++ b/uncertainties/math.hpp
@@ -532,7 +532,7 @@ namespace uncertainties {
     template<typename Real, Prop prop>
     bool isfinite(const UReal2<Real, prop> &x) {
         using std::isfinite;
-        return x.all(x, [](const Real &n) { return isfinite(n); });
+        return all(x, [](const Real &n) { return isfinite(n); });
     }
     /*!
     \brief Are all the internal coefficients normal?
@@ -540,7 +540,7 @@ namespace uncertainties {
     template<typename Real, Prop prop>
     bool isnormal(const UReal2<Real, prop> &x) {
         using std::isnormal;
-        return x.all(x, [](const Real &n) { return isnormal(n); });
+        return all(x, [](const Real &n) { return isnormal(n); });
     }
 }
 
-- 
2.43.0


From bcced6477e9d86e6b3ca19ca5c807abdf3686f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 05/12] fix: io.hpp did not compile when included after
 math.hpp

---
 uncertainties/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/io.hpp b/uncertainties/io.hpp
index ce39600..d048224 100644
--- a/uncertainties/io.hpp
+++ b/uncertainties/io.hpp
@@ -99,11 +99,11 @@ namespace uncertainties {
         int ndigits(Real *const x, const float n) {
             int ndig = naive_ndigits(*x, n);
             const int xexp = exponent(*x);
+            using std::pow;
             const Real rounded_x = int_mantissa(*x, ndig, xexp) * pow(Real(10), xexp);
             if (rounded_x > *x) {
                 const int rounded_ndig = naive_ndigits(rounded_x, n);
                 if (rounded_ndig > ndig) {
-                    using std::pow;
                     *x = rounded_x;
                     ndig = rounded_ndig;
                 }
-- 
2.43.0


From f1411841222fec9d61abbb135f18516f425fa6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 06/12] fix: format dropped the sign of negative numbers
 without uncertainty

---
 uncertainties/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/io.hpp b/uncertainties/io.hpp
index d048224..6d6f96b 100644
--- a/uncertainties/io.hpp
+++ b/uncertainties/io.hpp
@@ -143,7 +143,7 @@ namespace uncertainties {
             } else {
                 insert_dot(&m, n, e);
             }
-            return m;
+            return x < 0 ? "-" + m : m;
         }
     }
     
-- 
2.43.0


From 1a0d7df2898079ac65641012301170a5cc1ddba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:14 +0000
Subject: [PATCH 07/12] fix: format scaled the uncertainty by a power of ten
 when rounding changed its number of digits

---
 uncertainties/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/io.hpp b/uncertainties/io.hpp
index 6d6f96b..a55776f 100644
--- a/uncertainties/io.hpp
+++ b/uncertainties/io.hpp
@@ -100,7 +100,7 @@ namespace uncertainties {
             int ndig = naive_ndigits(*x, n);
             const int xexp = exponent(*x);
             using std::pow;
-            const Real rounded_x = int_mantissa(*x, ndig, xexp) * pow(Real(10), xexp);
+            const Real rounded_x = int_mantissa(*x, ndig, xexp) * pow(Real(10), xexp - (ndig - 1));
             if (rounded_x > *x) {
                 const int rounded_ndig = naive_ndigits(rounded_x, n);
                 if (rounded_ndig > ndig) {
-- 
2.43.0


From 72d944f73df5a2a154cb864dba10c698dfe07f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:14 +0000
Subject: [PATCH 08/12] fix: ConstHessIt skipped missing out of diagonal
 elements even with skipmissing=false

---
 uncertainties/internal/hessgrad.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/uncertainties/internal/hessgrad.hpp b/uncertainties/internal/hessgrad.hpp
index 89567a4..1da436e 100644
--- a/uncertainties/internal/hessgrad.hpp
+++ b/uncertainties/internal/hessgrad.hpp
@@ -451,6 +451,20 @@ namespace uncertainties {
                 
                 void operator++() noexcept {
                     assert(diagmin != diagend and diagmax != diagend);
+                    if (not skipmissing) {
+                        // walk all the pairs of diagonal elements, the out of
+                        // diagonal follows
+                        ++diagmax;
+                        if (diagmax == diagend) {
+                            ++diagmin;
+                            diagmax = diagmin;
+                        }
+                        if (diagmax != diagend) {
+                            const IdPair id {diagmin->first, diagmax->first};
+                            for (; tri != triend && tri->first < id; ++tri) ;
+                        }
+                        return;
+                    }
                     if (diagmin == diagmax) {
                         ++diagmax;
                     } else {
@@ -461,7 +475,7 @@ namespace uncertainties {
                     if (tri == triend || tri->first.first > diagmin->first) {
                         ++diagmin;
                         diagmax = diagmin;
-                    } else if (skipmissing) {
+                    } else {
                         for (; diagmax != diagend && diagmax->first < tri->first.second; ++diagmax) ;
                         assert(diagmax != diagend && diagmax->first == tri->first.second);
                     }
-- 
2.43.0


From 28b0b4daadc6635df0204c1802624d3806ad0ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:18 +0000
Subject: [PATCH 09/12] fix: binary_assign for UReal2 computed a wrong result

---
 uncertainties/ureal2.hpp | 76 ++--------------------------------------
 1 file changed, 2 insertions(+), 74 deletions(-)

diff --git a/uncertainties/ureal2.hpp b/uncertainties/ureal2.hpp
index 62af817..7c6e12b 100644
--- a/uncertainties/ureal2.hpp
+++ b/uncertainties/ureal2.hpp
@@ -909,80 +909,8 @@ namespace uncertainties {
             const Real &dfdx, const Real &dfdy,
             const Real &ddfdxdx, const Real &ddfdydy, const Real &ddfdxdy
         ) {
-            // THIS FUNCTION IS NOT FINISHED! It modifies x and then reads
-            // it again... how do I do this?
-            // O(n) fix: the first part walks in order the hessian. It never
-            // happens that a hessian element is required to compute the hessian
-            // element at a different coordinate. So I can save x's gradient
-            // beforehand in an array.
-            
-            x.mu = fxy;
-
-            constexpr Id maxid = std::numeric_limits<Id>::max();
-            const std::pair<Id, Id> pmaxid {maxid, maxid};
-
-            const Real hddfdxdx = ddfdxdx / 2;
-            const Real hddfdydy = ddfdydy / 2;
-            const Real hddfdxdy = ddfdxdy / 2;
-        
-            ConstHessIt itx = x.hg.chbegin(hddfdxdx == 0);
-            const ConstHessIt xend = x.hg.chend();
-            ConstHessIt ity = y.hg.chbegin(hddfdydy == 0);
-            const ConstHessIt yend = y.hg.chend();
-            
-            while (itx != xend or ity != yend) {
-                const std::pair<Id, Id> idx = itx != xend ? std::make_pair(itx.id1(), itx.id2()) : pmaxid;
-                const std::pair<Id, Id> idy = ity != yend ? std::make_pair(ity.id1(), ity.id2()) : pmaxid;
-                
-                Real *hhess;
-                Diag *diag;
-                
-                if (idx <= idy) {
-                    hhess = &x.hg.hhess(idx.first, idx.second);
-                    *hhess += hddfdxdx * itx.diag1().grad * itx.diag2().grad;
-                    *hhess += dfdx * (*itx);
-                    if (idx.first == idx.second) {
-                        diag = &x.hg.diag(idx.first);
-                        diag->mom = itx.diag1().mom;
-                        diag->grad += dfdx * itx.diag1().grad;
-                    }
-                }
-                
-                if (idy <= idx) {
-                    if (idx != idy) {
-                        hhess = &x.hg.hhess(idy.first, idy.second);
-                        if (idy.first == idy.second) {
-                            diag = &x.hg.diag(idy.first);
-                            diag->mom = ity.diag1().mom;
-                        }
-                    }
-                    *hhess += hddfdydy * ity.diag1().grad * ity.diag2().grad;
-                    *hhess += dfdy * (*ity);
-                    if (idy.first == idy.second) {
-                        diag->grad += dfdy * ity.diag1().grad;
-                    }
-                }
-                
-                if (idx <= idy) ++itx;
-                if (idy <= idx) ++ity;
-            }
-            
-            // I shall consider the following code a very inefficient patch.
-            if (hddfdxdy != 0) {
-                const ConstDiagIt end = x.hg.cdend();
-                ConstDiagIt iti, itj;
-                for (iti = x.hg.cdbegin(); iti != end; ++iti) {
-                    for (itj = iti; itj != end; ++itj) {
-                        const Id idi = iti->first;
-                        const Id idj = itj->first;
-                        const Real &dix = x.hg.diag_get(idi).grad;
-                        const Real &djx = x.hg.diag_get(idj).grad;
-                        const Real &diy = y.hg.diag_get(idi).grad;
-                        const Real &djy = y.hg.diag_get(idj).grad;
-                        x.hg.hhess(idi, idj) += hddfdxdy * (dix * djy + djx * diy);
-                    }
-                }
-            }
+            // could be made more efficient by working in place
+            x = binary(x, y, fxy, dfdx, dfdy, ddfdxdx, ddfdydy, ddfdxdy);
         }
         
         friend inline const UReal2<Real, prop> &
-- 
2.43.0


From 7507711c2bc502b561b176da26b1639ca046e2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:55 +0000
Subject: [PATCH 10/12] fix: derivatives of pow were NaN when the base was zero

---
 uncertainties/math.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/uncertainties/math.hpp b/uncertainties/math.hpp
index 0d8b25b..09b34d4 100644
--- a/uncertainties/math.hpp
+++ b/uncertainties/math.hpp
@@ -114,7 +114,9 @@ namespace uncertainties {
         using std::pow;
         using std::log;
         const Real p = pow(x.n(), y.n());
-        return binary(x, y, p, p * y.n() / x.n(), p * log(x.n()));
+        const Real ym1 = y.n() - 1;
+        const Real dx = y.n() == 0 ? Real(0) : Real(y.n() * pow(x.n(), ym1));
+        return binary(x, y, p, dx, p * log(x.n()));
     }
     template<typename Real>
     UReal<Real> sqrt(const UReal<Real> &x) {
@@ -345,14 +347,16 @@ namespace uncertainties {
         const Real &yn = y.first_order_n();
         const Real x2y = pow(xn, yn);
         const Real logx = log(xn);
-        const Real ix = 1 / xn;
-        const Real x2yix = x2y * ix;
-        const Real x2yixy = x2yix * yn;
+        const Real ym1 = yn - 1;
+        const Real ym2 = yn - 2;
+        const Real yym1 = yn * ym1;
+        const Real x2yix = pow(xn, ym1);
+        const Real x2yixy = yn == 0 ? Real(0) : Real(x2yix * yn);
         const Real x2ylogx = x2y * logx;
         return binary(x, y, x2y,
                       x2yixy,
                       x2ylogx,
-                      x2yixy * ix * (yn - 1),
+                      yym1 == 0 ? Real(0) : Real(yym1 * pow(xn, ym2)),
                       x2ylogx * logx,
                       x2yix + x2yixy * logx);
     }
-- 
2.43.0


From 736a91f1b2ef33f42e9acce45ace033ce35eaa02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:12 +0000
Subject: [PATCH 11/12] fix: format lost the last digit of the mean when
 rounding carried into a new digit

---
 uncertainties/io.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/uncertainties/io.hpp b/uncertainties/io.hpp
index a55776f..8a260da 100644
--- a/uncertainties/io.hpp
+++ b/uncertainties/io.hpp
@@ -165,8 +165,14 @@ namespace uncertainties {
         int sexp = internal::exponent(s);
         int muexp = mu != 0 ? internal::exponent(mu) : sexp - sndig - 1;
         std::string smant = internal::mantissa(s, sndig, &sexp);
-        const int mundig = sndig + muexp - sexp;
+        int mundig = sndig + muexp - sexp;
+        const int unrounded_muexp = muexp;
         std::string mumant = internal::mantissa(mu, mundig, &muexp);
+        if (muexp > unrounded_muexp) {
+            // rounding added a digit, keep the alignment with s
+            mumant.push_back('0');
+            mundig += 1;
+        }
         const std::string musign = mu < 0 ? "-" : "";
         bool use_exp;
         int base_exp;
-- 
2.43.0


From deea8bbf5cb427d7b91a4f91b64c6661418c1fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:37 +0000
Subject: [PATCH 12/12] fix: the decimal exponent was off by one just below
 powers of ten, tripping an assertion in format

---
 uncertainties/io.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/uncertainties/io.hpp b/uncertainties/io.hpp
index 8a260da..1e9ef89 100644
--- a/uncertainties/io.hpp
+++ b/uncertainties/io.hpp
@@ -53,7 +53,15 @@ namespace uncertainties {
             using std::floor;
             using std::log10;
             using std::abs;
-            return int(floor(log10(abs(x))));
+            using std::pow;
+            int e = int(floor(log10(abs(x))));
+            // log10 may be rounded to the wrong side of an integer
+            if (pow(Real(10), e) > abs(x)) {
+                --e;
+            } else if (pow(Real(10), e + 1) <= abs(x)) {
+                ++e;
+            }
+            return e;
         }
         
         template<typename Real>
-- 
2.43.0

