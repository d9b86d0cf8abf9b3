From b2d6dc7676706be0e72eda793deb120934f266d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:51 +0000
Subject: [PATCH 01/16] fix: Matscs::propagatePsi rejects end points outside
 the domain

find_sector returned -1 and sectors[-1] was dereferenced.
---
 matslise/matscs/matscs.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/matslise/matscs/matscs.cpp b/matslise/matscs/matscs.cpp
index 8dd09f7..b318ba7 100644
--- a/matslise/matscs/matscs.cpp
+++ b/matslise/matscs/matscs.cpp
@@ -56,6 +56,8 @@ Matscs<Scalar>::propagate(const Scalar &E, const Y<Scalar, Dynamic> &_y,
 template<typename Scalar>
 Matrix<Scalar, Dynamic, Dynamic> Matscs<Scalar>::propagatePsi(
         const Scalar &E, const Matrix<Scalar, Dynamic, Dynamic> &_psi, const Scalar &a, const Scalar &b) const {
+    if (!contains(a) || !contains(b))
+        throw runtime_error("Matscs::propagatePsi(): a and b should be in the interval");
     Matrix<Scalar, Dynamic, Dynamic> psi = _psi;
 
     int sectorIndex = find_sector<Matscs<Scalar>>(this, a);
-- 
2.43.0


From bdd46e32269af09815e9f8370afec13db50bc6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:51 +0000
Subject: [PATCH 02/16] fix: half-range eigenfunction at negative points: an
 even function has an odd derivative and vice versa

The scalar operator() negated both components for odd functions and none for even ones,
in disagreement with the array operator().
---
 matslise/matslise/halfrange.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matslise/matslise/halfrange.cpp b/matslise/matslise/halfrange.cpp
index 30af658..9c538e3 100644
--- a/matslise/matslise/halfrange.cpp
+++ b/matslise/matslise/halfrange.cpp
@@ -47,8 +47,8 @@ public:
     virtual Array<Scalar, 2, 1> operator()(const Scalar &x) const override {
         Array<Scalar, 2, 1> c = (*eigenfunction)(x < 0 ? -x : x);
         c *= sqrt(Scalar(.5));
-        if (x < 0 && !even)
-            c *= -1;
+        if (x < 0)
+            c[even ? 1 : 0] *= -1;
         return c;
     }
 
-- 
2.43.0


From ddb64559f301714733587c75889879124aff1d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:51 +0000
Subject: [PATCH 03/16] fix: LiouvilleTransformation::y2z: z' = sigma' y +
 sigma x'(r) y'

The factors of y and y' were interchanged, so y2z was not the inverse of z2y.
---
 matslise/liouville/liouville.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/matslise/liouville/liouville.cpp b/matslise/liouville/liouville.cpp
index 251ba41..ef50f2f 100644
--- a/matslise/liouville/liouville.cpp
+++ b/matslise/liouville/liouville.cpp
@@ -225,10 +225,10 @@ Y<Scalar> LiouvilleTransformation<Scalar>::y2z(const Scalar &x, const Y<Scalar>
     z.block(None) *= sigma;
     z.block(dE) *= sigma;
 
-    z.block(dX) *= dsigma;
-    z.block(dXdE) *= dsigma;
-    z.block(dX) += sigma * xdr * y.block(None);
-    z.block(dXdE) += sigma * xdr * y.block(dE);
+    z.block(dX) *= sigma * xdr;
+    z.block(dXdE) *= sigma * xdr;
+    z.block(dX) += dsigma * y.block(None);
+    z.block(dXdE) += dsigma * y.block(dE);
 
     return z;
 }
-- 
2.43.0


From 9a511581460e354281cef4583b05bbfe3b8ac99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:37 +0000
Subject: [PATCH 04/16] fix: PeriodicMatslise::eigenfunction imposes the
 quasi-periodic boundary conditions

The kernel vector c of L - R gives the coefficients of the initial columns; the boundary
values are left * c and right * c (as eigenpairs already does), not c itself at both ends.
Also drops the leftover debug output to standard output.
---
 matslise/matslise/periodic.cpp | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/matslise/matslise/periodic.cpp b/matslise/matslise/periodic.cpp
index 1cf9387..4d02398 100644
--- a/matslise/matslise/periodic.cpp
+++ b/matslise/matslise/periodic.cpp
@@ -90,7 +90,7 @@ pair<Scalar, Scalar> eigenvaluePair(const PeriodicMatslise<Scalar> *ms, Scalar E
 
     Scalar midError = fError(mid);
     if (same_sign(minError, midError)) {
-        if (abs(midError) > eps) cout << "PeriodicMatslise::eigenvaluePair wrong result" << endl;
+        if (abs(midError) > eps) cerr << "PeriodicMatslise::eigenvaluePair wrong result" << endl;
         return {mid, mid};
     } else {
         return {binarySearch(Emin, mid, fError, eps, minError), binarySearch(mid, Emax, fError, eps, midError)};
@@ -235,29 +235,25 @@ vector<unique_ptr<typename PeriodicMatslise<Scalar>::Eigenfunction>>
 PeriodicMatslise<Scalar>::eigenfunction(const Scalar &E) const {
     Array<Scalar, 2, 1> thetaL, thetaR;
     Scalar &match = matslise.sectors[matslise.matchIndex]->max;
-    Y<Scalar, 1, 2> l = propagate(E, periodicInitialValue<Scalar>(), matslise.domain.min, match).first;
-    Y<Scalar, 1, 2> r = propagate(E, periodicInitialValue<Scalar>(K), matslise.domain.max, match).first;
+    const Y<Scalar, 1, 2> left = periodicInitialValue<Scalar>();
+    const Y<Scalar, 1, 2> right = periodicInitialValue<Scalar>(K);
+    Y<Scalar, 1, 2> l = propagate(E, left, matslise.domain.min, match).first;
+    Y<Scalar, 1, 2> r = propagate(E, right, matslise.domain.max, match).first;
     Matrix<Scalar, 2, 2> err = (l.y() - r.y());
-    cout << err << endl;
 
     EigenSolver<Matrix<Scalar, 2, 2>> solver(err, true);
     Matrix<complex<Scalar>, 2, 1> eigenvalues = solver.eigenvalues();
     Matrix<complex<Scalar>, 2, 2> eigenvectors = solver.eigenvectors();
 
     vector<unique_ptr<typename PeriodicMatslise<Scalar>::Eigenfunction>> result;
-    cout << "eigenvalues: " << eigenvalues.transpose() << endl;
-    cout << eigenvectors << endl;
-    cout << endl;
     result.reserve(2);
     if (norm(eigenvalues[0]) < 1e-4) {
-        Y<Scalar> boundary;
-        boundary.y() = eigenvectors.col(0).real();
-        result.emplace_back(matslise.eigenfunction(E, boundary, boundary));
+        Matrix<Scalar, 2, 1> c = eigenvectors.col(0).real();
+        result.emplace_back(matslise.eigenfunction(E, left * c, right * c));
     }
     if (norm(eigenvalues[1]) < 1e-4) {
-        Y<Scalar> boundary;
-        boundary.y() = eigenvectors.col(1).real();
-        result.emplace_back(matslise.eigenfunction(E, boundary, boundary));
+        Matrix<Scalar, 2, 1> c = eigenvectors.col(1).real();
+        result.emplace_back(matslise.eigenfunction(E, left * c, right * c));
     }
 
     return result;
-- 
2.43.0


From 173610dd9a9c0890ff7f7ef107450992321b788c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:53 +0000
Subject: [PATCH 05/16] fix: SectorBuilder is a polymorphic base and needs a
 virtual destructor

---
 matslise/util/sectorbuilder.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/matslise/util/sectorbuilder.h b/matslise/util/sectorbuilder.h
index d8e4758..5066e95 100644
--- a/matslise/util/sectorbuilder.h
+++ b/matslise/util/sectorbuilder.h
@@ -17,6 +17,8 @@ namespace matslise::sector_builder {
     public:
         virtual SectorBuilderReturn<Problem>
         operator()(const Problem *, const Scalar &min, const Scalar &max) const = 0;
+
+        virtual ~SectorBuilder() = default;
     };
 
     template<typename Problem, typename Scalar=typename Problem::Scalar>
-- 
2.43.0


From 4fd1fa767d8e0e8fa30f4351d9879576ea63d4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:18 +0000
Subject: [PATCH 06/16] fix: automatic sector builder owns its sectors: no leak
 when the potential throws

---
 matslise/util/sectorbuilder.cpp | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/matslise/util/sectorbuilder.cpp b/matslise/util/sectorbuilder.cpp
index b4c9ffc..bcdb6a4 100644
--- a/matslise/util/sectorbuilder.cpp
+++ b/matslise/util/sectorbuilder.cpp
@@ -10,13 +10,13 @@ using std::unique_ptr;
 using std::vector;
 
 template<typename Scalar, typename Problem>
-static typename Problem::Sector *
+static unique_ptr<typename Problem::Sector>
 refineSector(const typename Problem::Sector &sector, const Problem *problem, const Scalar &min, const Scalar &max,
              Direction direction) {
     if constexpr(Problem::refineSectors) {
-        return sector.refine(problem, min, max, direction);
+        return unique_ptr<typename Problem::Sector>(sector.refine(problem, min, max, direction));
     } else {
-        return new typename Problem::Sector(problem, min, max, direction);
+        return std::make_unique<typename Problem::Sector>(problem, min, max, direction);
     }
 }
 
@@ -53,7 +53,7 @@ UniformSectorBuilder<Problem, Scalar>::operator()(const Problem *problem, const
 }
 
 template<typename Problem>
-typename Problem::Sector *automaticNextSector(
+unique_ptr<typename Problem::Sector> automaticNextSector(
         const Problem *ms, typename Problem::Scalar &h,
         const typename Problem::Scalar &left, const typename Problem::Scalar &right,
         const typename Problem::Scalar &tolerance, Direction direction) {
@@ -68,7 +68,7 @@ typename Problem::Sector *automaticNextSector(
     }
     h = xmax - xmin;
     int steps = 0;
-    Sector *s = new Sector(ms, xmin, xmax, direction);
+    unique_ptr<Sector> s = std::make_unique<Sector>(ms, xmin, xmax, direction);
     Scalar error = s->error();
     while (error > tolerance && steps < 10 && h > 1e-3) {
         ++steps;
@@ -78,10 +78,8 @@ typename Problem::Sector *automaticNextSector(
         } else {
             xmin = xmax - h;
         }
-        Sector *prevSector = s;
-        s = refineSector<Scalar, Problem>(*prevSector, ms, xmin, xmax, direction);
+        s = refineSector<Scalar, Problem>(*s, ms, xmin, xmax, direction);
         h = xmax - xmin;
-        delete prevSector;
         error = s->error();
     }
     if constexpr(Sector::expensive) {
@@ -115,17 +113,15 @@ typename Problem::Sector *automaticNextSector(
                     }
                 }
                 h = xmax - xmin;
-                auto *newSector = refineSector<Scalar, Problem>(
+                auto newSector = refineSector<Scalar, Problem>(
                         *s, ms, xmin, xmax, direction);
                 error = newSector->error();
 
                 if (error > tolerance) {
                     h = s->max - s->min;
-                    delete newSector;
                     break;
                 } else {
-                    delete s;
-                    s = newSector;
+                    s = std::move(newSector);
                 }
             }
         }
-- 
2.43.0


From 44fbca00dc9b71706264413de2621d9f3649bd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:49 +0000
Subject: [PATCH 07/16] fix: Matscs::propagatePsi towards the anchor of a
 sector applies the inverse flow

delta was made positive before the sign test, so the inverse branch was unreachable
(and carried the blocks of the wrong convention).
---
 matslise/matscs/sector.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/matslise/matscs/sector.cpp b/matslise/matscs/sector.cpp
index eaac019..ba17e75 100644
--- a/matslise/matscs/sector.cpp
+++ b/matslise/matscs/sector.cpp
@@ -257,21 +257,18 @@ propagatePsi_delta(const typename Matscs<Scalar>::Sector *sector, Scalar E, cons
     if (delta > sector->h)
         delta = sector->h;
 
-    // TODO: verify
     Scalar extra = sector->direction == Direction::forward ? 1 : -1;
-    if (delta > 0) {
+    if (forward) {
         T<Scalar, Dynamic> T = sector->calculateT(E, delta);
         return extra * (T.getT(1, 1) + extra * T.getT(1, 0) * psi).transpose()
                 .colPivHouseholderQr()
                 .solve((T.getT(0, 1) + extra * T.getT(0, 0) * psi).transpose())
                 .transpose();
-    } else if (delta < 0) {
-        T<Scalar, Dynamic> T = sector->calculateT(E, -delta);
-        return extra * (T.getT(1, 1) - extra * psi * T.getT(0, 1))
-                .colPivHouseholderQr()
-                .solve((extra * psi * T.getT(0, 0) - T.getT(1, 0)));
     } else {
-        return psi;
+        T<Scalar, Dynamic> T = sector->calculateT(E, delta);
+        return extra * (T.getT(0, 0) - extra * psi * T.getT(1, 0))
+                .colPivHouseholderQr()
+                .solve((extra * psi * T.getT(1, 1) - T.getT(0, 1)));
     }
 }
 
-- 
2.43.0


From 789c047c660396aca4bdb3d2d1b5d6b8f4ba7cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:14 +0000
Subject: [PATCH 08/16] fix: Matscs::eigenfunction owns its result until it is
 returned: no leak when memory runs out

---
 matslise/matscs/matscs.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matslise/matscs/matscs.cpp b/matslise/matscs/matscs.cpp
index b318ba7..3329471 100644
--- a/matslise/matscs/matscs.cpp
+++ b/matslise/matscs/matscs.cpp
@@ -77,7 +77,7 @@ Matrix<Scalar, Dynamic, Dynamic> Matscs<Scalar>::propagatePsi(
 template<typename Scalar>
 vector<Y<Scalar, Dynamic>> *Matscs<Scalar>::eigenfunction(const Scalar &E, vector<Scalar> &x) const {
     sort(x.begin(), x.end());
-    auto *ys = new vector<Y<Scalar, Dynamic>>();
+    auto ys = std::make_unique<vector<Y<Scalar, Dynamic>>>();
 
     auto iterator = x.begin();
 
@@ -101,7 +101,7 @@ vector<Y<Scalar, Dynamic>> *Matscs<Scalar>::eigenfunction(const Scalar &E, vecto
     while (iterator != x.end() && *iterator > xmax + EPS)
         iterator = x.erase(iterator);
 
-    return ys;
+    return ys.release();
 }
 
 #define INSTANTIATE_PROPAGATE(Scalar, r)\
-- 
2.43.0


From 82e37f9b35b85ea28f5f59bb3f64883f25ba0beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:47 +0000
Subject: [PATCH 09/16] fix: eigenvalue at the left end of a bracketing
 interval was dropped

When a bisection point was exactly an eigenvalue (its angle an exact multiple of pi), the part
without the eigenvalue was kept.
---
 matslise/matslise/matslise.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matslise/matslise/matslise.cpp b/matslise/matslise/matslise.cpp
index 770d1b3..91c86ec 100644
--- a/matslise/matslise/matslise.cpp
+++ b/matslise/matslise/matslise.cpp
@@ -127,7 +127,7 @@ computeEigenvaluesHelper(const Matslise<Scalar> *ms, Scalar Emin, Scalar Emax, i
             } else {
                 if (abs(tc - ia) < 1e-8)
                     eigenvalues.push_back(newtonIteration<Scalar>(ms, c, left, right, true));
-                else if ((ta - ia) * (tc - ia) < 0)
+                else if (tc > ia)
                     toCheck.push(make_tuple(a, ta, c, tc, depth + 1));
                 else
                     toCheck.push(make_tuple(c, tc, b, tb, depth + 1));
-- 
2.43.0


From c564bf61b3efb54c491912eed5f50d27b916dc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:36 +0000
Subject: [PATCH 10/16] fix: automatic sector builder hangs on repeated jumps

---
 matslise/util/sectorbuilder.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/matslise/util/sectorbuilder.cpp b/matslise/util/sectorbuilder.cpp
index bcdb6a4..8c294fe 100644
--- a/matslise/util/sectorbuilder.cpp
+++ b/matslise/util/sectorbuilder.cpp
@@ -144,34 +144,35 @@ AutomaticSectorBuilder<Problem, Scalar>::operator()(const Problem *problem, cons
     Scalar backwardH = forwardH;
     auto forwardJumpPosition = jumps.begin();
     auto backwardJumpPosition = jumps.rbegin();
-    auto nextForwardJump = [&]() {
+    // the first jump strictly beyond the given point
+    auto nextForwardJump = [&](const Scalar &from) {
+        while (forwardJumpPosition != jumps.end() && *forwardJumpPosition <= from)
+            ++forwardJumpPosition;
         return forwardJumpPosition == jumps.end() ? max : *forwardJumpPosition;
     };
-    auto nextBackwardJump = [&]() {
+    auto nextBackwardJump = [&](const Scalar &from) {
+        while (backwardJumpPosition != jumps.rend() && *backwardJumpPosition >= from)
+            ++backwardJumpPosition;
         return backwardJumpPosition == jumps.rend() ? min : *backwardJumpPosition;
     };
     forward.emplace_back(
-            automaticNextSector(problem, forwardH, min, std::min(mid, nextForwardJump()), tolerance,
+            automaticNextSector(problem, forwardH, min, std::min(mid, nextForwardJump(min)), tolerance,
                                 Direction::forward));
     backward.emplace_back(
-            automaticNextSector(problem, backwardH, std::max(mid, nextBackwardJump()), max, tolerance,
+            automaticNextSector(problem, backwardH, std::max(mid, nextBackwardJump(max)), max, tolerance,
                                 Direction::backward));
 
 
     while (forward.back()->max != backward.back()->min) {
         if (Sector::compare(*backward.back(), *forward.back())) {
-            if (forward.back()->max == nextForwardJump())
-                ++forwardJumpPosition;
             forward.emplace_back(automaticNextSector(
                     problem, forwardH,
-                    forward.back()->max, std::min(backward.back()->min, nextForwardJump()),
+                    forward.back()->max, std::min(backward.back()->min, nextForwardJump(forward.back()->max)),
                     tolerance, Direction::forward));
         } else {
-            if (backward.back()->min == nextBackwardJump())
-                ++backwardJumpPosition;
             backward.emplace_back(automaticNextSector(
                     problem, backwardH,
-                    std::max(forward.back()->max, nextBackwardJump()), backward.back()->min,
+                    std::max(forward.back()->max, nextBackwardJump(backward.back()->min)), backward.back()->min,
                     tolerance, Direction::backward));
         }
     }
-- 
2.43.0


From 3ac15cd8b3876e27d38c68489683c44576453fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:24 +0000
Subject: [PATCH 11/16] fix: angle inside a sector off by half a turn where it
 decreases

---
 matslise/matslise/sector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matslise/matslise/sector.cpp b/matslise/matslise/sector.cpp
index b599874..b7952ef 100644
--- a/matslise/matslise/sector.cpp
+++ b/matslise/matslise/sector.cpp
@@ -133,8 +133,8 @@ Scalar pruferHelper(const typename Matslise<Scalar>::Sector &sector, const Scala
             theta1 -= constants<Scalar>::PI;
         theta1 += theta0 + omega * delta;
 
-        if (theta1 < theta0) {
-            // theta has to be increasing
+        if (theta1 < theta0 && (y0[0] * y1[0] <= 0 || theta1 < floor(theta0 / constants<Scalar>::PI) * constants<Scalar>::PI)) {
+            // theta can only increase through a multiple of pi, i.e. through a zero of y
             theta1 += constants<Scalar>::PI;
         }
 
-- 
2.43.0


From 29bdcc789eada7ad0e69062d40e781a558f564ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:29 +0000
Subject: [PATCH 12/16] fix: search the first periodic eigenvalue above a bound
 below it, not above any energy before the first band

---
 matslise/matslise/periodic.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/matslise/matslise/periodic.cpp b/matslise/matslise/periodic.cpp
index 4d02398..ed000a5 100644
--- a/matslise/matslise/periodic.cpp
+++ b/matslise/matslise/periodic.cpp
@@ -156,7 +156,8 @@ eigenpairsHelper(const PeriodicMatslise<Scalar> *ms, Scalar eMin, Scalar eMax, i
 
     Scalar low = eMin;
     if (i == 0) {
-        for (Scalar step = 1; findHigh(i)(low) > 0; step *= 2)
+        // the first eigenvalue has to be above low
+        for (Scalar step = 1; findLow(1)(low) > 0; step *= 2)
             low -= step;
 
         Scalar high = binarySearch<Scalar>(low, highest, findHigh(i), eps);
-- 
2.43.0


From 5197185736d51f02075085b7d24f0832d3711c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:29 +0000
Subject: [PATCH 13/16] fix: separate a pair of periodic eigenvalues where the
 angles match, the extremum found by bisection can be the minimum

---
 matslise/matslise/periodic.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/matslise/matslise/periodic.cpp b/matslise/matslise/periodic.cpp
index ed000a5..6fa0a6e 100644
--- a/matslise/matslise/periodic.cpp
+++ b/matslise/matslise/periodic.cpp
@@ -76,17 +76,20 @@ Scalar binarySearch(Scalar eMin, Scalar eMax, const Func &f, const Scalar &eps)
 }
 
 template<typename Scalar>
-pair<Scalar, Scalar> eigenvaluePair(const PeriodicMatslise<Scalar> *ms, Scalar Emin, Scalar Emax, Scalar eps) {
-    Scalar h = 0.01 * (Emax - Emin);
+pair<Scalar, Scalar> eigenvaluePair(const PeriodicMatslise<Scalar> *ms, int i, Scalar Emin, Scalar Emax, Scalar eps) {
     auto fError = [ms](Scalar E) {
         return calculateMatchingError(ms->matchingError(E).first).first;
     };
     Scalar minError = fError(Emin);
-    Scalar fMin = (fError(Emin + h) - minError) / h;
 
-    Scalar mid = binarySearch(Emin, Emax, [ms](Scalar E) {
-        return calculateMatchingError(ms->matchingError(E).first).second;
-    }, eps, fMin);
+    // Each column of the initial values matches in one point between both eigenvalues, in different ones if one of these
+    // is an eigenvalue itself.
+    auto matchColumn = [&](int column) {
+        return binarySearch<Scalar>(Emin, Emax, [ms, i, column](Scalar E) -> Scalar {
+            return ms->matchingError(E).second[column] - i;
+        }, eps);
+    };
+    Scalar mid = (matchColumn(0) + matchColumn(1)) / 2;
 
     Scalar midError = fError(mid);
     if (same_sign(minError, midError)) {
@@ -173,7 +176,7 @@ eigenpairsHelper(const PeriodicMatslise<Scalar> *ms, Scalar eMin, Scalar eMax, i
             low -= step;
         low = binarySearch<Scalar>(low, highest, findLow(i), eps);
         Scalar high = binarySearch<Scalar>(low, highest, findHigh(i), eps);
-        pair<Scalar, Scalar> p = eigenvaluePair(ms, low, high, eps);
+        pair<Scalar, Scalar> p = eigenvaluePair(ms, i, low, high, eps);
         if (p.second - p.first < eps) {
             addToResult(i - 1, (p.first + p.second) / 2, true);
         } else {
-- 
2.43.0


From b63c559e3527d7dd1e960aeb20ba0fe3a2b11901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:29 +0000
Subject: [PATCH 14/16] fix: start periodic solutions with values of which K
 keeps the sign, so angles count from the first eigenvalue

---
 matslise/matslise/periodic.cpp | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/matslise/matslise/periodic.cpp b/matslise/matslise/periodic.cpp
index 6fa0a6e..2f45675 100644
--- a/matslise/matslise/periodic.cpp
+++ b/matslise/matslise/periodic.cpp
@@ -6,12 +6,24 @@ using namespace matslise;
 using namespace Eigen;
 using namespace std;
 
+template<typename Scalar>
+bool isAntiperiodic(const Eigen::Matrix<Scalar, 2, 2> &K) {
+    return K(0, 1) > 0 || (K(0, 1) == 0 && K(0, 0) < 0);
+}
+
+// Two independent solutions in the left end, or K times these in the right end.
 template<typename Scalar>
 inline Y<Scalar, 1, 2>
-periodicInitialValue(const Eigen::Matrix<Scalar, 2, 2> &K = Eigen::Matrix<Scalar, 2, 2>::Identity()) {
+periodicInitialValue(const Eigen::Matrix<Scalar, 2, 2> &K, bool right) {
+    // The angle theta only counts from the first eigenvalue if K (-K if antiperiodic) doesn't change the sign of y.
+    const Scalar k = isAntiperiodic(K) ? -K(0, 0) : K(0, 0);
+    const Scalar k1 = abs(K(0, 1));
+    const Scalar slope = k > k1 ? Scalar(0) : k / k1 - 2;
+
     Y<Scalar, 1, 2> y;
-    y.y() << 1, 1, 1, -1;
-    y.y() = K * y.y();
+    y.y() << 1, 1, slope + 1, slope - 1;
+    if (right)
+        y.y() = K * y.y();
     return y;
 }
 
@@ -26,8 +38,8 @@ PeriodicMatslise<Scalar>::propagate(
 template<typename Scalar>
 pair<Y<Scalar, 1, 2>, Array<Scalar, 2, 1>>
 PeriodicMatslise<Scalar>::matchingError(const Scalar &E, bool use_h) const {
-    Y<Scalar, 1, 2> l = periodicInitialValue<Scalar>();
-    Y<Scalar, 1, 2> r = periodicInitialValue<Scalar>(K);
+    Y<Scalar, 1, 2> l = periodicInitialValue<Scalar>(K, false);
+    Y<Scalar, 1, 2> r = periodicInitialValue<Scalar>(K, true);
     Array<Scalar, 2, 1> thetaL, thetaR;
     tie(l, thetaL) = propagate(E, l, matslise.domain.min, matslise.sectors[matslise.matchIndex]->max, use_h);
     tie(r, thetaR) = propagate(E, r, matslise.domain.max, matslise.sectors[matslise.matchIndex]->max, use_h);
@@ -108,8 +120,8 @@ struct EigenpairsReturn {
 template<typename Scalar, bool with_eigenfunctions>
 typename EigenpairsReturn<Scalar, with_eigenfunctions>::type
 eigenpairsHelper(const PeriodicMatslise<Scalar> *ms, Scalar eMin, Scalar eMax, int iMin, int iMax, Scalar eps) {
-    const Y<Scalar, 1, 2> l = periodicInitialValue<Scalar>();
-    const Y<Scalar, 1, 2> r = periodicInitialValue<Scalar>(ms->K);
+    const Y<Scalar, 1, 2> l = periodicInitialValue<Scalar>(ms->K, false);
+    const Y<Scalar, 1, 2> r = periodicInitialValue<Scalar>(ms->K, true);
     typename EigenpairsReturn<Scalar, with_eigenfunctions>::type result;
     auto addToResult = [&](int i, Scalar E, bool isDouble) {
         if ((isDouble ? i + 1 < iMin : i < iMin) || i >= iMax || E < eMin || E >= eMax) return;
@@ -152,8 +164,7 @@ eigenpairsHelper(const PeriodicMatslise<Scalar> *ms, Scalar eMin, Scalar eMax, i
         highest += step;
 
     int i = iMin - (iMin % 2);
-    if (ms->K(0, 1) > 0 || (ms->K(0, 1) == 0 && ms->K(0, 0) < 0)) {
-        // Antiperiodic case
+    if (isAntiperiodic(ms->K)) {
         ++i;
     }
 
@@ -239,8 +250,8 @@ vector<unique_ptr<typename PeriodicMatslise<Scalar>::Eigenfunction>>
 PeriodicMatslise<Scalar>::eigenfunction(const Scalar &E) const {
     Array<Scalar, 2, 1> thetaL, thetaR;
     Scalar &match = matslise.sectors[matslise.matchIndex]->max;
-    const Y<Scalar, 1, 2> left = periodicInitialValue<Scalar>();
-    const Y<Scalar, 1, 2> right = periodicInitialValue<Scalar>(K);
+    const Y<Scalar, 1, 2> left = periodicInitialValue<Scalar>(K, false);
+    const Y<Scalar, 1, 2> right = periodicInitialValue<Scalar>(K, true);
     Y<Scalar, 1, 2> l = propagate(E, left, matslise.domain.min, match).first;
     Y<Scalar, 1, 2> r = propagate(E, right, matslise.domain.max, match).first;
     Matrix<Scalar, 2, 2> err = (l.y() - r.y());
-- 
2.43.0


From 862c5e4be32039c752149616284f8c84c5599207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:42 +0000
Subject: [PATCH 15/16] fix: don't lose eigenvalues that stay together after 30
 bisections

---
 matslise/matslise/matslise.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/matslise/matslise/matslise.cpp b/matslise/matslise/matslise.cpp
index 91c86ec..fb72add 100644
--- a/matslise/matslise/matslise.cpp
+++ b/matslise/matslise/matslise.cpp
@@ -115,8 +115,12 @@ computeEigenvaluesHelper(const Matslise<Scalar> *ms, Scalar Emin, Scalar Emax, i
         c = ia + 1 < ib || tb - ta < 1e-5 || depth % 2 == 0
             ? .5 * (a + b)
             : ((tb - ia) * a - (ta - ia) * b) / (tb - ta);
-        if ((tb - ta < 0.01 && depth > 3) || depth > 30) {
+        if (ia + 1 == ib && ((tb - ta < 0.01 && depth > 3) || depth > 30)) {
             eigenvalues.push_back(newtonIteration<Scalar>(ms, c, left, right, true));
+        } else if (ia + 1 < ib && (c <= a || b <= c)) {
+            // these eigenvalues are equal up to rounding
+            for (int i = max(ia, Imin); i < ib && i < Imax; ++i)
+                eigenvalues.emplace_back(i, c);
         } else {
             tc = get<2>(ms->matchingError(c, left, right)) / constants<Scalar>::PI;
             if (isnan(tc)) {
-- 
2.43.0


From f49637d5e487677c85ec352dcf1e8868f7aa109f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:03 +0000
Subject: [PATCH 16/16] fix: give an eigenvalue the index it was isolated for

---
 matslise/matslise/matslise.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matslise/matslise/matslise.cpp b/matslise/matslise/matslise.cpp
index fb72add..b72cd84 100644
--- a/matslise/matslise/matslise.cpp
+++ b/matslise/matslise/matslise.cpp
@@ -116,7 +116,7 @@ computeEigenvaluesHelper(const Matslise<Scalar> *ms, Scalar Emin, Scalar Emax, i
             ? .5 * (a + b)
             : ((tb - ia) * a - (ta - ia) * b) / (tb - ta);
         if (ia + 1 == ib && ((tb - ta < 0.01 && depth > 3) || depth > 30)) {
-            eigenvalues.push_back(newtonIteration<Scalar>(ms, c, left, right, true));
+            eigenvalues.emplace_back(ia, newtonIteration<Scalar>(ms, c, left, right, true).second);
         } else if (ia + 1 < ib && (c <= a || b <= c)) {
             // these eigenvalues are equal up to rounding
             for (int i = max(ia, Imin); i < ib && i < Imax; ++i)
@@ -130,7 +130,7 @@ computeEigenvaluesHelper(const Matslise<Scalar> *ms, Scalar Emin, Scalar Emax, i
                 toCheck.push(make_tuple(c, tc, b, tb, 1 + depth));
             } else {
                 if (abs(tc - ia) < 1e-8)
-                    eigenvalues.push_back(newtonIteration<Scalar>(ms, c, left, right, true));
+                    eigenvalues.emplace_back(ia, newtonIteration<Scalar>(ms, c, left, right, true).second);
                 else if (tc > ia)
                     toCheck.push(make_tuple(a, ta, c, tc, depth + 1));
                 else
-- 
2.43.0

