From a18f2b00a265b08926b3dec4a3f88a3dab281834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:10 +0000
Subject: [PATCH 01/19] fix: first column of the stored acceleration inverses

With a first interval S different from T, row 1 of the inverse of the
acceleration (and second-order velocity) matrix starts with -1/T: the jerk of
the second interval is (a1 - a0)/T. The stored inverse used -1/S, so that
Uinv*U was not the identity.
---
 src/tools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools.cpp b/src/tools.cpp
index 42e96dd..39e8bc9 100644
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -176,7 +176,7 @@ void Tools::ConstantJerkDynamic<Scalar>::computeAccDynamic(Scalar S, Scalar T,
 
   if(dyn.Uinv.rows()>1)
   {
-    dyn.Uinv(1, 0) = dyn.UTinv(0, 1) = -1/S;
+    dyn.Uinv(1, 0) = dyn.UTinv(0, 1) = -1/T;
   }
 
   for (int i=0; i<N; ++i)
@@ -215,7 +215,7 @@ void Tools::ConstantJerkDynamic<Scalar>::computeOrder2VelDynamic(Scalar S, Scala
 
   if(dyn.Uinv.rows()>1)
   {
-    dyn.Uinv(1, 0) = dyn.UTinv(0, 1) = -1/S;
+    dyn.Uinv(1, 0) = dyn.UTinv(0, 1) = -1/T;
   }
 
   for (int i=0; i<N; ++i)
-- 
2.43.0


From 245a78a927e08bcac740eece6d0c38e2f8d55b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:20 +0000
Subject: [PATCH 02/19] fix: initialise the tilt contact point in BaseModel's
 default constructor

The default constructor left tiltContactPointX_ and tiltContactPointY_
indeterminate; the other constructor sets them to zero.
---
 src/model/zebulon_base_model.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/model/zebulon_base_model.cpp b/src/model/zebulon_base_model.cpp
index 39155f1..88b6b93 100644
--- a/src/model/zebulon_base_model.cpp
+++ b/src/model/zebulon_base_model.cpp
@@ -58,6 +58,8 @@ BaseModel<Scalar>::BaseModel()
   ,velocityLimit_(1.0)
   ,accelerationLimit_(1.0)
   ,jerkLimit_(1.0)
+  ,tiltContactPointX_(0.0)
+  ,tiltContactPointY_(0.0)
   ,copSupportConvexPolygon_()
   ,comSupportConvexPolygon_()
 {
-- 
2.43.0


From cc4387fa7f8ec08fd4a64daa6371dbc393863aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:54 +0000
Subject: [PATCH 03/19] fix: only distinct points are candidates for the next
 hull vertex

---
 src/convexpolygon.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/convexpolygon.cpp b/src/convexpolygon.cpp
index f561d3b..357d9ac 100644
--- a/src/convexpolygon.cpp
+++ b/src/convexpolygon.cpp
@@ -168,24 +168,18 @@ namespace MPCWalkgen
     std::vector<int> indexesTab;
     indexesTab.reserve(ptot.size() - 1);
 
-    // We push back index 0 arbitrarily, unless currIndex=0
-    if(currIndex!=0)
-    {
-      indexesTab.push_back(0);
-    }
-    else
-    {
-      indexesTab.push_back(1);
-    }
-
-    for (size_t i=1; i<ptot.size(); ++i)
+    for (size_t i=0; i<ptot.size(); ++i)
     {
       // We do not check the current vertex. This if statement also avoids copies
       // of the current vertex among ptot vector, i.e. we do not count the current
       // vertex more than once
       if(!ptot[i].isApprox(ptot[currIndex], Constant<Scalar>::EPSILON))
       {
-        if(angleBetweenVecs(ptot[currIndex] - lastVertice,
+        if(indexesTab.empty())
+        {
+          indexesTab.push_back(i);
+        }
+        else if(angleBetweenVecs(ptot[currIndex] - lastVertice,
                             ptot[i] - ptot[currIndex]) <
            angleBetweenVecs(ptot[currIndex] -
                             lastVertice, ptot[indexesTab[0]] - ptot[currIndex]))
@@ -204,6 +198,12 @@ namespace MPCWalkgen
       }
     }
 
+    // Every point is the current one: there is no other vertex
+    if (indexesTab.empty())
+    {
+      return currIndex;
+    }
+
     //Choosing the index of the furthest point from the current point
     //among indexesTab
     if (indexesTab.size()>1)
-- 
2.43.0


From ad5be766c0cab59bb888d69941d626788d0c6ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 04/19] fix: sign of the gravity term of the world-frame CoP
 reference

---
 src/function/zebulon_cop_centering_objective.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/function/zebulon_cop_centering_objective.cpp b/src/function/zebulon_cop_centering_objective.cpp
index b869632..794f819 100644
--- a/src/function/zebulon_cop_centering_objective.cpp
+++ b/src/function/zebulon_cop_centering_objective.cpp
@@ -175,7 +175,7 @@ void CopCenteringObjective<Scalar>::setCopRefInWorldFrame(
 
   copRefInLocalFrame_ = ( mb*g[2]*basePosRefInWorldFrame - mb*hb*baseAccRefInWorldFrame
                         + mc*g[2]*comPosRefInWorldFrame - mc*hc*comAccRefInWorldFrame
-                        + (mb*hb+mc*hc)*constantGravity_) / ((mb+mc)*g[2])
+                        - (mb*hb+mc*hc)*constantGravity_) / ((mb+mc)*g[2])
 
                         - basePosRefInWorldFrame; //In local Frame
 }
-- 
2.43.0


From dc49554eb8d19130516ec5e99c4bcff2990bb9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:44 +0000
Subject: [PATCH 05/19] fix: signs and masses of the two bodies in the tilt
 equation

---
 src/function/zebulon_tilt_minimization_objective.cpp      | 8 ++++----
 .../zebulon_tilt_velocity_minimization_objective.cpp      | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/function/zebulon_tilt_minimization_objective.cpp b/src/function/zebulon_tilt_minimization_objective.cpp
index 4fb6ebf..58f096c 100644
--- a/src/function/zebulon_tilt_minimization_objective.cpp
+++ b/src/function/zebulon_tilt_minimization_objective.cpp
@@ -153,13 +153,13 @@ void TiltMinimizationObjective<Scalar>::computeConstantPart()
   dynPsiY_.K = -uInv_*tmp;
   dynPsiY_.S = uInv_*A6*angularAccRelativeToAngleDyn.S;
 
-  dynC_.U = uInv_*(-A5*dynComAcc.U + A2*dynComPos.U);
+  dynC_.U = uInv_*(A4*dynComAcc.U - A2*dynComPos.U);
   dynC_.UT = dynC_.U.transpose();
-  dynC_.S = uInv_*(-A5*dynComAcc.S + A2*dynComPos.S);
+  dynC_.S = uInv_*(A4*dynComAcc.S - A2*dynComPos.S);
 
-  dynB_.U = uInv_*(-A4*dynBaseAcc.U - A2*dynBasePos.U);
+  dynB_.U = uInv_*(A5*dynBaseAcc.U + A2*dynBasePos.U);
   dynB_.UT = dynB_.U.transpose();
-  dynB_.S = uInv_*(-A4*dynBaseAcc.S - A2*dynBasePos.S);
+  dynB_.S = uInv_*(A5*dynBaseAcc.S + A2*dynBasePos.S);
 
   //Compute the hessian
   hessian_.setZero(4*N, 4*N);
diff --git a/src/function/zebulon_tilt_velocity_minimization_objective.cpp b/src/function/zebulon_tilt_velocity_minimization_objective.cpp
index c3af044..2162375 100644
--- a/src/function/zebulon_tilt_velocity_minimization_objective.cpp
+++ b/src/function/zebulon_tilt_velocity_minimization_objective.cpp
@@ -158,13 +158,13 @@ void TiltVelMinimizationObjective<Scalar>::computeConstantPart()
   dynPsiY_.S = uInv_*A6*angularAccRelativeToAngleDyn.S
              - tiltVelAngleDyn.U*tiltAngleDyn.Uinv*tiltAngleDyn.S+tiltVelAngleDyn.S;
 
-  dynC_.U = uInv_*(-A5*dynComAcc.U + A2*dynComPos.U);
+  dynC_.U = uInv_*(A4*dynComAcc.U - A2*dynComPos.U);
   dynC_.UT = dynC_.U.transpose();
-  dynC_.S = uInv_*(-A5*dynComAcc.S + A2*dynComPos.S);
+  dynC_.S = uInv_*(A4*dynComAcc.S - A2*dynComPos.S);
 
-  dynB_.U = uInv_*(-A4*dynBaseAcc.U - A2*dynBasePos.U);
+  dynB_.U = uInv_*(A5*dynBaseAcc.U + A2*dynBasePos.U);
   dynB_.UT = dynB_.U.transpose();
-  dynB_.S = uInv_*(-A4*dynBaseAcc.S - A2*dynBasePos.S);
+  dynB_.S = uInv_*(A5*dynBaseAcc.S + A2*dynBasePos.S);
 
   //Compute the hessian
   hessian_.setZero(4*N, 4*N);
-- 
2.43.0


From 593a380d08debb1007e923c9e2adac3b515dc627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:21 +0000
Subject: [PATCH 06/19] fix: end hull extraction at any copy of the first
 vertex

---
 src/convexpolygon.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/convexpolygon.cpp b/src/convexpolygon.cpp
index 357d9ac..ee427d8 100644
--- a/src/convexpolygon.cpp
+++ b/src/convexpolygon.cpp
@@ -70,9 +70,9 @@ namespace MPCWalkgen
                                                    points[index](1)),
                                            points);
 
-    // Adding the other vertices until we reach the first index, which
-    // means the convex polygon has been completed
-    while(index != getIndexOfLowestAndLeftmostVertice(points))
+    // Adding the other vertices until we reach the first one, or a copy of it,
+    // which means the convex polygon has been completed
+    while(!points[index].isApprox(p[0], Constant<Scalar>::EPSILON))
     {
       assert(p.size() <= points.size());
 
-- 
2.43.0


From 813698c17739fec3298b93640eadb7d4a2044097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:59 +0000
Subject: [PATCH 07/19] fix: measure hull turns without the sign of a rounding
 error

---
 src/convexpolygon.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/convexpolygon.cpp b/src/convexpolygon.cpp
index ee427d8..4bb78d4 100644
--- a/src/convexpolygon.cpp
+++ b/src/convexpolygon.cpp
@@ -99,7 +99,9 @@ namespace MPCWalkgen
     }
     else
     {
-      Scalar angle = vec1.dot(vec2)/(vec1.norm()*vec2.norm());
+      // Rounding may bring the cosine of aligned vectors out of [-1, 1]
+      Scalar angle = std::max(static_cast<Scalar>(-1.), std::min(static_cast<Scalar>(1.),
+                              vec1.dot(vec2)/(vec1.norm()*vec2.norm())));
 
       if(vec1(0)*vec2(1) - vec1(1)*vec2(0) >= static_cast<Scalar>(0.0))
       {
@@ -167,6 +169,7 @@ namespace MPCWalkgen
     //Creating vector of indexes of the candidate for the next vertex
     std::vector<int> indexesTab;
     indexesTab.reserve(ptot.size() - 1);
+    Scalar smallestAngle = static_cast<Scalar>(0.);
 
     for (size_t i=0; i<ptot.size(); ++i)
     {
@@ -175,23 +178,23 @@ namespace MPCWalkgen
       // vertex more than once
       if(!ptot[i].isApprox(ptot[currIndex], Constant<Scalar>::EPSILON))
       {
+        // Every point is on the left of the last edge: a negative angle is zero or a
+        // half turn with the sign of a rounding error
+        const Scalar angle = std::abs(angleBetweenVecs(ptot[currIndex] - lastVertice,
+                                                       ptot[i] - ptot[currIndex]));
+
         if(indexesTab.empty())
         {
           indexesTab.push_back(i);
+          smallestAngle = angle;
         }
-        else if(angleBetweenVecs(ptot[currIndex] - lastVertice,
-                            ptot[i] - ptot[currIndex]) <
-           angleBetweenVecs(ptot[currIndex] -
-                            lastVertice, ptot[indexesTab[0]] - ptot[currIndex]))
+        else if(angle < smallestAngle)
         {
           indexesTab.erase(indexesTab.begin(), indexesTab.end());
           indexesTab.push_back(i);
+          smallestAngle = angle;
         }
-        else if(std::abs(angleBetweenVecs(ptot[currIndex] - lastVertice,
-                                          ptot[i] - ptot[currIndex]) -
-                         angleBetweenVecs(ptot[currIndex] - lastVertice,
-                                          ptot[indexesTab[0]] - ptot[currIndex]))
-               < Constant<Scalar>::EPSILON)
+        else if(std::abs(angle - smallestAngle) < Constant<Scalar>::EPSILON)
         {
           indexesTab.push_back(i);
         }
-- 
2.43.0


From 47785f7f11e69c89d8989794bf43deb74d006f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:11 +0000
Subject: [PATCH 08/19] fix: setting a smaller mass of a Zebulon body no longer
 makes the total mass smaller than the old one

---
 src/zebulon_walkgen.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/zebulon_walkgen.cpp b/src/zebulon_walkgen.cpp
index 5b588a5..731650f 100644
--- a/src/zebulon_walkgen.cpp
+++ b/src/zebulon_walkgen.cpp
@@ -189,6 +189,12 @@ void ZebulonWalkgen<Scalar>::setBodyMass(Scalar mass)
 
 
   Scalar totalMass = mass + baseModel_.getMass();
+
+  //The mass of a model must never exceed its total mass
+  if (mass<lipModel_.getMass())
+  {
+    lipModel_.setMass(mass);
+  }
   lipModel_.setTotalMass(totalMass);
   baseModel_.setTotalMass(totalMass);
 
@@ -209,6 +215,12 @@ void ZebulonWalkgen<Scalar>::setBaseMass(Scalar mass)
   assert(mass==mass);
 
   Scalar totalMass = lipModel_.getMass() + mass;
+
+  //The mass of a model must never exceed its total mass
+  if (mass<baseModel_.getMass())
+  {
+    baseModel_.setMass(mass);
+  }
   lipModel_.setTotalMass(totalMass);
   baseModel_.setTotalMass(totalMass);
 
-- 
2.43.0


From 981874fa4100cbba52f5e2ab044e5ad6ef856b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:11 +0000
Subject: [PATCH 09/19] fix: setComBaseHeight of Zebulon recomputes the tilt
 objectives, which depend on that height

---
 src/zebulon_walkgen.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zebulon_walkgen.cpp b/src/zebulon_walkgen.cpp
index 731650f..26f5474 100644
--- a/src/zebulon_walkgen.cpp
+++ b/src/zebulon_walkgen.cpp
@@ -178,6 +178,8 @@ void ZebulonWalkgen<Scalar>::setComBaseHeight(Scalar comHeight)
   copConstraint_.computeConstantPart();
   copCenteringObj_.computeConstantPart();
   comCenteringObj_.updateGravityShift();
+  tiltMinObj_.computeConstantPart();
+  tiltVelMinObj_.computeConstantPart();
 
   computeConstantPart();
 }
-- 
2.43.0


From b4cc8577adbdc970205ea454913cfac4b9eab937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:11 +0000
Subject: [PATCH 10/19] fix: setNbSamples of Zebulon recomputes the gravity
 shift of the CoM reference

---
 src/zebulon_walkgen.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/zebulon_walkgen.cpp b/src/zebulon_walkgen.cpp
index 26f5474..9030076 100644
--- a/src/zebulon_walkgen.cpp
+++ b/src/zebulon_walkgen.cpp
@@ -59,6 +59,7 @@ void ZebulonWalkgen<Scalar>::setNbSamples(int nbSamples)
   comConstraint_.computeConstantPart();
   copCenteringObj_.computeConstantPart();
   comCenteringObj_.computeConstantPart();
+  comCenteringObj_.updateGravityShift();
   velTrackingObj_.computeConstantPart();
   posTrackingObj_.computeConstantPart();
   baseMotionConstraint_.computeConstantPart();
-- 
2.43.0


From 0e7fad10e041099a806cce60e5f6e93126ab72c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:55 +0000
Subject: [PATCH 11/19] fix: the qpOASES wrapper reports a failure even without
 a diagnostics stream

---
 qpsolver/src/qpsolver_qpoases.hxx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/qpsolver/src/qpsolver_qpoases.hxx b/qpsolver/src/qpsolver_qpoases.hxx
index 241ded1..6ead07b 100644
--- a/qpsolver/src/qpsolver_qpoases.hxx
+++ b/qpsolver/src/qpsolver_qpoases.hxx
@@ -76,11 +76,14 @@ bool QPOasesSolver<Scalar>::solve(const QPMatrices<Scalar>& m,
   // the "non-solution" might be useful: it is optimal but unfeasible with
   // respect to some constraints.
   qp_.getPrimalSolution(sol.data());
-  if ((ret != ::qpOASES::SUCCESSFUL_RETURN) && (os != nullptr))
+  if (ret != ::qpOASES::SUCCESSFUL_RETURN)
   {
-    *os << "QP unfeasible. QPOases error code: " << ret
-        << ". Number of working set recalculations: " << maxNbIterations
-        << ". Was warm start: " << doWarmStart << ".\n";
+    if (os != nullptr)
+    {
+      *os << "QP unfeasible. QPOases error code: " << ret
+          << ". Number of working set recalculations: " << maxNbIterations
+          << ". Was warm start: " << doWarmStart << ".\n";
+    }
     return false;
   }
 
-- 
2.43.0


From 67b8bb57ced16bd3b5dfe9b1760e94fef3a9ee9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:55 +0000
Subject: [PATCH 12/19] fix: the humanoid generator rebuilds its solvers from
 scratch when its sizes change

---
 src/humanoid_walkgen.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/humanoid_walkgen.cpp b/src/humanoid_walkgen.cpp
index 57cc3cb..e965be1 100644
--- a/src/humanoid_walkgen.cpp
+++ b/src/humanoid_walkgen.cpp
@@ -458,6 +458,7 @@ namespace MPCWalkgen
   {
     // Updating qpoasesSolverVec_ and qpMatrixVec_
     maximumNbOfSteps_ = feetSupervisor_.getNbSamples();
+    maximumNbOfConstraints_ = 0;
     if(config_.withCopConstraints)
     {
       maximumNbOfConstraints_ = feetSupervisor_.getMaximumNbOfCopConstraints()
@@ -469,6 +470,7 @@ namespace MPCWalkgen
           *maximumNbOfSteps_;
     }
 
+    qpoasesSolverVec_.clear();
     qpoasesSolverVec_.reserve((maximumNbOfSteps_ + 1)*(maximumNbOfConstraints_ + 1));
     qpMatrixVec_.resize((maximumNbOfSteps_ + 1)*(maximumNbOfConstraints_ + 1));
 
-- 
2.43.0


From d0148cccd7a489e4d336031f31260e7d17d31e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:55 +0000
Subject: [PATCH 13/19] fix: the humanoid generator sizes its programs after
 the polygons it is given

---
 src/humanoid_walkgen.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/humanoid_walkgen.cpp b/src/humanoid_walkgen.cpp
index e965be1..189f50c 100644
--- a/src/humanoid_walkgen.cpp
+++ b/src/humanoid_walkgen.cpp
@@ -94,6 +94,9 @@ namespace MPCWalkgen
       const ConvexPolygon<Scalar>& convexPolygon)
   {
     feetSupervisor_.setLeftFootKinematicConvexPolygon(convexPolygon);
+
+    // The maximum number of constraints depends on the polygons
+    computeConstantPart();
   }
 
   template <typename Scalar>
@@ -101,6 +104,9 @@ namespace MPCWalkgen
       const ConvexPolygon<Scalar> &convexPolygon)
   {
     feetSupervisor_.setRightFootKinematicConvexPolygon(convexPolygon);
+
+    // The maximum number of constraints depends on the polygons
+    computeConstantPart();
   }
 
   template <typename Scalar>
@@ -108,6 +114,9 @@ namespace MPCWalkgen
       const ConvexPolygon<Scalar>& convexPolygon)
   {
     feetSupervisor_.setLeftFootCopConvexPolygon(convexPolygon);
+
+    // The maximum number of constraints depends on the polygons
+    computeConstantPart();
   }
 
   template <typename Scalar>
@@ -115,6 +124,9 @@ namespace MPCWalkgen
       const ConvexPolygon<Scalar>& convexPolygon)
   {
     feetSupervisor_.setRightFootCopConvexPolygon(convexPolygon);
+
+    // The maximum number of constraints depends on the polygons
+    computeConstantPart();
   }
 
   template <typename Scalar>
-- 
2.43.0


From 8152bde423117edcaab9a5913b27e2e74e5c1eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:55 +0000
Subject: [PATCH 14/19] fix: the humanoid generator checks the new weightings,
 not the old ones

---
 src/humanoid_walkgen.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/humanoid_walkgen.cpp b/src/humanoid_walkgen.cpp
index 189f50c..09143c7 100644
--- a/src/humanoid_walkgen.cpp
+++ b/src/humanoid_walkgen.cpp
@@ -298,9 +298,9 @@ namespace MPCWalkgen
   template <typename Scalar>
   void HumanoidWalkgen<Scalar>::setWeightings(const HumanoidWalkgenWeighting<Scalar>& weighting)
   {
-    assert(weighting_.velocityTracking >=0);
-    assert(weighting_.copCentering >=0);
-    assert(weighting_.jerkMinimization >=0);
+    assert(weighting.velocityTracking >=0);
+    assert(weighting.copCentering >=0);
+    assert(weighting.jerkMinimization >=0);
 
     weighting_ = weighting;
   }
-- 
2.43.0


From 54f339bfb2357f1f74ac3c69f1367c4653e35c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:55 +0000
Subject: [PATCH 15/19] fix: the humanoid generator rotates the y part of the
 CoP with the block of its rows

---
 src/humanoid_walkgen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/humanoid_walkgen.cpp b/src/humanoid_walkgen.cpp
index 09143c7..dc3e56d 100644
--- a/src/humanoid_walkgen.cpp
+++ b/src/humanoid_walkgen.cpp
@@ -530,7 +530,7 @@ namespace MPCWalkgen
 
     transformedX_.segment(0, N) = rotT.block(0, 0, N, N)*X_.segment(0, N)
         + rotT.block(0, N, N, N)*X_.segment(N, N);
-    transformedX_.segment(N, N) = rotT.block(0, N, N, N)*X_.segment(0, N)
+    transformedX_.segment(N, N) = rotT.block(N, 0, N, N)*X_.segment(0, N)
         + rotT.block(N, N, N, N)*X_.segment(N, N);
 
     transformedX_.segment(0, N) += footPosU*X_.segment(2*N, M);
-- 
2.43.0


From 04d9dd3c18add21e3d5d9d8829efb641185b2f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:39 +0000
Subject: [PATCH 16/19] fix: the solution holds exactly the previewed steps
 when the horizon loses several of them

setMove(true) followed by setMove(false) during the initial double support
leaves no previewed step, while the variable was only ever shrunk to one
step: the sizes of the quadratic program then disagreed.
---
 src/humanoid_feet_supervisor.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/humanoid_feet_supervisor.cpp b/src/humanoid_feet_supervisor.cpp
index 53324bf..bcd1484 100644
--- a/src/humanoid_feet_supervisor.cpp
+++ b/src/humanoid_feet_supervisor.cpp
@@ -526,18 +526,25 @@ namespace MPCWalkgen
       {
         enlargeStepVec(variable);
       }
-      // When the user set move_ to false this checks if the QP variable size must be reduce.
-      if(!move_ && (variable.rows() > 2*nbSamples_ + 2))
-      {
-        variable(2*nbSamples_ + 1) = variable(variable.rows()/2 + nbSamples_);
-        variable.conservativeResize(2*nbSamples_ + 2);
-      }
 
       // Decrementing timers
       phaseTimer_ -= samplingPeriod_;
       horizonTimer_ -= samplingPeriod_;
     }
 
+    // The new timeline may preview less steps than the variable holds (for instance when the
+    // user set move_ to false). In such a case, the variable only keeps the first ones.
+    const int nbStepsInVariable = static_cast<int>(variable.rows())/2 - nbSamples_;
+    if(nbStepsInVariable > nbPreviewedSteps_)
+    {
+      for(int i = 0; i<nbPreviewedSteps_; ++i)
+      {
+        variable(2*nbSamples_ + nbPreviewedSteps_ + i) =
+            variable(2*nbSamples_ + nbStepsInVariable + i);
+      }
+      variable.conservativeResize(2*nbSamples_ + 2*nbPreviewedSteps_);
+    }
+
     //Removing useless phases
     timeline_.set_capacity(phaseIndex + 1);
 
-- 
2.43.0


From 5b7d4086d2fce7863908f42c3ee6fbcdfa3d21a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:42 +0000
Subject: [PATCH 17/19] fix: the convex hull is completed even when rounding
 makes the walk miss its first vertex

The first vertex is only the lowest one up to the tolerance, so that it may be
a bit inside of the convex polygon. The walk then never came back to it and
extractVertices pushed vertices until its assertion tripped.
---
 src/convexpolygon.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/convexpolygon.cpp b/src/convexpolygon.cpp
index 4bb78d4..a8b0e9a 100644
--- a/src/convexpolygon.cpp
+++ b/src/convexpolygon.cpp
@@ -70,14 +70,29 @@ namespace MPCWalkgen
                                                    points[index](1)),
                                            points);
 
-    // Adding the other vertices until we reach the first one, or a copy of it,
-    // which means the convex polygon has been completed
-    while(!points[index].isApprox(p[0], Constant<Scalar>::EPSILON))
+    // Adding the other vertices until we reach one of them, or a copy of it, again, which
+    // means the convex polygon has been completed
+    size_t first = points[index].isApprox(p[0], Constant<Scalar>::EPSILON) ? 0 : 1;
+    while(first == p.size())
     {
       assert(p.size() <= points.size());
 
       p.push_back(points[index]);
       index = getIndexOfSmallestAngleVertice(index, *(p.end()-2), points);
+
+      first = 0;
+      while(first < p.size() && !points[index].isApprox(p[first], Constant<Scalar>::EPSILON))
+      {
+        ++first;
+      }
+    }
+
+    // We reach the first one, unless it is a bit inside of the convex polygon: it was chosen
+    // among the points which are as low as the lowest one up to the tolerance
+    if(first > 0)
+    {
+      p.erase(p.begin(), p.begin() + first);
+      std::rotate(p.begin(), p.begin() + getIndexOfLowestAndLeftmostVertice(p), p.end());
     }
 
     return p;
-- 
2.43.0


From 67224cbe147cb6d85af386bc4f504516dfbfa6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:07 +0000
Subject: [PATCH 18/19] fix: the first previewed step starts from the support
 foot, also in single support

When the first step enters the horizon during a single support, which happens
with an horizon as long as a step, its initial position was computed from the
last CoP of the solution.
---
 src/humanoid_feet_supervisor.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/humanoid_feet_supervisor.cpp b/src/humanoid_feet_supervisor.cpp
index bcd1484..65d3843 100644
--- a/src/humanoid_feet_supervisor.cpp
+++ b/src/humanoid_feet_supervisor.cpp
@@ -763,13 +763,13 @@ namespace MPCWalkgen
     }
 
     // Adding x and y coordinates of the new footstep position
-    if(isInDS() && (nbPreviewedSteps_==1))
+    if(newNbOfSteps==1)
     {
       variable(2*nbSamples_ + newNbOfSteps - 1) =
-          getLeftFootStateX()(0) + (rightmostPointX + leftmostPointX)/2;
+          getSupportFootStateX()(0) + (rightmostPointX + leftmostPointX)/2;
 
       variable(newSize - 1) =
-          getLeftFootStateY()(0) + (lowestPointY + highestPointY)/2;
+          getSupportFootStateY()(0) + (lowestPointY + highestPointY)/2;
     }
     else
     {
-- 
2.43.0


From bcdcb542d726f7746649e3ff966cfbd5ff5f3c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:42 +0000
Subject: [PATCH 19/19] fix: a foot lands even when a single update covers its
 whole flight

With the default step period of two samples and a feedback period of one
sample, the only update of the flight was towards the apex: the foot was left
in the air when the next phase began.
---
 src/humanoid_feet_supervisor.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/humanoid_feet_supervisor.cpp b/src/humanoid_feet_supervisor.cpp
index 65d3843..7441627 100644
--- a/src/humanoid_feet_supervisor.cpp
+++ b/src/humanoid_feet_supervisor.cpp
@@ -593,8 +593,10 @@ namespace MPCWalkgen
                                timeToNextPhase_,
                                feedBackPeriod);
 
-      //Updating Z state for the flying foot, depending whether the foot is going up or down
-      if(timeToNextPhase_ < flyingTime*0.5f + Constant<Scalar>::EPSILON)
+      //Updating Z state for the flying foot, depending whether the foot is going up or down.
+      //It always goes down during the last update before landing
+      if(timeToNextPhase_ < flyingTime*0.5f + Constant<Scalar>::EPSILON ||
+         timeToNextPhase_ < feedBackPeriod + Constant<Scalar>::EPSILON)
       {
         flyingFoot->updateStateZ(Vector3::Zero(),
                                  timeToNextPhase_,
-- 
2.43.0

