// C13  Humanoid CoP and footstep constraints
//
// Rows: for every sample (previewed step) in order, one row per half-plane ax*x + ay*y + b <= 0 of its polygon.  The
// CoP of a sample is in the frame of its support; a footstep is placed relatively to the previous one, or to the
// current support foot.  Bounds are those of the variation of the decision vector.
#include <mpc-walkgen/function/humanoid_cop_constraint.h>
#include <mpc-walkgen/function/humanoid_foot_constraint.h>
#include "feet.h"

namespace MPCWalkgen
{
#define VC_EARLIER(o) \
    if (vcBool("earlier query")) \
    { \
      VX x0(vcVec("earlier variables", 2*f0.getNbSamples() + 2*f0.getNbPreviewedSteps())); \
      o.getFunction(x0); \
    }
#define VC_COP() \
    VC_HUM(HumanoidCopConstraint<double> o(m, f); VC_EARLIER(o)); \
    o.computeConstantPart(); \
    VX x(vcVec("variables", 2*N + 2*M)); (void)M
#define VC_FOOT() \
    VC_HUM(HumanoidFootConstraint<double> o(m, f); VC_EARLIER(o)); \
    VX x(vcVec("variables", 2*N + 2*M))

  static int copRow(const Feet& f, int s)
  {
    int r = 0;
    for (int i = 0; i < s; ++i) r += f.getCopConvexPolygon(i).getNbGeneralConstraints();
    return r;
  }
  static int footRow(const Feet& f, int s)
  {
    int r = 0;
    for (int i = 0; i < s; ++i) r += f.getKinematicConvexPolygon(i).getNbGeneralConstraints();
    return r;
  }

  VC_HARNESS(cop_function)
  {
    VC_COP();
    int s = vcIndex("sample", N);
    Poly cp(f.getCopConvexPolygon(s));
    int j = vcIndex("half-plane", cp.getNbGeneralConstraints());
    int r = copRow(f, s) + j;
    const VX& F = o.getFunction(x);
    vcEnsureEqI("rows", F.rows(), copRow(f, N));
    vcEnsureEq("half-plane of the sample", F(r), cp.getGeneralConstraintsMatrixCoefsForX()(j)*x(s)
               + cp.getGeneralConstraintsMatrixCoefsForY()(j)*x(N + s) + cp.getGeneralConstraintsConstantPart()(j));
    vcEnsureEqI("number of constraints", o.getNbConstraints(), copRow(f, N));
  }
  VC_HARNESS(cop_gradient)
  {
    VC_COP();
    if (vcBool("after the function")) o.getFunction(x);
    int s = vcIndex("sample", N), k = vcIndex("variable", 2*N + 2*M);
    Poly cp(f.getCopConvexPolygon(s));
    int j = vcIndex("half-plane", cp.getNbGeneralConstraints());
    int r = copRow(f, s) + j;
    const MX& G = o.getGradient(2*N + 2*M);
    vcEnsureEqI("rows", G.rows(), copRow(f, N));
    vcEnsureEqI("columns", G.cols(), 2*N + 2*M);
    vcEnsureEq("derivative of a half-plane", G(r, k), k == s ? cp.getGeneralConstraintsMatrixCoefsForX()(j) :
               k == N + s ? cp.getGeneralConstraintsMatrixCoefsForY()(j) : 0.);
  }
  VC_HARNESS(cop_bounds)
  {
    VC_COP();
    int s = vcIndex("sample", N);
    Poly cp(f.getCopConvexPolygon(s));
    const VX& sup = o.getSupBounds(x);
    const VX& inf = o.getInfBounds(x);
    vcEnsureEqI("upper size", sup.rows(), 2*N);
    vcEnsureEqI("lower size", inf.rows(), 2*N);
    vcEnsureEq("upper x", sup(s), cp.getXSupBound() - x(s));
    vcEnsureEq("upper y", sup(N + s), cp.getYSupBound() - x(N + s));
    vcEnsureEq("lower x", inf(s), cp.getXInfBound() - x(s));
    vcEnsureEq("lower y", inf(N + s), cp.getYInfBound() - x(N + s));
  }
  VC_HARNESS(foot_function)
  {
    VC_FOOT();
    int s = vcIndex("step", M);
    Poly cp(f.getKinematicConvexPolygon(s));
    int j = vcIndex("half-plane", cp.getNbGeneralConstraints());
    int r = footRow(f, s) + j;
    double px = f.getSupportFootStateX()(0), py = f.getSupportFootStateY()(0);
    const VX& F = o.getFunction(x);
    vcEnsureEqI("rows", F.rows(), footRow(f, M));
    double dx = x(2*N + s) - (s == 0 ? px : x(2*N + (s == 0 ? 0 : s - 1)));
    double dy = x(2*N + M + s) - (s == 0 ? py : x(2*N + M + (s == 0 ? 0 : s - 1)));
    vcEnsureEq("half-plane of the step", F(r), cp.getGeneralConstraintsMatrixCoefsForX()(j)*dx
               + cp.getGeneralConstraintsMatrixCoefsForY()(j)*dy + cp.getGeneralConstraintsConstantPart()(j));
    vcEnsureEqI("number of constraints", o.getNbConstraints(), footRow(f, M));
  }
  VC_HARNESS(foot_gradient)
  {
    VC_FOOT();
    if (vcBool("after the function")) o.getFunction(x);
    int s = vcIndex("step", M), k = vcIndex("variable", 2*N + 2*M);
    Poly cp(f.getKinematicConvexPolygon(s));
    int j = vcIndex("half-plane", cp.getNbGeneralConstraints());
    int r = footRow(f, s) + j;
    const MX& G = o.getGradient(2*N + 2*M);
    double ax = cp.getGeneralConstraintsMatrixCoefsForX()(j), ay = cp.getGeneralConstraintsMatrixCoefsForY()(j);
    vcEnsureEqI("rows", G.rows(), footRow(f, M));
    vcEnsureEqI("columns", G.cols(), 2*N + 2*M);
    vcEnsureEq("derivative of a half-plane", G(r, k),
               k == 2*N + s ? ax : k == 2*N + M + s ? ay :
               s > 0 && k == 2*N + s - 1 ? -ax : s > 0 && k == 2*N + M + s - 1 ? -ay : 0.);
  }
  VC_HARNESS(foot_bounds)
  {
    VC_FOOT();
    int s = vcIndex("step", M);
    Poly cp(f.getKinematicConvexPolygon(s));
    double px = f.getSupportFootStateX()(0), py = f.getSupportFootStateY()(0);
    if (s > 0) { px = x(2*N + s - 1); py = x(2*N + M + s - 1); }
    const VX& sup = o.getSupBounds(x);
    const VX& inf = o.getInfBounds(x);
    vcEnsureEqI("upper size", sup.rows(), 2*M);
    vcEnsureEqI("lower size", inf.rows(), 2*M);
    vcEnsureEq("upper x", sup(s), px + cp.getXSupBound() - x(2*N + s));
    vcEnsureEq("upper y", sup(M + s), py + cp.getYSupBound() - x(2*N + M + s));
    vcEnsureEq("lower x", inf(s), px + cp.getXInfBound() - x(2*N + s));
    vcEnsureEq("lower y", inf(M + s), py + cp.getYInfBound() - x(2*N + M + s));
  }
}
