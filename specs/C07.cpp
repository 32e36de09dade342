// C07  Base tracking and jerk objectives are exact derivatives
//
// Variables: base jerks along x, then along y.  No entry couples the axes.
#include <mpc-walkgen/function/zebulon_base_position_tracking_objective.h>
#include <mpc-walkgen/function/zebulon_base_velocity_tracking_objective.h>
#include <mpc-walkgen/function/zebulon_jerk_minimization_objective.h>
#include "models.h"
#include "sums.h"

namespace MPCWalkgen
{
#define VC_TRACKING(Obj, setRef, dyn) \
    BaseP p0 = anyBase(), p = anyBase(); \
    Base m(mkBase(p0)); \
    Obj<double> o(m); \
    if (vcBool("earlier query")) \
    { \
      o.setRef(vcVec("earlier reference", 2*p0.n)); \
      o.getGradient(vcVec("earlier jerks", 2*p0.n)); \
    } \
    m = mkBase(p); \
    o.computeConstantPart(); \
    VX ref(vcVec("reference", 2*p.n)), x(vcVec("jerks", 2*p.n)); \
    o.setRef(ref); \
    if (vcBool("earlier query with this configuration")) o.getGradient(vcVec("other jerks", 2*p.n)); \
    VX sx(vcVec("new state x", 3)), sy(vcVec("new state y", 3)); \
    m.setStateX(sx); \
    m.setStateY(sy); \
    const LD& d = m.dyn(); \
    int N = p.n

#define VC_TRACKING_HARNESSES(what, Obj, setRef, dyn) \
  VC_HARNESS(what##_gradient) \
  { \
    VC_TRACKING(Obj, setRef, dyn); \
    const MX& g = o.getGradient(x); \
    vcEnsureEqI("rows", g.rows(), 2*N); \
    vcEnsureEqI("cols", g.cols(), 1); \
    int k = vcIndex("variable", N); \
    double ex = 0., ey = 0.; \
    for (int i = 0; i < N; ++i) ex += d.U(i, k)*(predict(d, i, sx, x, 0, N) - ref(i)); \
    for (int i = 0; i < N; ++i) ey += d.U(i, k)*(predict(d, i, sy, x, N, N) - ref(N + i)); \
    vcEnsureEq("derivative along x", g(k, 0), ex); \
    vcEnsureEq("derivative along y", g(N + k, 0), ey); \
  } \
  VC_HARNESS(what##_hessian) \
  { \
    VC_TRACKING(Obj, setRef, dyn); \
    if (vcBool("after a query")) o.getGradient(x); \
    const MX& h = o.getHessian(); \
    vcEnsureEqI("rows", h.rows(), 2*N); \
    vcEnsureEqI("cols", h.cols(), 2*N); \
    int k = vcIndex("variable", N), l = vcIndex("other variable", N); \
    vcEnsureEq("x x", h(k, l), gram(d.U, d.U, k, l, N)); \
    vcEnsureEq("y y", h(N + k, N + l), gram(d.U, d.U, k, l, N)); \
    vcEnsureEq("x y", h(k, N + l), 0.); \
    vcEnsureEq("y x", h(N + k, l), 0.); \
  } \
  VC_HARNESS(what##_initial_reference_is_zero) \
  { \
    BaseP p = anyBase(); \
    Base m(mkBase(p)); \
    Obj<double> o(m); \
    VX x(vcVec("jerks", 2*p.n)); \
    const LD& d = m.dyn(); \
    int N = p.n, k = vcIndex("variable", N); \
    double ex = 0., ey = 0.; \
    for (int i = 0; i < N; ++i) ex += d.U(i, k)*predict(d, i, p.x, x, 0, N); \
    for (int i = 0; i < N; ++i) ey += d.U(i, k)*predict(d, i, p.y, x, N, N); \
    vcEnsureEq("derivative along x", o.getGradient(x)(k, 0), ex); \
    vcEnsureEq("derivative along y", o.getGradient(x)(N + k, 0), ey); \
  }
  VC_TRACKING_HARNESSES(position, BasePositionTrackingObjective, setPosRefInWorldFrame, getBasePosLinearDynamic)
  VC_TRACKING_HARNESSES(velocity, BaseVelocityTrackingObjective, setVelRefInWorldFrame, getBaseVelLinearDynamic)

  VC_HARNESS(jerk)
  {
    LipP q0 = anyLip(), q = anyLip();
    BaseP p0 = anyBase(), p = anyBase();
    p0.n = q0.n; p0.T = q0.T; p.n = q.n; p.T = q.T;
    Lip c(mkLip(q0));
    Base m(mkBase(p0));
    JerkMinimizationObjective<double> o(c, m);
    o.getGradient(vcVec("earlier jerks", 4*p0.n));
    c = mkLip(q); m = mkBase(p);
    o.computeConstantPart();
    int N = p.n;
    VX x(vcVec("jerks", 4*N));
    vcSameV("gradient", o.getGradient(x), x);
    int k = vcIndex("variable", 4*N), l = vcIndex("other variable", 4*N);
    vcEnsureEqI("rows", o.getHessian().rows(), 4*N);
    vcEnsureEqI("cols", o.getHessian().cols(), 4*N);
    vcEnsureEq("hessian", o.getHessian()(k, l), k == l ? 1. : 0.);
  }
}
