// C06  Trajectory objectives and motion limits are exact derivatives and bounds
//
// The objectives are half the squared distance between prediction (U x + S state, the matrices of C01/C02) and
// reference: gradient(k) = sum_i U(i,k) (prediction(i) - ref(i)), hessian(k,l) = sum_i U(i,k) U(i,l).
#include <mpc-walkgen/function/trajectory_position_tracking_objective.h>
#include <mpc-walkgen/function/trajectory_velocity_tracking_objective.h>
#include <mpc-walkgen/function/trajectory_jerk_minimization_objective.h>
#include <mpc-walkgen/function/trajectory_motion_constraint.h>
#include "models.h"
#include "sums.h"

namespace MPCWalkgen
{
  // A model in any state, an objective built on it in any configuration and queried before, and a change of
  // configuration after that: what is returned is what the current configuration defines.
#define VC_TRACKING(Obj, setRef, dyn) \
    NoDynP p0 = anyNoDyn(), p = anyNoDyn(); \
    NoDyn m; \
    setNoDyn(m, p0); \
    Obj<double> o(m); \
    if (vcBool("earlier query")) \
    { \
      o.setRef(vcVec("earlier reference", p0.n)); \
      o.getGradient(vcVec("earlier jerks", p0.n)); \
    } \
    setNoDyn(m, p); \
    o.computeConstantPart(); \
    VX ref(vcVec("reference", p.n)), x(vcVec("jerks", p.n)); \
    o.setRef(ref); \
    if (vcBool("earlier query with this configuration")) o.getGradient(vcVec("other jerks", p.n)); \
    VX s(vcVec("new state", 3)); \
    m.setState(s); \
    const LD& d = m.dyn(); \
    int N = p.n

#define VC_TRACKING_HARNESSES(what, Obj, setRef, dyn) \
  VC_HARNESS(what##_gradient) \
  { \
    VC_TRACKING(Obj, setRef, dyn); \
    const MX& g = o.getGradient(x); \
    vcEnsureEqI("rows", g.rows(), N); \
    vcEnsureEqI("cols", g.cols(), 1); \
    int k = vcIndex("variable", N); \
    double e = 0.; \
    for (int i = 0; i < N; ++i) e += d.U(i, k)*(predict(d, i, s, x, 0, N) - ref(i)); \
    vcEnsureEq("derivative", g(k, 0), e); \
  } \
  VC_HARNESS(what##_hessian) \
  { \
    VC_TRACKING(Obj, setRef, dyn); \
    const MX& h = o.getHessian(); \
    vcEnsureEqI("rows", h.rows(), N); \
    vcEnsureEqI("cols", h.cols(), N); \
    int k = vcIndex("variable", N), l = vcIndex("other variable", N); \
    vcEnsureEq("second derivative", h(k, l), gram(d.U, d.U, k, l, N)); \
    o.getGradient(x); \
    vcEnsureEq("second derivative after a query", o.getHessian()(k, l), gram(d.U, d.U, k, l, N)); \
  }
  VC_TRACKING_HARNESSES(position, PositionTrackingObjective, setPosRefInWorldFrame, getPosLinearDynamic)
  VC_TRACKING_HARNESSES(velocity, VelocityTrackingObjective, setVelRefInWorldFrame, getVelLinearDynamic)

  VC_HARNESS(initial_references_are_zero)
  {
    NoDynP p = anyNoDyn();
    NoDyn m;
    setNoDyn(m, p);
    PositionTrackingObjective<double> o(m);
    VelocityTrackingObjective<double> v(m);
    VX x(vcVec("jerks", p.n));
    int N = p.n, k = vcIndex("variable", N);
    double e = 0., f = 0.;
    for (int i = 0; i < N; ++i) e += m.getPosLinearDynamic().U(i, k)*predict(m.getPosLinearDynamic(), i, p.x, x, 0, N);
    for (int i = 0; i < N; ++i) f += m.getVelLinearDynamic().U(i, k)*predict(m.getVelLinearDynamic(), i, p.x, x, 0, N);
    vcEnsureEq("position", o.getGradient(x)(k, 0), e);
    vcEnsureEq("velocity", v.getGradient(x)(k, 0), f);
  }

  VC_HARNESS(jerk)
  {
    NoDynP p0 = anyNoDyn(), p = anyNoDyn();
    NoDyn m;
    setNoDyn(m, p0);
    TrajectoryJerkMinimizationObjective<double> o(m);
    o.getGradient(vcVec("earlier jerks", p0.n));
    setNoDyn(m, p);
    o.computeConstantPart();
    VX x(vcVec("jerks", p.n));
    vcSameV("gradient", o.getGradient(x), x);
    int N = p.n, k = vcIndex("variable", N), l = vcIndex("other variable", N);
    vcEnsureEqI("rows", o.getHessian().rows(), N);
    vcEnsureEqI("cols", o.getHessian().cols(), N);
    vcEnsureEq("hessian", o.getHessian()(k, l), k == l ? 1. : 0.);
  }

#define VC_MOTION \
    NoDynP p0 = anyNoDyn(), p = anyNoDyn(); \
    NoDyn m; \
    setNoDyn(m, p0); \
    MotionConstraint<double> o(m); \
    if (vcBool("earlier query")) \
    { \
      o.getFunctionInf(vcVec("earlier jerks", p0.n)); \
      o.getFunctionSup(vcVec("earlier jerks", p0.n)); \
    } \
    setNoDyn(m, p); \
    o.computeConstantPart(); \
    VX x(vcVec("jerks", p.n)), s(vcVec("new state", 3)); \
    if (vcBool("earlier query with this configuration")) o.getFunctionInf(vcVec("other jerks", p.n)); \
    m.setState(s); \
    double vl = vcPos("new velocity limit"), al = vcPos("new acceleration limit"); \
    m.setVelocityLimit(vl); \
    m.setAccelerationLimit(al); \
    int N = p.n; \
    const LD &dv = m.getVelLinearDynamic(), &da = m.getAccLinearDynamic()

  VC_HARNESS(motion_gradient)
  {
    VC_MOTION;
    vcEnsureEqI("number of constraints", o.getNbConstraints(), 2*N);
    vcEnsureEqI("rows", o.getGradient().rows(), 2*N);
    vcEnsureEqI("cols", o.getGradient().cols(), N);
    int i = vcIndex("sample", N), k = vcIndex("variable", N);
    o.getFunctionSup(x);
    vcEnsureEq("velocity rows", o.getGradient()(i, k), dv.U(i, k));
    vcEnsureEq("acceleration rows", o.getGradient()(N + i, k), da.U(i, k));
  }

  VC_HARNESS(motion_lower)
  {
    VC_MOTION;
    const VX& f = o.getFunctionInf(x);
    vcEnsureEqI("rows", f.rows(), 2*N);
    int i = vcIndex("sample", N);
    vcEnsureEq("velocity", f(i), -vl - predict(dv, i, s, x, 0, N));
    vcEnsureEq("acceleration", f(N + i), -al - predict(da, i, s, x, 0, N));
  }

  VC_HARNESS(motion_upper)
  {
    VC_MOTION;
    const VX& f = o.getFunctionSup(x);
    vcEnsureEqI("rows", f.rows(), 2*N);
    int i = vcIndex("sample", N);
    vcEnsureEq("velocity", f(i), vl - predict(dv, i, s, x, 0, N));
    vcEnsureEq("acceleration", f(N + i), al - predict(da, i, s, x, 0, N));
  }

  VC_HARNESS(motion_both)
  {
    VC_MOTION;
    VX up(o.getFunctionSup(x)), lo(o.getFunctionInf(x)), up2(o.getFunctionSup(x));
    int i = vcIndex("row", 2*N);
    vcEnsureEq("width", up(i) - lo(i), i < N ? 2.*vl : 2.*al);
    vcEnsureEq("independent of the order of the queries", up2(i), up(i));
  }
}
