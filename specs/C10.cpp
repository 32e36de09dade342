// C10  Base and tilt motion limits are encoded exactly
//
// Base motion: rows velocity x, velocity y, acceleration x, acceleration y over the base jerks (x, y); the QP keeps
// gradient*dX between the two functions, which are the distances from the prediction to -limit and +limit.
// Tilt motion: the predicted velocities of both bodies have no component perpendicular to the base heading theta,
// v = sin(theta)*vx - cos(theta)*vy; the QP keeps gradient*dX equal to the function, so the function is -v and the
// gradient its derivative with respect to the jerks.  A change of heading or of configuration is followed by
// computeConstantPart, as for every function; a change of the states x and y is not.
#include <mpc-walkgen/function/zebulon_base_motion_constraint.h>
#include <mpc-walkgen/function/zebulon_tilt_motion_constraint.h>
#include "two.h"

namespace MPCWalkgen
{
#define VC_BASE_MOTION \
    BaseP t0 = anyBase(), t = anyBase(); \
    Base b(mkBase(t0)); \
    BaseMotionConstraint<double> o(b); \
    if (vcBool("earlier query")) { VX q(vcVec("earlier jerks", 2*t0.n)); o.getFunctionInf(q); o.getFunctionSup(q); } \
    b = mkBase(t); \
    int N = t.n; \
    o.computeConstantPart(); \
    VX x(vcVec("jerks", 2*N)); \
    if (vcBool("earlier query with this configuration")) { VX q(vcVec("other jerks", 2*N)); o.getFunctionSup(q); o.getFunctionInf(q); } \
    VX bx(vcVec("new base x", 3)), by(vcVec("new base y", 3)); \
    b.setStateX(bx); b.setStateY(by); \
    double vl = vcPos("new velocity limit"), al = vcPos("new acceleration limit"); \
    b.setVelocityLimit(vl); b.setAccelerationLimit(al); \
    const LD &dv = b.getBaseVelLinearDynamic(), &da = b.getBaseAccLinearDynamic()

  VC_HARNESS(base_motion_rows)
  {
    VC_BASE_MOTION;
    vcEnsureEqI("number of constraints", o.getNbConstraints(), 4*N);
    vcEnsureEqI("rows of the gradient", o.getGradient().rows(), 4*N);
    vcEnsureEqI("cols of the gradient", o.getGradient().cols(), 2*N);
    vcEnsureEqI("rows of the lower values", o.getFunctionInf(x).rows(), 4*N);
    vcEnsureEqI("rows of the upper values", o.getFunctionSup(x).rows(), 4*N);
    (void)dv; (void)da; (void)vl; (void)al;
  }

  VC_HARNESS(base_motion_gradient)
  {
    VC_BASE_MOTION;
    if (vcBool("after a query")) o.getFunctionInf(x);
    const MX& g = o.getGradient();
    int i = vcIndex("sample", N), k = vcIndex("variable", N);
    vcEnsureEq("velocity x, jerk x", g(i, k), dv.U(i, k));
    vcEnsureEq("velocity x, jerk y", g(i, N + k), 0.);
    vcEnsureEq("velocity y, jerk x", g(N + i, k), 0.);
    vcEnsureEq("velocity y, jerk y", g(N + i, N + k), dv.U(i, k));
    vcEnsureEq("acceleration x, jerk x", g(2*N + i, k), da.U(i, k));
    vcEnsureEq("acceleration x, jerk y", g(2*N + i, N + k), 0.);
    vcEnsureEq("acceleration y, jerk x", g(3*N + i, k), 0.);
    vcEnsureEq("acceleration y, jerk y", g(3*N + i, N + k), da.U(i, k));
    (void)vl; (void)al;
  }

  VC_HARNESS(base_motion_lower)
  {
    VC_BASE_MOTION;
    if (vcBool("after the upper values")) o.getFunctionSup(x);
    const VX& f = o.getFunctionInf(x);
    int i = vcIndex("sample", N);
    vcEnsureEq("velocity x", f(i), -vl - predict(dv, i, bx, x, 0, N));
    vcEnsureEq("velocity y", f(N + i), -vl - predict(dv, i, by, x, N, N));
    vcEnsureEq("acceleration x", f(2*N + i), -al - predict(da, i, bx, x, 0, N));
    vcEnsureEq("acceleration y", f(3*N + i), -al - predict(da, i, by, x, N, N));
  }

  VC_HARNESS(base_motion_upper)
  {
    VC_BASE_MOTION;
    const VX& f = o.getFunctionSup(x);
    if (vcBool("lower values in between")) o.getFunctionInf(x);
    int i = vcIndex("sample", N);
    vcEnsureEq("velocity x", f(i), vl - predict(dv, i, bx, x, 0, N));
    vcEnsureEq("velocity y", f(N + i), vl - predict(dv, i, by, x, N, N));
    vcEnsureEq("acceleration x", f(2*N + i), al - predict(da, i, bx, x, 0, N));
    vcEnsureEq("acceleration y", f(3*N + i), al - predict(da, i, by, x, N, N));
  }

#define VC_TILT_MOTION \
    VC_TWO; \
    TiltMotionConstraint<double> o(c, b); \
    if (vcBool("earlier query")) o.getFunction(vcVec("earlier jerks", 4*t0.c.n)); \
    VC_TWO_RECONFIGURED; \
    o.computeConstantPart(); \
    VX x(vcVec("jerks", 4*N)); \
    if (vcBool("earlier query with this configuration")) o.getFunction(vcVec("other jerks", 4*N)); \
    VC_TWO_NEW_STATE; \
    double s = std::sin(t.b.yaw(0)), co = std::cos(t.b.yaw(0)); \
    const LD &dc = c.getComVelLinearDynamic(), &db = b.getBaseVelLinearDynamic()

  VC_HARNESS(tilt_motion_rows)
  {
    VC_TILT_MOTION;
    vcEnsureEqI("number of constraints", o.getNbConstraints(), 2*N);
    vcEnsureEqI("rows of the gradient", o.getGradient().rows(), 2*N);
    vcEnsureEqI("cols of the gradient", o.getGradient().cols(), 4*N);
    vcEnsureEqI("rows of the function", o.getFunction(x).rows(), 2*N);
    (void)dc; (void)db; (void)s; (void)co;
  }

  VC_HARNESS(tilt_motion_function)
  {
    VC_TILT_MOTION;
    const VX& f = o.getFunction(x);
    int i = vcIndex("sample", N);
    vcEnsureEq("CoM velocity across the heading", f(i), -(s*predict(dc, i, cx, x, 0, N) - co*predict(dc, i, cy, x, N, N)));
    vcEnsureEq("base velocity across the heading", f(N + i), -(s*predict(db, i, bx, x, 2*N, N) - co*predict(db, i, by, x, 3*N, N)));
  }

  VC_HARNESS(tilt_motion_gradient)
  {
    VC_TILT_MOTION;
    if (vcBool("after a query")) o.getFunction(x);
    const MX& g = o.getGradient();
    int i = vcIndex("sample", N), k = vcIndex("variable", N);
    vcEnsureEq("CoM row, CoM x", g(i, k), s*dc.U(i, k));
    vcEnsureEq("CoM row, CoM y", g(i, N + k), -co*dc.U(i, k));
    vcEnsureEq("CoM row, base x", g(i, 2*N + k), 0.);
    vcEnsureEq("CoM row, base y", g(i, 3*N + k), 0.);
    vcEnsureEq("base row, CoM x", g(N + i, k), 0.);
    vcEnsureEq("base row, CoM y", g(N + i, N + k), 0.);
    vcEnsureEq("base row, base x", g(N + i, 2*N + k), s*db.U(i, k));
    vcEnsureEq("base row, base y", g(N + i, 3*N + k), -co*db.U(i, k));
  }
}
