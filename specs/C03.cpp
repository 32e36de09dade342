// C03  Foot interpolation is a C2 spline that reaches its target
//
// The trajectory is the one computePolynomialNormalisedFactors and selectFactors give: a cubic on each third of the
// interval.  Start conditions, end conditions and continuity of value and two derivatives at both joints are the 12
// equations that determine it uniquely; updateState* is shown to be its value and first two derivatives.
#include <mpc-walkgen/tools.h>
#include <mpc-walkgen/interpolator.h>
#include <mpc-walkgen/model/humanoid_foot_model.h>
#include "vc.h"

namespace MPCWalkgen
{
  typedef Interpolator<double> Interp;
  typedef HumanoidFootModel<double> Foot;

  static VX spline(const Interp& in, const V3& s, const V3& f, double T)
  {
    VX factor(vcVec("old factors", 12));     // whatever an earlier call left
    in.computePolynomialNormalisedFactors(factor, s, f, T);
    vcEnsureEqI("number of factors", factor.size(), 12);
    return factor;
  }

  // position, velocity or acceleration (order d) at time t of the cubic of coefficients c in t/T
  static double value(const V4& c, double t, double T, int d)
  {
    double x = t/T;
    if (d == 0) return ((c(0)*x + c(1))*x + c(2))*x + c(3);
    if (d == 1) return ((3.*c(0)*x + 2.*c(1))*x + c(2))/T;
    return (6.*c(0)*x + 2.*c(1))/(T*T);
  }

  VC_HARNESS(start)
  {
    Interp in;
    V3 s = vcVec3("start"), f = vcVec3("target");
    double T = vcPos("T");
    VX factor(spline(in, s, f, T));
    V4 c(vcVec4("old cubic"));
    in.selectFactors(c, factor, 0., T);
    int d = vcIndex("derivative", 3);
    vcEnsureEq("starts at the start state", value(c, 0., T, d), s(d));
  }

  VC_HARNESS(target)
  {
    Interp in;
    V3 s = vcVec3("start"), f = vcVec3("target");
    double T = vcPos("T");
    VX factor(spline(in, s, f, T));
    V4 c(vcVec4("old cubic"));
    in.selectFactors(c, factor, T, T);
    int d = vcIndex("derivative", 3);
    vcEnsureEq("reaches the target state", value(c, T, T, d), f(d));
  }

  // two instants strictly inside thirds a and b: the same cubic inside a third, and cubics that agree up to the second
  // derivative at the joint of consecutive thirds
#define VC_JOINT(name, lo, mid, hi) \
  VC_HARNESS(name) \
  { \
    Interp in; \
    V3 s = vcVec3("start"), f = vcVec3("target"); \
    double T = vcPos("T"), t = vcRange("t", (lo)*T, (mid)*T), u = vcRange("u", (mid)*T, (hi)*T), v = vcRange("v", (lo)*T, (mid)*T); \
    vcRequire((lo)*T < t && t < (mid)*T && (mid)*T < u && u < (hi)*T); \
    vcRequire((lo)*T <= v && v < (mid)*T && ((lo) == 0. || (lo)*T < v)); \
    VX factor(spline(in, s, f, T)); \
    V4 a(vcVec4("old cubic")), b(vcVec4("old cubic 2")), c(vcVec4("old cubic 3")); \
    in.selectFactors(a, factor, t, T); \
    in.selectFactors(b, factor, u, T); \
    in.selectFactors(c, factor, v, T); \
    int d = vcIndex("derivative", 3), k = vcIndex("coefficient", 4); \
    vcEnsureEq("continuous at the joint", value(a, (mid)*T, T, d), value(b, (mid)*T, T, d)); \
    vcEnsureEq("one cubic in each third", a(k), c(k)); \
  }
  VC_JOINT(first_joint, 0., 1./3., 2./3.)
  VC_JOINT(second_joint, 1./3., 2./3., 1.)

  VC_HARNESS(last_third)
  {
    Interp in;
    V3 s = vcVec3("start"), f = vcVec3("target");
    double T = vcPos("T"), t = vcRange("t", 2./3.*T, T);
    vcRequire(2./3.*T < t);
    VX factor(spline(in, s, f, T));
    V4 a(vcVec4("old cubic")), b(vcVec4("old cubic 2"));
    in.selectFactors(a, factor, t, T);
    in.selectFactors(b, factor, T, T);
    int k = vcIndex("coefficient", 4);
    vcEnsureEq("one cubic in the last third", a(k), b(k));
  }

  VC_HARNESS(joints_themselves)
  {
    Interp in;
    V3 s = vcVec3("start"), f = vcVec3("target");
    double T = vcPos("T");
    VX factor(spline(in, s, f, T));
    V4 a(vcVec4("old cubic")), b(vcVec4("old cubic 2"));
    int d = vcIndex("derivative", 3);
    in.selectFactors(a, factor, T/3., T);
    in.selectFactors(b, factor, T/2., T);
    vcEnsureEq("first joint", value(a, T/3., T, d), value(b, T/3., T, d));
    in.selectFactors(a, factor, 2.*T/3., T);
    vcEnsureEq("second joint", value(a, 2.*T/3., T, d), value(b, 2.*T/3., T, d));
  }

  // does not depend on what the interpolator was used for before
  VC_HARNESS(no_memory)
  {
    Interp in, fresh;
    spline(in, vcVec3("earlier start"), vcVec3("earlier target"), vcPos("earlier T"));
    V3 s = vcVec3("start"), f = vcVec3("target");
    double T = vcPos("T");
    vcSameV("factors", spline(in, s, f, T), spline(fresh, s, f, T));
  }

  // ---------------------------------------------------------------- feet
  static void setFoot(Foot& m, const VX& x, const VX& y, const VX& z, const VX& w)
  {
    m.setStateX(x); m.setStateY(y); m.setStateZ(z); m.setStateYaw(w);
  }

  static void updated(const char* what, const VX& now, const VX& before, const V3& obj, double T, double t)
  {
    Interp in;
    VX factor(spline(in, before, obj, T));
    V4 c(vcVec4("old cubic"));
    in.selectFactors(c, factor, t, T);
    vcEnsureEqI("size of the state", now.rows(), 3);
    int d = vcIndex("derivative", 3);
    vcEnsureEq(what, now(d), value(c, t, T, d));
  }

#define VC_FOOT(name, make) \
  VC_HARNESS(foot_##name) \
  { \
    int n = vcInt("samples", 1, 4); double P = vcPos("sampling period"); \
    make; \
    VX x(vcVec("x", 3)), y(vcVec("y", 3)), z(vcVec("z", 3)), w(vcVec("yaw", 3)); \
    setFoot(m, x, y, z, w); \
    vcSameV("state x", m.getStateX(), x); vcSameV("state y", m.getStateY(), y); \
    vcSameV("state z", m.getStateZ(), z); vcSameV("state yaw", m.getStateYaw(), w); \
    V3 ox = vcVec3("target x"), oy = vcVec3("target y"), oz = vcVec3("target z"); \
    double T = vcPos("T"), t = vcRange("t", 0., T); \
    m.updateStateX(ox, T, t); \
    updated("x is on its trajectory", m.getStateX(), x, ox, T, t); \
    vcSameV("y unchanged", m.getStateY(), y); vcSameV("z unchanged", m.getStateZ(), z); vcSameV("yaw unchanged", m.getStateYaw(), w); \
    VX x1(m.getStateX()); \
    m.updateStateY(oy, T, t); \
    updated("y is on its trajectory", m.getStateY(), y, oy, T, t); \
    vcSameV("x unchanged", m.getStateX(), x1); vcSameV("z unchanged", m.getStateZ(), z); vcSameV("yaw unchanged", m.getStateYaw(), w); \
    VX y1(m.getStateY()); \
    m.updateStateZ(oz, T, t); \
    updated("z is on its trajectory", m.getStateZ(), z, oz, T, t); \
    vcSameV("x unchanged", m.getStateX(), x1); vcSameV("y unchanged", m.getStateY(), y1); vcSameV("yaw unchanged", m.getStateYaw(), w); \
    vcEnsureEqI("number of samples unchanged", m.getNbSamples(), n); \
    vcEnsureEq("sampling period unchanged", m.getSamplingPeriod(), P); \
  }
  VC_FOOT(default_constructed, Foot m; m.setNbSamples(n); m.setSamplingPeriod(P))
  VC_FOOT(constructed, Foot m(n, P))

  // at t = T the foot is at its target, at t = 0 it has not moved (end to end, through the model)
  VC_HARNESS(foot_ends)
  {
    Foot m;
    VX x(vcVec("x", 3));
    V3 ox = vcVec3("target x");
    double T = vcPos("T");
    m.setStateX(x);
    m.updateStateX(ox, T, 0.);
    int d = vcIndex("derivative", 3);
    vcEnsureEq("not moved at t = 0", m.getStateX()(d), x(d));
    m.updateStateX(ox, T, T);
    vcEnsureEq("at the target at t = T", m.getStateX()(d), ox(d));
  }

  VC_HARNESS(polynomials)
  {
    V4 c = vcVec4("c");
    double x = vcReal("x");
    vcEnsureEq("value", Tools::polynomValue<double>(c, x), c(0)*x*x*x + c(1)*x*x + c(2)*x + c(3));
    vcEnsureEq("derivative", Tools::dPolynomValue<double>(c, x), 3.*c(0)*x*x + 2.*c(1)*x + c(2));
    vcEnsureEq("second derivative", Tools::ddPolynomValue<double>(c, x), 6.*c(0)*x + 2.*c(1));
  }
}
