// C02  Models never serve prediction matrices that disagree with their parameters
//
// The invariant is "the model is the one the canonical construction gives for its current parameters" (models.h).
// It is established by every constructor and preserved by every mutator (one harness each, on an arbitrary model
// satisfying it), so it holds after every history.  What the canonical construction gives is stated in *_meaning.
#include <mpc-walkgen/tools.h>
#include "models.h"

namespace MPCWalkgen
{
  typedef Tools::ConstantJerkDynamic<double> CJ;

  // ---------------------------------------------------------------- pendulum
  static void lipInitial(const Lip& m, int n, double T)
  {
    vcEnsureEqI("initial number of samples", m.getNbSamples(), n);
    vcEnsureEq("initial sampling period", m.getSamplingPeriod(), T);
    vcEnsureEq("initial feedback period", m.getFeedbackPeriod(), T);
    vcEnsureEq("initial height", m.getComHeight(), 1.);
    vcEnsureEq("initial mass", m.getMass(), 1.);
    int c = vcIndex("component", 3);
    vcEnsureEq("initial gravity", m.getGravity()(c), Constant<double>::GRAVITY_VECTOR(c));
    vcEnsureEqI("size x", m.getStateX().rows(), 3); vcEnsureEqI("size y", m.getStateY().rows(), 3);
    vcEnsureEqI("size z", m.getStateZ().rows(), 3); vcEnsureEqI("size yaw", m.getStateYaw().rows(), 3);
    vcEnsureEq("initial x", m.getStateX()(c), 0.);
    vcEnsureEq("initial y", m.getStateY()(c), 0.);
    vcEnsureEq("initial z", m.getStateZ()(c), c == 0 ? 1. : 0.);
    vcEnsureEq("initial yaw", m.getStateYaw()(c), 0.);
  }

  VC_HARNESS(lip_constructors)
  {
    int n = vcInt("n", 1, 4);
    double T = vcPos("T");
    Lip a(n, T, true), b, c(n, T, false);
    lipInitial(b, 1, 1.);
    lipInitial(a, n, T);
    lipInitial(c, n, T);
    b.setNbSamples(n);
    b.setSamplingPeriod(T);
    sameLip(a, b);
    c.computeDynamics();
    int k = vcIndex("index", feedbacks(T, T));
    sameDyn("position", c.getComPosLinearDynamic(k), b.getComPosLinearDynamic(k));
    sameDyn("velocity", c.getComVelLinearDynamic(k), b.getComVelLinearDynamic(k));
    sameDyn("acceleration", c.getComAccLinearDynamic(k), b.getComAccLinearDynamic(k));
    sameDyn("CoP X", c.getCopXLinearDynamic(k), b.getCopXLinearDynamic(k));
    sameDyn("CoP Y", c.getCopYLinearDynamic(k), b.getCopYLinearDynamic(k));
    sameDyn("jerk", c.getComJerkLinearDynamic(k), b.getComJerkLinearDynamic(k));
  }

  // what the parameters define
  VC_HARNESS(lip_meaning)
  {
    LipP p = anyLip();
    Lip m;
    setLip(m, p);
    vcEnsureEqI("number of samples", m.getNbSamples(), p.n);
    vcEnsureEq("sampling period", m.getSamplingPeriod(), p.T);
    vcEnsureEq("feedback period", m.getFeedbackPeriod(), p.fb);
    vcEnsureEq("height", m.getComHeight(), p.ph.h);
    vcEnsureEq("height of the state", m.getStateZ()(0), p.ph.h);
    vcEnsureEq("mass", m.getMass(), p.ph.m);
    vcSameV("gravity", m.getGravity(), p.ph.g);
    vcSameV("state x", m.getStateX(), p.x);
    vcSameV("state y", m.getStateY(), p.y);
    vcSameV("state yaw", m.getStateYaw(), p.yaw);
    int K = feedbacks(p.T, p.fb);
    int k = vcIndex("feedback index", K);
    double S = (k + 1.)*p.fb, L = K*p.fb;
    LD pos, vel, acc, cx, cy, jerk, lpos, lvel, lacc, lcx, lcy;
    CJ::computePosDynamic(S, p.T, p.n, pos);
    CJ::computeVelDynamic(S, p.T, p.n, vel);
    CJ::computeAccDynamic(S, p.T, p.n, acc);
    CJ::computeCopDynamic(S, p.T, p.n, cx, p.ph.h, p.ph.g(0), p.ph.g(2), p.ph.m, p.ph.t);
    CJ::computeCopDynamic(S, p.T, p.n, cy, p.ph.h, p.ph.g(1), p.ph.g(2), p.ph.m, p.ph.t);
    CJ::computeJerkDynamic(p.n, jerk);
    CJ::computePosDynamic(L, p.T, p.n, lpos);
    CJ::computeVelDynamic(L, p.T, p.n, lvel);
    CJ::computeAccDynamic(L, p.T, p.n, lacc);
    CJ::computeCopDynamic(L, p.T, p.n, lcx, p.ph.h, p.ph.g(0), p.ph.g(2), p.ph.m, p.ph.t);
    CJ::computeCopDynamic(L, p.T, p.n, lcy, p.ph.h, p.ph.g(1), p.ph.g(2), p.ph.m, p.ph.t);
    sameDyn("position, first interval (i+1) feedback periods", m.getComPosLinearDynamic(k), pos);
    sameDyn("velocity, first interval (i+1) feedback periods", m.getComVelLinearDynamic(k), vel);
    sameDyn("acceleration, first interval (i+1) feedback periods", m.getComAccLinearDynamic(k), acc);
    sameDyn("CoP X, first interval (i+1) feedback periods", m.getCopXLinearDynamic(k), cx);
    sameDyn("CoP Y, first interval (i+1) feedback periods", m.getCopYLinearDynamic(k), cy);
    sameDyn("jerk", m.getComJerkLinearDynamic(k), jerk);
    sameDyn("jerk, default index", m.getComJerkLinearDynamic(), jerk);
    sameDyn("position, longest first interval", m.getComPosLinearDynamic(), lpos);
    sameDyn("velocity, longest first interval", m.getComVelLinearDynamic(), lvel);
    sameDyn("acceleration, longest first interval", m.getComAccLinearDynamic(), lacc);
    sameDyn("CoP X, longest first interval", m.getCopXLinearDynamic(), lcx);
    sameDyn("CoP Y, longest first interval", m.getCopYLinearDynamic(), lcy);
  }

  // a mutator applied to the model of parameters p gives the model of the changed parameters
#define LIP_MUTATOR(name, call, change, pre) \
  VC_HARNESS(lip_##name) \
  { \
    LipP p = anyLip(); \
    LipP q = p; \
    int n = vcInt("n", 1, 4); double v = vcReal("v"), d = vcReal("d"); V3 g = vcVec3("g"); VX s = vcVec("s", 3); \
    Lip a, b; \
    setLip(a, p); \
    vcRequire(pre); \
    { change; } \
    a.call; \
    setLip(b, q); \
    sameLip(a, b); \
  }

  LIP_MUTATOR(setNbSamples, setNbSamples(n), q.n = n, true)
  LIP_MUTATOR(setSamplingPeriod, setSamplingPeriod(v), q.T = v; q.fb = v, v > 0.)
  LIP_MUTATOR(setFeedbackPeriod, setFeedbackPeriod(v), q.fb = v, periodsOk(p.T, v))
  LIP_MUTATOR(setComHeight, setComHeight(v), q.ph.h = v, true)
  LIP_MUTATOR(setGravity, setGravity(g), q.ph.g = g, std::abs(g(2)) > Constant<double>::EPSILON)
  LIP_MUTATOR(setMass, setMass(v), q.ph.m = v, v >= 0. && v <= p.ph.t)
  LIP_MUTATOR(setTotalMass, setTotalMass(v), q.ph.t = v, v >= p.ph.m && v > Constant<double>::EPSILON)
  LIP_MUTATOR(setStateX, setStateX(s), q.x = s, true)
  LIP_MUTATOR(setStateY, setStateY(s), q.y = s, true)
  LIP_MUTATOR(setStateYaw, setStateYaw(s), q.yaw = s, true)
  LIP_MUTATOR(updateStateX, updateStateX(v, d), CJ::updateState(v, d, q.x), d > 0.)
  LIP_MUTATOR(updateStateY, updateStateY(v, d), CJ::updateState(v, d, q.y), d > 0.)
  LIP_MUTATOR(updateStateYaw, updateStateYaw(v, d), CJ::updateState(v, d, q.yaw), d > 0.)
  LIP_MUTATOR(computeDynamics, computeDynamics(), , true)
  LIP_MUTATOR(computeCopXDynamicVec, computeCopXDynamicVec(), , true)
  LIP_MUTATOR(computeCopYDynamicVec, computeCopYDynamicVec(), , true)
  LIP_MUTATOR(computeComPosDynamicVec, computeComPosDynamicVec(), , true)
  LIP_MUTATOR(computeComVelDynamicVec, computeComVelDynamicVec(), , true)
  LIP_MUTATOR(computeComAccDynamicVec, computeComAccDynamicVec(), , true)
  LIP_MUTATOR(computeComJerkDynamic, computeComJerkDynamic(), , true)

  // a copy is the model it was copied from
  VC_HARNESS(lip_copy)
  {
    LipP p = anyLip();
    Lip a;
    setLip(a, p);
    Lip b(a), c;
    c = a;
    sameLip(b, a);
    sameLip(c, a);
  }

  // ---------------------------------------------------------------- base
  static void baseInitial(const Base& m, int n, double T)
  {
    vcEnsureEqI("initial number of samples", m.getNbSamples(), n);
    vcEnsureEq("initial sampling period", m.getSamplingPeriod(), T);
    vcEnsureEq("initial height", m.getComHeight(), 0.);
    vcEnsureEq("initial mass", m.getMass(), 0.);
    vcEnsureEq("initial velocity limit", m.getVelocityLimit(), 1.);
    vcEnsureEq("initial acceleration limit", m.getAccelerationLimit(), 1.);
    vcEnsureEq("initial jerk limit", m.getJerkLimit(), 1.);
    vcEnsureEq("initial tilt contact point x", m.getTiltContactPointX(), 0.);
    vcEnsureEq("initial tilt contact point y", m.getTiltContactPointY(), 0.);
    vcEnsureEqI("initial CoP polygon", m.getCopSupportConvexPolygon().getNbVertices(), 0);
    vcEnsureEqI("initial CoM polygon", m.getComSupportConvexPolygon().getNbVertices(), 0);
    int c = vcIndex("component", 3);
    vcEnsureEqI("size x", m.getStateX().rows(), 3); vcEnsureEqI("size y", m.getStateY().rows(), 3);
    vcEnsureEqI("size roll", m.getStateRoll().rows(), 3); vcEnsureEqI("size pitch", m.getStatePitch().rows(), 3);
    vcEnsureEqI("size yaw", m.getStateYaw().rows(), 3);
    vcEnsureEq("initial x", m.getStateX()(c), 0.); vcEnsureEq("initial y", m.getStateY()(c), 0.);
    vcEnsureEq("initial roll", m.getStateRoll()(c), 0.); vcEnsureEq("initial pitch", m.getStatePitch()(c), 0.);
    vcEnsureEq("initial yaw", m.getStateYaw()(c), 0.);
  }

  static void baseDyns(const Base& c, const Base& b)
  {
    sameDyn("position", c.getBasePosLinearDynamic(), b.getBasePosLinearDynamic());
    sameDyn("velocity", c.getBaseVelLinearDynamic(), b.getBaseVelLinearDynamic());
    sameDyn("acceleration", c.getBaseAccLinearDynamic(), b.getBaseAccLinearDynamic());
    sameDyn("jerk", c.getBaseJerkLinearDynamic(), b.getBaseJerkLinearDynamic());
    sameDyn("tilt angle", c.getBaseTiltAngleLinearDynamic(), b.getBaseTiltAngleLinearDynamic());
    sameDyn("tilt velocity", c.getBaseTiltAngularVelLinearDynamic(), b.getBaseTiltAngularVelLinearDynamic());
    sameDyn("CoP X", c.getCopXLinearDynamic(), b.getCopXLinearDynamic());
    sameDyn("CoP Y", c.getCopYLinearDynamic(), b.getCopYLinearDynamic());
  }

  VC_HARNESS(base_constructors)
  {
    int n = vcInt("n", 1, 4);
    double T = vcPos("T");
    Base a(n, T, true), b, c(n, T, false);
    baseInitial(b, 1, 1.);
    baseInitial(a, n, T);
    baseInitial(c, n, T);
    b.setNbSamples(n);
    b.setSamplingPeriod(T);
    sameBase(a, b);
    c.computeDynamics();
    baseDyns(c, b);
  }

  VC_HARNESS(base_meaning)
  {
    BaseP p = anyBase();
    Base m;
    setBase(m, p);
    vcEnsureEqI("number of samples", m.getNbSamples(), p.n);
    vcEnsureEq("sampling period", m.getSamplingPeriod(), p.T);
    vcEnsureEq("height", m.getComHeight(), p.ph.h);
    vcEnsureEq("mass", m.getMass(), p.ph.m);
    vcEnsureEq("velocity limit", m.getVelocityLimit(), p.vl);
    vcEnsureEq("acceleration limit", m.getAccelerationLimit(), p.al);
    vcEnsureEq("jerk limit", m.getJerkLimit(), p.jl);
    vcEnsureEq("tilt contact point x", m.getTiltContactPointX(), p.cx);
    vcEnsureEq("tilt contact point y", m.getTiltContactPointY(), p.cy);
    vcSameV("state x", m.getStateX(), p.x); vcSameV("state y", m.getStateY(), p.y);
    vcSameV("state roll", m.getStateRoll(), p.roll); vcSameV("state pitch", m.getStatePitch(), p.pitch);
    vcSameV("state yaw", m.getStateYaw(), p.yaw);
    samePoly("CoP polygon", m.getCopSupportConvexPolygon(), p.cop);
    samePoly("CoM polygon", m.getComSupportConvexPolygon(), p.com);
    LD pos, vel, acc, cx, cy, jerk, ta, tv;
    CJ::computePosDynamic(p.T, p.T, p.n, pos);
    CJ::computeVelDynamic(p.T, p.T, p.n, vel);
    CJ::computeAccDynamic(p.T, p.T, p.n, acc);
    CJ::computeCopDynamic(p.T, p.T, p.n, cx, p.ph.h, p.ph.g(0), p.ph.g(2), p.ph.m, p.ph.t);
    CJ::computeCopDynamic(p.T, p.T, p.n, cy, p.ph.h, p.ph.g(1), p.ph.g(2), p.ph.m, p.ph.t);
    CJ::computeJerkDynamic(p.n, jerk);
    CJ::computeOrder2PosDynamic(p.T, p.T, p.n, ta);
    CJ::computeOrder2VelDynamic(p.T, p.T, p.n, tv);
    sameDyn("position", m.getBasePosLinearDynamic(), pos);
    sameDyn("velocity", m.getBaseVelLinearDynamic(), vel);
    sameDyn("acceleration", m.getBaseAccLinearDynamic(), acc);
    sameDyn("jerk", m.getBaseJerkLinearDynamic(), jerk);
    sameDyn("CoP X", m.getCopXLinearDynamic(), cx);
    sameDyn("CoP Y", m.getCopYLinearDynamic(), cy);
    sameDyn("tilt angle", m.getBaseTiltAngleLinearDynamic(), ta);
    sameDyn("tilt velocity", m.getBaseTiltAngularVelLinearDynamic(), tv);
  }

#define BASE_MUTATOR(name, call, change, pre) \
  VC_HARNESS(base_##name) \
  { \
    BaseP p = anyBase(); \
    BaseP q = p; \
    int n = vcInt("n", 1, 4); double v = vcReal("v"), d = vcReal("d"); V3 g = vcVec3("g"); VX s = vcVec("s", 3); \
    Poly po = vcAny<Poly>("polygon"); \
    vcRequire(po.getNbVertices() >= 3); \
    Base a, b; \
    setBase(a, p); \
    vcRequire(pre); \
    { change; } \
    a.call; \
    setBase(b, q); \
    sameBase(a, b); \
  }

  BASE_MUTATOR(setNbSamples, setNbSamples(n), q.n = n, true)
  BASE_MUTATOR(setSamplingPeriod, setSamplingPeriod(v), q.T = v, v > 0.)
  BASE_MUTATOR(setComHeight, setComHeight(v), q.ph.h = v, true)
  BASE_MUTATOR(setGravity, setGravity(g), q.ph.g = g, std::abs(g(2)) > Constant<double>::EPSILON)
  BASE_MUTATOR(setMass, setMass(v), q.ph.m = v, v > 0. && v <= p.ph.t)
  BASE_MUTATOR(setTotalMass, setTotalMass(v), q.ph.t = v, v >= p.ph.m && v > Constant<double>::EPSILON)
  BASE_MUTATOR(setStateX, setStateX(s), q.x = s, true)
  BASE_MUTATOR(setStateY, setStateY(s), q.y = s, true)
  BASE_MUTATOR(setStateRoll, setStateRoll(s), q.roll = s, true)
  BASE_MUTATOR(setStatePitch, setStatePitch(s), q.pitch = s, true)
  BASE_MUTATOR(setStateYaw, setStateYaw(s), q.yaw = s, true)
  BASE_MUTATOR(updateStateX, updateStateX(v, d), CJ::updateState(v, d, q.x), d > 0.)
  BASE_MUTATOR(updateStateY, updateStateY(v, d), CJ::updateState(v, d, q.y), d > 0.)
  BASE_MUTATOR(setVelocityLimit, setVelocityLimit(v), q.vl = v, v >= 0.)
  BASE_MUTATOR(setAccelerationLimit, setAccelerationLimit(v), q.al = v, v >= 0.)
  BASE_MUTATOR(setJerkLimit, setJerkLimit(v), q.jl = v, v >= 0.)
  BASE_MUTATOR(setTiltContactPointX, setTiltContactPointX(v), q.cx = v, true)
  BASE_MUTATOR(setTiltContactPointY, setTiltContactPointY(v), q.cy = v, true)
  BASE_MUTATOR(setCopSupportConvexPolygon, setCopSupportConvexPolygon(po), q.cop = po, true)
  BASE_MUTATOR(setComSupportConvexPolygon, setComSupportConvexPolygon(po), q.com = po, true)
  BASE_MUTATOR(computeDynamics, computeDynamics(), , true)

  VC_HARNESS(base_copy)
  {
    BaseP p = anyBase();
    Base a;
    setBase(a, p);
    Base b(a), c;
    c = a;
    sameBase(b, a);
    sameBase(c, a);
  }

  // ---------------------------------------------------------------- no dynamic
  static void noDynInitial(const NoDyn& m, int n, double T)
  {
    vcEnsureEqI("initial number of samples", m.getNbSamples(), n);
    vcEnsureEq("initial sampling period", m.getSamplingPeriod(), T);
    vcEnsureEq("initial velocity limit", m.getVelocityLimit(), 1.);
    vcEnsureEq("initial acceleration limit", m.getAccelerationLimit(), 1.);
    vcEnsureEq("initial jerk limit", m.getJerkLimit(), 1.);
    int c = vcIndex("component", 3);
    vcEnsureEqI("size of the state", m.getState().rows(), 3);
    vcEnsureEq("initial state", m.getState()(c), 0.);
  }

  VC_HARNESS(nodyn_constructors)
  {
    int n = vcInt("n", 1, 4);
    double T = vcPos("T");
    NoDyn a(n, T, true), b, c(n, T, false);
    noDynInitial(b, 1, 1.);
    noDynInitial(a, n, T);
    noDynInitial(c, n, T);
    b.setNbSamples(n);
    b.setSamplingPeriod(T);
    sameNoDyn(a, b);
    c.computeDynamics();
    sameDyn("position", c.getPosLinearDynamic(), b.getPosLinearDynamic());
    sameDyn("velocity", c.getVelLinearDynamic(), b.getVelLinearDynamic());
    sameDyn("acceleration", c.getAccLinearDynamic(), b.getAccLinearDynamic());
    sameDyn("jerk", c.getJerkLinearDynamic(), b.getJerkLinearDynamic());
  }

  VC_HARNESS(nodyn_meaning)
  {
    NoDynP p = anyNoDyn();
    NoDyn m;
    setNoDyn(m, p);
    vcEnsureEqI("number of samples", m.getNbSamples(), p.n);
    vcEnsureEq("sampling period", m.getSamplingPeriod(), p.T);
    vcEnsureEq("velocity limit", m.getVelocityLimit(), p.vl);
    vcEnsureEq("acceleration limit", m.getAccelerationLimit(), p.al);
    vcEnsureEq("jerk limit", m.getJerkLimit(), p.jl);
    vcSameV("state", m.getState(), p.x);
    LD pos, vel, acc, jerk;
    CJ::computePosDynamic(p.T, p.T, p.n, pos);
    CJ::computeVelDynamic(p.T, p.T, p.n, vel);
    CJ::computeAccDynamic(p.T, p.T, p.n, acc);
    CJ::computeJerkDynamic(p.n, jerk);
    sameDyn("position", m.getPosLinearDynamic(), pos);
    sameDyn("velocity", m.getVelLinearDynamic(), vel);
    sameDyn("acceleration", m.getAccLinearDynamic(), acc);
    sameDyn("jerk", m.getJerkLinearDynamic(), jerk);
  }

#define NODYN_MUTATOR(name, call, change, pre) \
  VC_HARNESS(nodyn_##name) \
  { \
    NoDynP p = anyNoDyn(); \
    NoDynP q = p; \
    int n = vcInt("n", 1, 4); double v = vcReal("v"), d = vcReal("d"); VX s = vcVec("s", 3); \
    NoDyn a, b; \
    setNoDyn(a, p); \
    vcRequire(pre); \
    { change; } \
    a.call; \
    setNoDyn(b, q); \
    sameNoDyn(a, b); \
  }

  NODYN_MUTATOR(setNbSamples, setNbSamples(n), q.n = n, true)
  NODYN_MUTATOR(setSamplingPeriod, setSamplingPeriod(v), q.T = v, v > 0.)
  NODYN_MUTATOR(setState, setState(s), q.x = s, true)
  NODYN_MUTATOR(updateState, updateState(v, d), CJ::updateState(v, d, q.x), d > 0.)
  NODYN_MUTATOR(setVelocityLimit, setVelocityLimit(v), q.vl = v, v >= 0.)
  NODYN_MUTATOR(setAccelerationLimit, setAccelerationLimit(v), q.al = v, v >= 0.)
  NODYN_MUTATOR(setJerkLimit, setJerkLimit(v), q.jl = v, v >= 0.)
  NODYN_MUTATOR(computeDynamics, computeDynamics(), , true)

  // ---------------------------------------------------------------- random histories (native, when a proof is missing)
  VC_REPLAY(lip_history)
  {
    LipP p = anyLip();
    Lip a, b;
    setLip(a, p);
    int steps = vcInt("steps", 1, 6);
    for (int i = 0; i < steps; ++i)
    {
      LipP q = anyLip();
      switch (vcInt("mutator", 0, 11))
      {
        case 0: a.setNbSamples(q.n); p.n = q.n; break;
        case 1: a.setSamplingPeriod(q.T); p.T = p.fb = q.T; break;
        case 2: vcRequire(periodsOk(p.T, q.fb)); a.setFeedbackPeriod(q.fb); p.fb = q.fb; break;
        case 3: a.setComHeight(q.ph.h); p.ph.h = q.ph.h; break;
        case 4: a.setGravity(q.ph.g); p.ph.g = q.ph.g; break;
        case 5: vcRequire(q.ph.m <= p.ph.t); a.setMass(q.ph.m); p.ph.m = q.ph.m; break;
        case 6: vcRequire(q.ph.t >= p.ph.m); a.setTotalMass(q.ph.t); p.ph.t = q.ph.t; break;
        case 7: a.setStateX(q.x); p.x = q.x; break;
        case 8: a.setStateY(q.y); p.y = q.y; break;
        case 9: a.setStateYaw(q.yaw); p.yaw = q.yaw; break;
        case 10: a.updateStateX(q.x(0), q.T); CJ::updateState(q.x(0), q.T, p.x); break;
        default: a.computeDynamics(); break;
      }
    }
    setLip(b, p);
    sameLip(a, b);
  }

  VC_REPLAY(base_history)
  {
    BaseP p = anyBase();
    Base a, b;
    setBase(a, p);
    int steps = vcInt("steps", 1, 6);
    for (int i = 0; i < steps; ++i)
    {
      BaseP q = anyBase();
      switch (vcInt("mutator", 0, 11))
      {
        case 0: a.setNbSamples(q.n); p.n = q.n; break;
        case 1: a.setSamplingPeriod(q.T); p.T = q.T; break;
        case 2: a.setComHeight(q.ph.h); p.ph.h = q.ph.h; break;
        case 3: a.setGravity(q.ph.g); p.ph.g = q.ph.g; break;
        case 4: vcRequire(q.ph.m > 0. && q.ph.m <= p.ph.t); a.setMass(q.ph.m); p.ph.m = q.ph.m; break;
        case 5: vcRequire(q.ph.t >= p.ph.m); a.setTotalMass(q.ph.t); p.ph.t = q.ph.t; break;
        case 6: a.setStateX(q.x); p.x = q.x; break;
        case 7: a.setTiltContactPointX(q.cx); p.cx = q.cx; break;
        case 8: a.setTiltContactPointY(q.cy); p.cy = q.cy; break;
        case 9: a.setCopSupportConvexPolygon(q.cop); p.cop = q.cop; break;
        case 10: a.updateStateY(q.x(0), q.T); CJ::updateState(q.x(0), q.T, p.y); break;
        default: a.computeDynamics(); break;
      }
    }
    setBase(b, p);
    sameBase(a, b);
  }

  VC_REPLAY(nodyn_history)
  {
    NoDynP p = anyNoDyn();
    NoDyn a, b;
    setNoDyn(a, p);
    int steps = vcInt("steps", 1, 6);
    for (int i = 0; i < steps; ++i)
    {
      NoDynP q = anyNoDyn();
      switch (vcInt("mutator", 0, 4))
      {
        case 0: a.setNbSamples(q.n); p.n = q.n; break;
        case 1: a.setSamplingPeriod(q.T); p.T = q.T; break;
        case 2: a.setState(q.x); p.x = q.x; break;
        case 3: a.updateState(q.x(0), q.T); CJ::updateState(q.x(0), q.T, p.x); break;
        default: a.computeDynamics(); break;
      }
    }
    setNoDyn(b, p);
    sameNoDyn(a, b);
  }
}
