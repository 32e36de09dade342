// Parameters of the three models, drawn arbitrarily, and the canonical way (default constructor, then one setter per
// parameter) of building a model with given parameters; observers compared one by one.
#pragma once
#include <mpc-walkgen/model/lip_model.h>
#include <mpc-walkgen/model/zebulon_base_model.h>
#include <mpc-walkgen/model/no_dynamic_model.h>
#include <mpc-walkgen/constant.h>
#include "vc.h"

namespace MPCWalkgen
{
  typedef LIPModel<double> Lip;
  typedef BaseModel<double> Base;
  typedef NoDynamicModel<double> NoDyn;
  typedef LinearDynamic<double> LD;
  typedef ConvexPolygon<double> Poly;

  static void sameDyn(const char* what, const LD& a, const LD& b) { vcSame(what, a, b); }

  struct Phys { double h, m, t; V3 g; };       // height, mass, total mass, gravity
  static Phys anyPhys(const char* h, const char* m, const char* t, const char* g)
  {
    Phys p;
    p.h = vcReal(h); p.m = vcNonNeg(m); p.t = p.m + vcNonNeg(t); p.g = vcVec3(g);
    vcRequire(p.t > Constant<double>::EPSILON && std::abs(p.g(2)) > Constant<double>::EPSILON);
    return p;
  }

  // ---------------------------------------------------------------- pendulum
  struct LipP { int n; double T, fb; Phys ph; VX x, y, yaw; };

  static bool periodsOk(double T, double fb) { return fb > 0. && fb <= T; }

  static LipP anyLip()
  {
    LipP p;
    p.n = vcInt("lip samples", 1, 4);
    p.T = vcPos("lip period"); p.fb = vcPos("lip feedback period");
    vcRequire(periodsOk(p.T, p.fb));
    p.ph = anyPhys("lip height", "lip mass", "lip total mass", "lip gravity");
    p.x = vcVec("lip x", 3); p.y = vcVec("lip y", 3); p.yaw = vcVec("lip yaw", 3);
    return p;
  }

  static void setLip(Lip& m, const LipP& p)
  {
    m.setComHeight(p.ph.h);
    m.setGravity(p.ph.g);
    m.setTotalMass(p.ph.t + 1.);
    m.setMass(p.ph.m);
    m.setTotalMass(p.ph.t);
    m.setStateX(p.x);
    m.setStateY(p.y);
    m.setStateYaw(p.yaw);
    m.setNbSamples(p.n);
    m.setSamplingPeriod(p.T);
    m.setFeedbackPeriod(p.fb);
  }

  static Lip mkLip(const LipP& p) { Lip m; setLip(m, p); return m; }

  static int feedbacks(double T, double fb) { return int((T + Constant<double>::EPSILON)/fb); }

  static void sameLip(const Lip& a, const Lip& b)
  {
    vcEnsureEqI("number of samples", a.getNbSamples(), b.getNbSamples());
    vcEnsureEq("sampling period", a.getSamplingPeriod(), b.getSamplingPeriod());
    vcEnsureEq("feedback period", a.getFeedbackPeriod(), b.getFeedbackPeriod());
    vcEnsureEq("height", a.getComHeight(), b.getComHeight());
    vcEnsureEq("mass", a.getMass(), b.getMass());
    vcSameV("gravity", a.getGravity(), b.getGravity());
    vcSameV("state x", a.getStateX(), b.getStateX());
    vcSameV("state y", a.getStateY(), b.getStateY());
    vcSameV("state z", a.getStateZ(), b.getStateZ());
    vcSameV("state yaw", a.getStateYaw(), b.getStateYaw());
    sameDyn("CoM jerk dynamic", a.getComJerkLinearDynamic(), b.getComJerkLinearDynamic());
    sameDyn("CoM position dynamic", a.getComPosLinearDynamic(), b.getComPosLinearDynamic());
    sameDyn("CoM velocity dynamic", a.getComVelLinearDynamic(), b.getComVelLinearDynamic());
    sameDyn("CoM acceleration dynamic", a.getComAccLinearDynamic(), b.getComAccLinearDynamic());
    sameDyn("CoP X dynamic", a.getCopXLinearDynamic(), b.getCopXLinearDynamic());
    sameDyn("CoP Y dynamic", a.getCopYLinearDynamic(), b.getCopYLinearDynamic());
    int k = vcIndex("feedback index", feedbacks(b.getSamplingPeriod(), b.getFeedbackPeriod()));
    sameDyn("CoM jerk dynamic of an index", a.getComJerkLinearDynamic(k), b.getComJerkLinearDynamic(k));
    sameDyn("CoM position dynamic of an index", a.getComPosLinearDynamic(k), b.getComPosLinearDynamic(k));
    sameDyn("CoM velocity dynamic of an index", a.getComVelLinearDynamic(k), b.getComVelLinearDynamic(k));
    sameDyn("CoM acceleration dynamic of an index", a.getComAccLinearDynamic(k), b.getComAccLinearDynamic(k));
    sameDyn("CoP X dynamic of an index", a.getCopXLinearDynamic(k), b.getCopXLinearDynamic(k));
    sameDyn("CoP Y dynamic of an index", a.getCopYLinearDynamic(k), b.getCopYLinearDynamic(k));
    vcSameState("pendulum state", a, b);
  }

  // ---------------------------------------------------------------- base
  struct BaseP { int n; double T; Phys ph; VX x, y, roll, pitch, yaw; double vl, al, jl, cx, cy; Poly cop, com; };

  static BaseP anyBase()
  {
    BaseP p;
    p.n = vcInt("base samples", 1, 4);
    p.T = vcPos("base period");
    p.ph = anyPhys("base height", "base mass", "base total mass", "base gravity");
    p.x = vcVec("base x", 3); p.y = vcVec("base y", 3);
    p.roll = vcVec("base roll", 3); p.pitch = vcVec("base pitch", 3); p.yaw = vcVec("base yaw", 3);
    p.vl = vcPos("base velocity limit"); p.al = vcPos("base acceleration limit"); p.jl = vcPos("base jerk limit");
    p.cx = vcReal("tilt contact x"); p.cy = vcReal("tilt contact y");
    p.cop = vcAny<Poly>("CoP polygon"); p.com = vcAny<Poly>("CoM polygon");
    vcRequire(p.cop.getNbVertices() >= 3 && p.com.getNbVertices() >= 3);
    return p;
  }

  static void setBase(Base& m, const BaseP& p)
  {
    m.setNbSamples(p.n);
    m.setSamplingPeriod(p.T);
    m.setComHeight(p.ph.h);
    m.setGravity(p.ph.g);
    m.setTotalMass(p.ph.t + 1.);
    if (p.ph.m > 0.) m.setMass(p.ph.m);
    m.setTotalMass(p.ph.t);
    m.setStateX(p.x); m.setStateY(p.y);
    m.setStateRoll(p.roll); m.setStatePitch(p.pitch); m.setStateYaw(p.yaw);
    m.setVelocityLimit(p.vl); m.setAccelerationLimit(p.al); m.setJerkLimit(p.jl);
    m.setTiltContactPointX(p.cx); m.setTiltContactPointY(p.cy);
    m.setCopSupportConvexPolygon(p.cop); m.setComSupportConvexPolygon(p.com);
  }

  static Base mkBase(const BaseP& p) { Base m; setBase(m, p); return m; }

  static void samePoly(const char* what, const Poly& a, const Poly& b) { vcSame(what, a, b); }

  static void sameBase(const Base& a, const Base& b)
  {
    vcEnsureEqI("number of samples", a.getNbSamples(), b.getNbSamples());
    vcEnsureEq("sampling period", a.getSamplingPeriod(), b.getSamplingPeriod());
    vcEnsureEq("height", a.getComHeight(), b.getComHeight());
    vcEnsureEq("mass", a.getMass(), b.getMass());
    vcSameV("state x", a.getStateX(), b.getStateX());
    vcSameV("state y", a.getStateY(), b.getStateY());
    vcSameV("state roll", a.getStateRoll(), b.getStateRoll());
    vcSameV("state pitch", a.getStatePitch(), b.getStatePitch());
    vcSameV("state yaw", a.getStateYaw(), b.getStateYaw());
    vcEnsureEq("velocity limit", a.getVelocityLimit(), b.getVelocityLimit());
    vcEnsureEq("acceleration limit", a.getAccelerationLimit(), b.getAccelerationLimit());
    vcEnsureEq("jerk limit", a.getJerkLimit(), b.getJerkLimit());
    vcEnsureEq("tilt contact point x", a.getTiltContactPointX(), b.getTiltContactPointX());
    vcEnsureEq("tilt contact point y", a.getTiltContactPointY(), b.getTiltContactPointY());
    samePoly("CoP support polygon", a.getCopSupportConvexPolygon(), b.getCopSupportConvexPolygon());
    samePoly("CoM support polygon", a.getComSupportConvexPolygon(), b.getComSupportConvexPolygon());
    sameDyn("base position dynamic", a.getBasePosLinearDynamic(), b.getBasePosLinearDynamic());
    sameDyn("base velocity dynamic", a.getBaseVelLinearDynamic(), b.getBaseVelLinearDynamic());
    sameDyn("base acceleration dynamic", a.getBaseAccLinearDynamic(), b.getBaseAccLinearDynamic());
    sameDyn("base jerk dynamic", a.getBaseJerkLinearDynamic(), b.getBaseJerkLinearDynamic());
    sameDyn("base tilt angle dynamic", a.getBaseTiltAngleLinearDynamic(), b.getBaseTiltAngleLinearDynamic());
    sameDyn("base tilt velocity dynamic", a.getBaseTiltAngularVelLinearDynamic(), b.getBaseTiltAngularVelLinearDynamic());
    sameDyn("base CoP X dynamic", a.getCopXLinearDynamic(), b.getCopXLinearDynamic());
    sameDyn("base CoP Y dynamic", a.getCopYLinearDynamic(), b.getCopYLinearDynamic());
    vcSameState("base state", a, b);
  }

  // ---------------------------------------------------------------- no dynamic
  struct NoDynP { int n; double T; VX x; double vl, al, jl; };

  static NoDynP anyNoDyn()
  {
    NoDynP p;
    p.n = vcInt("samples", 1, 4);
    p.T = vcPos("period");
    p.x = vcVec("state", 3);
    p.vl = vcPos("velocity limit"); p.al = vcPos("acceleration limit"); p.jl = vcPos("jerk limit");
    return p;
  }

  static void setNoDyn(NoDyn& m, const NoDynP& p)
  {
    m.setNbSamples(p.n);
    m.setSamplingPeriod(p.T);
    m.setState(p.x);
    m.setVelocityLimit(p.vl); m.setAccelerationLimit(p.al); m.setJerkLimit(p.jl);
  }

  static void sameNoDyn(const NoDyn& a, const NoDyn& b)
  {
    vcEnsureEqI("number of samples", a.getNbSamples(), b.getNbSamples());
    vcEnsureEq("sampling period", a.getSamplingPeriod(), b.getSamplingPeriod());
    vcSameV("state", a.getState(), b.getState());
    vcEnsureEq("velocity limit", a.getVelocityLimit(), b.getVelocityLimit());
    vcEnsureEq("acceleration limit", a.getAccelerationLimit(), b.getAccelerationLimit());
    vcEnsureEq("jerk limit", a.getJerkLimit(), b.getJerkLimit());
    sameDyn("position dynamic", a.getPosLinearDynamic(), b.getPosLinearDynamic());
    sameDyn("velocity dynamic", a.getVelLinearDynamic(), b.getVelLinearDynamic());
    sameDyn("acceleration dynamic", a.getAccLinearDynamic(), b.getAccLinearDynamic());
    sameDyn("jerk dynamic", a.getJerkLinearDynamic(), b.getJerkLinearDynamic());
    vcSameState("model state", a, b);
  }
}
