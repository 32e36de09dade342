// The wheeled-base generator: its configuration as plain data, and the generator in any state reachable with it.
#pragma once
#include <mpc-walkgen/zebulon_walkgen.h>
#include "models.h"

namespace MPCWalkgen
{
  typedef ZebulonWalkgen<double> Zeb;
  struct ZebP
  {
    int n; double T;
    V3 g;
    double hc, hb, mc, mb;              // heights and masses of the body (pendulum) and of the base
    VX cx, cy, bx, by, roll, pitch, yaw;  // states
    double vl, al, jl;                  // limits
    double tx, ty;                      // tilt contact point
    VX vel, pos, cop, com;              // references; com has the size of the horizon
    Poly copPoly, comPoly;
    double wVel, wPos, wCop, wCom, wJerk, wTilt, wTiltVel;
    bool fCop, fCom, fBase, fTilt;
  };
  // references of the given sizes (in samples)
  static ZebP anyZeb(int nv, int np, int nq, int n)
  {
    ZebP p;
    p.n = n; p.T = vcPos("T");
    p.g = vcVec3("gravity");
    p.hc = vcReal("body height"); p.hb = vcReal("base height");
    p.mc = vcNonNeg("body mass"); p.mb = vcNonNeg("base mass");
    vcRequire(p.T > Constant<double>::EPSILON);
    vcRequire(std::abs(p.g(2)) > Constant<double>::EPSILON);
    vcRequire(p.mc + p.mb > Constant<double>::EPSILON);
    p.cx = vcVec("body x", 3); p.cy = vcVec("body y", 3);
    p.bx = vcVec("base x", 3); p.by = vcVec("base y", 3);
    p.roll = vcVec("base roll", 3); p.pitch = vcVec("base pitch", 3); p.yaw = vcVec("base yaw", 3);
    p.vl = vcPos("velocity limit"); p.al = vcPos("acceleration limit"); p.jl = vcPos("jerk limit");
    p.tx = vcReal("tilt contact x"); p.ty = vcReal("tilt contact y");
    p.vel = vcVec("velocity reference", 2*nv); p.pos = vcVec("position reference", 2*np);
    p.cop = vcVec("CoP reference", 2*nq); p.com = vcVec("CoM reference", 2*n);
    p.copPoly = vcAny<Poly>("CoP polygon"); p.comPoly = vcAny<Poly>("CoM polygon");
    vcRequire(p.copPoly.getNbVertices() >= 3 && p.comPoly.getNbVertices() >= 3);
    p.wVel = vcNonNeg("velocity weight"); p.wPos = vcNonNeg("position weight"); p.wCop = vcNonNeg("CoP weight");
    p.wCom = vcNonNeg("CoM weight"); p.wJerk = vcNonNeg("jerk weight"); p.wTilt = vcNonNeg("tilt weight");
    p.wTiltVel = vcNonNeg("tilt velocity weight");
    p.fCop = vcBool("with CoP constraints"); p.fCom = vcBool("with CoM constraints");
    p.fBase = vcBool("with base constraints"); p.fTilt = vcBool("with tilt constraints");
    return p;
  }
  static ZebulonWalkgenWeighting<double> weighting(const ZebP& p)
  {
    ZebulonWalkgenWeighting<double> w;
    w.velocityTracking = p.wVel; w.positionTracking = p.wPos; w.copCentering = p.wCop; w.comCentering = p.wCom;
    w.jerkMinimization = p.wJerk; w.tiltMinimization = p.wTilt; w.tiltVelMinimization = p.wTiltVel;
    return w;
  }
  static ZebulonWalkgenConfig<double> configuration(const ZebP& p)
  {
    ZebulonWalkgenConfig<double> c;
    c.withCopConstraints = p.fCop; c.withComConstraints = p.fCom;
    c.withBaseMotionConstraints = p.fBase; c.withTiltMotionConstraints = p.fTilt;
    return c;
  }
  // the two models of this configuration, in the states of the generator
  static void setModels(Lip& c, Base& b, const ZebP& p)
  {
    c.autoCompute_ = false; b.autoCompute_ = false;   // the matrices are computed at the end
    c.setNbSamples(p.n); c.setSamplingPeriod(p.T);
    c.setComHeight(p.hc); c.setGravity(p.g);
    c.setTotalMass(p.mc + p.mb + 1.); c.setMass(p.mc); c.setTotalMass(p.mc + p.mb);
    c.setStateX(p.cx); c.setStateY(p.cy);
    b.setNbSamples(p.n); b.setSamplingPeriod(p.T);
    b.setComHeight(p.hb); b.setGravity(p.g);
    b.setTotalMass(p.mc + p.mb + 1.); if (p.mb > 0.) b.setMass(p.mb); b.setTotalMass(p.mc + p.mb);
    b.setStateX(p.bx); b.setStateY(p.by);
    b.setStateRoll(p.roll); b.setStatePitch(p.pitch); b.setStateYaw(p.yaw);
    b.setVelocityLimit(p.vl); b.setAccelerationLimit(p.al); b.setJerkLimit(p.jl);
    b.setTiltContactPointX(p.tx); b.setTiltContactPointY(p.ty);
    if (p.copPoly.getNbVertices() >= 3) b.setCopSupportConvexPolygon(p.copPoly);
    if (p.comPoly.getNbVertices() >= 3) b.setComSupportConvexPolygon(p.comPoly);
    c.autoCompute_ = true; b.autoCompute_ = true;
    c.computeDynamics(); b.computeDynamics();
  }
  // a fresh generator given this configuration, through its public interface
  static void configure(Zeb& w, const ZebP& p)
  {
    w.setGravity(p.g);
    w.setComBodyHeight(p.hc); w.setComBaseHeight(p.hb);
    if (p.mb > 0.) w.setBaseMass(p.mb);
    w.setBodyMass(p.mc);
    w.setNbSamples(p.vel.rows()/2);
    w.setVelRefInWorldFrame(p.vel);
    w.setNbSamples(p.pos.rows()/2);
    w.setPosRefInWorldFrame(p.pos);
    w.setNbSamples(p.cop.rows()/2);
    w.setCopRefInLocalFrame(p.cop);
    w.setNbSamples(p.n);
    w.setComRefInLocalFrame(p.com);
    w.setComStateX(p.cx); w.setComStateY(p.cy);
    w.setBaseStateX(p.bx); w.setBaseStateY(p.by);
    w.setBaseStateRoll(p.roll); w.setBaseStatePitch(p.pitch); w.setBaseStateYaw(p.yaw);
    w.setBaseVelLimit(p.vl); w.setBaseAccLimit(p.al); w.setBaseJerkLimit(p.jl);
    if (p.copPoly.getNbVertices() >= 3) w.setBaseCopConvexPolygon(p.copPoly);
    if (p.comPoly.getNbVertices() >= 3) w.setBaseComConvexPolygon(p.comPoly);
    w.setTiltContactPointOnTheGroundInLocalFrameX(p.tx);
    w.setTiltContactPointOnTheGroundInLocalFrameY(p.ty);
    w.setSamplingPeriod(p.T);
    w.setWeightings(weighting(p));
    w.setConfig(configuration(p));
  }
  // the generator whose models have the parameters of this configuration and whose cached parts are all computed from
  // them.  Its obligations are discharged in the harness `builds' only
  static void build(Zeb& w, const ZebP& p)
  {
    int nv = p.vel.rows()/2, np = p.pos.rows()/2, nq = p.cop.rows()/2;
    w.lipModel_.autoCompute_ = false; w.baseModel_.autoCompute_ = false;   // the matrices are computed in setModels
    w.lipModel_.setNbSamples(nv); w.baseModel_.setNbSamples(nv);
    w.velTrackingObj_.setVelRefInWorldFrame(p.vel);
    w.lipModel_.setNbSamples(np); w.baseModel_.setNbSamples(np);
    w.posTrackingObj_.setPosRefInWorldFrame(p.pos);
    w.lipModel_.setNbSamples(nq); w.baseModel_.setNbSamples(nq);
    w.copCenteringObj_.setCopRefInLocalFrame(p.cop);
    setModels(w.lipModel_, w.baseModel_, p);
    w.comCenteringObj_.setNbSamples(p.n);
    w.comCenteringObj_.setComRefInLocalFrame(p.com);
    w.comCenteringObj_.updateGravityShift();
    w.velTrackingObj_.computeConstantPart();
    w.posTrackingObj_.computeConstantPart();
    w.jerkMinObj_.computeConstantPart();
    w.tiltMinObj_.computeConstantPart();
    w.tiltVelMinObj_.computeConstantPart();
    w.copCenteringObj_.computeConstantPart();
    w.comCenteringObj_.computeConstantPart();
    w.copConstraint_.computeConstantPart();
    w.comConstraint_.computeConstantPart();
    w.baseMotionConstraint_.computeConstantPart();
    w.tiltMotionConstraint_.computeConstantPart();
    w.X_.setZero(4*p.n);
    w.dX_.setZero(4*p.n);
    w.weighting_ = weighting(p);
    w.config_ = configuration(p);
    w.computeConstantPart();
  }
  // a configuration with everything switched on, to tell what a solve changes
  static ZebP everything()
  {
    ZebP p = anyZeb(2, 2, 2, 2);
    p.wVel = p.wPos = p.wCop = p.wCom = p.wJerk = p.wTilt = p.wTiltVel = 1.;
    p.fCop = p.fCom = p.fBase = p.fTilt = true;
    return p;
  }
  // the generator of this configuration after any number of solves.  Which parts a solve changes is read off one
  // solve; that no solve changes any other part is what keeps_solve shows
#define VC_ZEB_SOLVED(w, p) \
    Zeb w; \
    vcQuietly(true); \
    build(w, p); \
    { \
      ZebP ps = everything(); \
      double fbs = vcPos("earlier feedback period"); \
      Zeb before, after; \
      build(before, ps); \
      build(after, ps); \
      after.solve(fbs); \
      after.copCenteringObj_.constantGravity_ = vcVec("scratch", 4); \
      vcForgetLike(w, after, before, w.qpMatrix_); \
      VC_NATIVELY(if ((p).vel.rows() == 2*(p).n && (p).pos.rows() == 2*(p).n && (p).cop.rows() == 2*(p).n) w.solve(fbs);) \
    } \
    vcQuietly(false)
  // another one, in the same harness
#define VC_ZEB_SOLVED_TOO(w, p) \
    Zeb w; \
    vcQuietly(true); \
    build(w, p); \
    vcForgetAgain(w, w.qpMatrix_); \
    VC_NATIVELY(if ((p).vel.rows() == 2*(p).n && (p).pos.rows() == 2*(p).n && (p).cop.rows() == 2*(p).n) w.solve(1.);) \
    vcQuietly(false)
}
