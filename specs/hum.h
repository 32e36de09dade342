// The humanoid generator.  Its feet supervisor is an abstract value behind its contract (vc/feet.py); natively it is a
// real generator after a random history of public calls.
//
// Invariant of the table of solvers (contract of computeConstantPart in vc/contracts.py; harness `tables'): for every
// number of previewed steps up to the number of samples and every number of constraints up to the maximum of the
// polygons there is a program and a solver of that size.
#pragma once
#include <mpc-walkgen/humanoid_walkgen.h>
#include "feet.h"

namespace MPCWalkgen
{
  typedef HumanoidWalkgen<double> Hum;

#ifndef VC_NATIVE
  // the invariant of the tables at one index
  void vcTable(const std::vector<QPMatrices<double> >& programs, const boost::ptr_vector<QPSolver<double> >& solvers, int i,
               int nv, int nc);
#endif

  struct HumP { LipP lip; VX vel; double wv, wc, wj; bool cop, foot; };

  static HumanoidWalkgenWeighting<double> weighting(const HumP& p)
  {
    HumanoidWalkgenWeighting<double> w;
    w.velocityTracking = p.wv; w.copCentering = p.wc; w.jerkMinimization = p.wj;
    return w;
  }
  static HumanoidWalkgenConfig<double> configuration(const HumP& p)
  {
    HumanoidWalkgenConfig<double> c;
    c.withCopConstraints = p.cop; c.withFeetConstraints = p.foot;
    return c;
  }

  static HumP anyProgramOf(int N, bool cop, bool foot)
  {
    HumP p;
    p.vel = vcVec("velocity reference", 2*N);
    p.wv = vcNonNeg("velocity weight"); p.wc = vcNonNeg("centring weight"); p.wj = vcNonNeg("jerk weight");
    p.cop = cop; p.foot = foot;
    return p;
  }

  // any state of a generator; fb is the period of the next solve, the same as that of the last one or a new one
  static HumP anyHumanoid(Hum& w, double& fb, bool cop, bool foot, bool newPeriod)
  {
#ifdef VC_NATIVE
    int N = vcInt("samples", 2, 4), q = vcInt("feedback periods per sample", 1, 4);
    double T = 0.05*vcInt("period in 50 ms", 1, 8);
    fb = T/q;
    HumP p(anyProgramOf(N, cop, foot));
    p.lip = anyLip(); p.lip.n = N; p.lip.T = T; p.lip.fb = fb;
    p.lip.ph.m = p.lip.ph.t = 1.; p.lip.ph.g = Lip().getGravity();
    w.setWeightings(weighting(p));
    if (vcBool("configured first")) w.setConfig(configuration(p));
    w.setNbSamples(N); w.setSamplingPeriod(T);
    vcConfigure(w, N, T);
    w.setConfig(configuration(p));
    w.setVelRefInWorldFrame(p.vel);
    w.setComStateX(p.lip.x); w.setComStateY(p.lip.y);
    V3 z(p.lip.ph.h, 0., 0.);
    w.setComStateZ(z);
    int n = vcInt("earlier solves", 0, 15);
    bool move = false;
    for (int i = 0; i < n; ++i)
    {
      if (vcu() < 0.25) { move = !move; w.setMove(move); vclog("move command", move); }
      w.solve(fb);
    }
    p.lip.x = w.getComStateX(); p.lip.y = w.getComStateY();
    return p;
#else
    fb = vcPos("feedback period");
    double fs;
    Feet f(vcFeet("supervisor", fs));
    HumP p(anyProgramOf(f.getNbSamples(), cop, foot));
    p.lip = anyLip(); p.lip.n = f.getNbSamples(); p.lip.T = f.getSamplingPeriod();
    vcRequire(periodsOk(p.lip.T, p.lip.fb)); vcRequire(periodsOk(p.lip.T, fb));
    if (newPeriod) vcRequire(std::abs(fb - p.lip.fb) > Constant<double>::EPSILON);
    else p.lip.fb = fb;
    w.feetSupervisor_ = f;
    setLip(w.lipModel_, p.lip);
    w.copConstraint_.computeConstantPart();
    w.velTrackingObj_.setVelRefInWorldFrame(p.vel);
    w.weighting_ = weighting(p); w.config_ = configuration(p);
    w.move_ = vcBool("moving"); w.firstCallSinceLastDS_ = vcBool("first call");
    w.X_ = vcVec("solution so far", 2*f.getNbSamples() + 2*f.getNbPreviewedSteps());
    w.maximumNbOfConstraints_ = vcInt("maximum number of constraints", 0, 1);
    w.maximumNbOfSteps_ = f.getNbSamples();
    return p;
#endif
  }

  // the program at X of a pendulum and a supervisor
  static QPMatrices<double> programOf(const HumP& p, const Lip& m, const Feet& f, const VX& X)
  {
    int N = m.getNbSamples(), M = f.getNbPreviewedSteps(), n = 2*N + 2*M;
    double big = Constant<double>::MAXIMUM_BOUND_VALUE;
    HumanoidLipComVelocityTrackingObjective<double> vel(m, f);
    vel.setVelRefInWorldFrame(p.vel);
    HumanoidLipComJerkMinimizationObjective<double> jerk(m, f);
    HumanoidCopCenteringObjective<double> centring(m, f);
    HumanoidCopConstraint<double> cop(m, f);
    HumanoidFootConstraint<double> foot(m, f);
    int nc = p.cop ? cop.getNbConstraints() : 0, nf = p.foot ? foot.getNbConstraints() : 0;
    QPMatrices<double> e;
    e.Q = p.wv*vel.getHessian() + p.wj*jerk.getHessian() + p.wc*centring.getHessian();
    e.p = p.wv*vel.getGradient(X) + p.wj*jerk.getGradient(X) + p.wc*centring.getGradient(X);
    e.A = MX::Zero(nc + nf, n);
    e.bl = VX::Constant(nc + nf, -big);
    e.bu = VX::Constant(nc + nf, big);
    e.xl = VX::Constant(n, -big);
    e.xu = VX::Constant(n, big);
    if (p.cop)
    {
      e.A.block(0, 0, nc, n) = cop.getGradient(n);
      e.bu.segment(0, nc) = e.bu.segment(0, nc).cwiseMin(-cop.getFunction(X));
      e.xl.segment(0, 2*N) = e.xl.segment(0, 2*N).cwiseMax(cop.getInfBounds(X));
      e.xu.segment(0, 2*N) = e.xu.segment(0, 2*N).cwiseMin(cop.getSupBounds(X));
    }
    if (p.foot)
    {
      e.A.block(nc, 0, nf, n) = foot.getGradient(n);
      e.bu.segment(nc, nf) = e.bu.segment(nc, nf).cwiseMin(-foot.getFunction(X));
      e.xl.segment(2*N, 2*M) = e.xl.segment(2*N, 2*M).cwiseMax(foot.getInfBounds(X));
      e.xu.segment(2*N, 2*M) = e.xu.segment(2*N, 2*M).cwiseMin(foot.getSupBounds(X));
    }
    e.normalizeMatrices(Constant<double>::EPSILON);
    return e;
  }
}
