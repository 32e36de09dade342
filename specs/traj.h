// The trajectory generator: its configuration as plain data, and the generator in any state reachable with it.
#pragma once
#include <mpc-walkgen/trajectory_walkgen.h>
#include "models.h"

namespace MPCWalkgen
{
  typedef TrajectoryWalkgen<double> Traj;
  struct TrajP
  {
    int n; double T;
    VX x;                       // state
    double vl, al, jl;          // limits
    VX vel, pos;                // references
    double wv, wp, wj;          // weightings
    bool mc;                    // motion constraints
  };
  // references of the given sizes
  static TrajP anyTraj(const char* what, int nv, int np, int n)
  {
    (void)what;
    TrajP p;
    p.n = n; p.T = vcPos("T");
    p.x = vcVec("state", 3);
    p.vl = vcNonNeg("velocity limit"); p.al = vcNonNeg("acceleration limit"); p.jl = vcNonNeg("jerk limit");
    p.vel = vcVec("velocity reference", nv); p.pos = vcVec("position reference", np);
    p.wv = vcNonNeg("velocity weight"); p.wp = vcNonNeg("position weight"); p.wj = vcNonNeg("jerk weight");
    p.mc = vcBool("with motion constraints");
    return p;
  }
  static TrajectoryWalkgenWeighting<double> weighting(const TrajP& p)
  {
    TrajectoryWalkgenWeighting<double> w;
    w.velocityTracking = p.wv; w.positionTracking = p.wp; w.jerkMinimization = p.wj;
    return w;
  }
  static TrajectoryWalkgenConfig<double> configuration(const TrajP& p)
  {
    TrajectoryWalkgenConfig<double> c;
    c.withMotionConstraints = p.mc;
    return c;
  }
  // a fresh generator given this configuration
  static void setTraj(Traj& w, const TrajP& p)
  {
    w.setNbSamples(p.vel.rows());
    w.setVelRefInWorldFrame(p.vel);
    w.setNbSamples(p.pos.rows());
    w.setPosRefInWorldFrame(p.pos);
    w.setNbSamples(p.n);
    w.setSamplingPeriod(p.T);
    w.setVelLimit(p.vl); w.setAccLimit(p.al); w.setJerkLimit(p.jl);
    w.setState(p.x);
    w.setWeightings(weighting(p));
    w.setConfig(configuration(p));
  }
  // ... after any number of solves
#define VC_TRAJ_SOLVED(w, p) \
    Traj w; \
    setTraj(w, p); \
    { \
      TrajP ps = anyTraj("earlier solves", (p).n, (p).n, (p).n); \
      ps.T = (p).T; \
      double fbs = vcPos("earlier feedback period"); \
      Traj before, after; \
      setTraj(before, ps); \
      setTraj(after, ps); \
      after.solve(fbs); \
      vcForgetLike(w, after, before, w.qpMatrix_); \
      VC_NATIVELY(if ((p).vel.rows() == (p).n && (p).pos.rows() == (p).n) w.solve(fbs);) \
    }
}
