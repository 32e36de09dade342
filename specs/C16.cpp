// C16  The trajectory generator solves the program its configuration defines
//
// The state of a generator is: what a fresh generator holds after being given the current configuration, except for
// the parts a solve changes, which are arbitrary (vcForgetLike).  The constructor establishes this, every mutator and
// solve keep it (vcSameState), and from any such state solve passes the program of the configuration.
#include "traj.h"
#include "vc.h"

namespace MPCWalkgen
{
  VC_HARNESS(program)
  {
    int N = vcInt("samples", 1, 4);
    TrajP p = anyTraj("configuration", N, N, N);
    VC_TRAJ_SOLVED(w, p);
    VX X(w.X_), x(w.getState());
    double fb = vcPos("feedback period");
    vcQPReset();
    bool r = w.solve(fb);

    NoDyn m;
    m.setNbSamples(N); m.setSamplingPeriod(p.T); m.setState(x);
    m.setVelocityLimit(p.vl); m.setAccelerationLimit(p.al); m.setJerkLimit(p.jl);
    VelocityTrackingObjective<double> vel(m);
    PositionTrackingObjective<double> pos(m);
    TrajectoryJerkMinimizationObjective<double> jerk(m);
    MotionConstraint<double> motion(m);
    vel.setVelRefInWorldFrame(p.vel);
    pos.setPosRefInWorldFrame(p.pos);

    vcEnsureEqI("one solve", vcQP().solves, 1);
    vcEnsureEqI("variables of the solver", vcQP().nv, N);
    vcEnsureEqI("constraints of the solver", vcQP().nc, p.mc ? 2*N : 0);
    vcSameM("Q", vcQP().m.Q, p.wv*vel.getHessian() + p.wp*pos.getHessian() + p.wj*jerk.getHessian());
    vcSameM("p", vcQP().m.p, p.wv*vel.getGradient(X) + p.wp*pos.getGradient(X) + p.wj*jerk.getGradient(X));
    if (p.mc)
    {
      vcSameM("A", vcQP().m.A, motion.getGradient());
      vcSameV("bl", vcQP().m.bl, motion.getFunctionInf(X));
      vcSameV("bu", vcQP().m.bu, motion.getFunctionSup(X));
      vcSameV("xl", vcQP().m.xl, VX::Constant(N, -p.jl) - X);
      vcSameV("xu", vcQP().m.xu, VX::Constant(N, p.jl) - X);
    }
    else
    {
      vcEnsureEqI("no constraint", vcQP().m.A.rows(), 0);
      int i = vcIndex("variable", N);
      vcEnsure("no limit below", vcQP().m.xl(i) <= -Constant<double>::MAXIMUM_BOUND_VALUE);
      vcEnsure("no limit above", vcQP().m.xu(i) >= Constant<double>::MAXIMUM_BOUND_VALUE);
    }
    vcEnsure("result", r == vcQP().ok);
  }

  VC_HARNESS(advance)
  {
    int N = vcInt("samples", 1, 4);
    TrajP p = anyTraj("configuration", N, N, N);
    VC_TRAJ_SOLVED(w, p);
    VX X(w.X_), x(w.getState());
    double fb = vcPos("feedback period");
    vcQPReset();
    bool r = w.solve(fb);
    vcRequire(r);
    double j = X(0) + vcQP().sol(0);
    vcEnsureEq("jerk is the first entry of the accumulated solution", w.getJerk(), j);
    vcSameV("accumulated solution", w.X_, X + vcQP().sol);
    vcEnsureEqI("size of the state", w.getState().rows(), 3);
    vcEnsureEq("position", w.getState()(0), x(0) + fb*x(1) + fb*fb/2.*x(2) + fb*fb*fb/6.*j);
    vcEnsureEq("velocity", w.getState()(1), x(1) + fb*x(2) + fb*fb/2.*j);
    vcEnsureEq("acceleration", w.getState()(2), x(2) + fb*j);
  }

  // ---------------------------------------------------------------- the invariant
  VC_HARNESS(initial)
  {
    Traj a;
    TrajP p;
    p.n = 1; p.T = 1.; p.x = VX::Zero(3);
    p.vl = p.al = p.jl = 1.;
    p.vel = VX::Zero(1); p.pos = VX::Zero(1);
    p.wv = p.wp = p.wj = 0.; p.mc = false;
    VC_TRAJ_SOLVED(b, p);
    vcSameState("state", a, b);
  }

#define VC_MUTATOR(name, call, change, pre) \
  VC_HARNESS(keeps_##name) \
  { \
    int N = vcInt("samples", 1, 4), NV = vcInt("size of velocity reference", 1, 3), \
        NP = vcInt("size of position reference", 1, 3), n = vcInt("new samples", 1, 4); \
    TrajP p = anyTraj("configuration", NV, NP, N), q = p, o = anyTraj("new values", N, N, n); \
    (void)o; \
    vcRequire(pre); \
    VC_TRAJ_SOLVED(a, p); \
    a.call; \
    change; \
    VC_TRAJ_SOLVED(b, q); \
    vcSameState("state", a, b); \
  }
  VC_MUTATOR(setNbSamples, setNbSamples(n), q.n = n, true)
  VC_MUTATOR(setSamplingPeriod, setSamplingPeriod(o.T), q.T = o.T, true)
  VC_MUTATOR(setVelRefInWorldFrame, setVelRefInWorldFrame(o.vel), q.vel = o.vel, true)
  VC_MUTATOR(setPosRefInWorldFrame, setPosRefInWorldFrame(o.pos), q.pos = o.pos, true)
  VC_MUTATOR(setVelLimit, setVelLimit(o.vl), q.vl = o.vl, true)
  VC_MUTATOR(setAccLimit, setAccLimit(o.al), q.al = o.al, true)
  VC_MUTATOR(setJerkLimit, setJerkLimit(o.jl), q.jl = o.jl, true)
  VC_MUTATOR(setState, setState(o.x), q.x = o.x, true)
  VC_MUTATOR(setWeightings, setWeightings(weighting(o)), (q.wv = o.wv, q.wp = o.wp, q.wj = o.wj), true)
  VC_MUTATOR(setConfig, setConfig(configuration(o)), q.mc = o.mc, true)
  VC_MUTATOR(solve, solve(o.T), , NV == N && NP == N)

  VC_HARNESS(setState_is_the_state)
  {
    int N = vcInt("samples", 1, 4);
    TrajP p = anyTraj("configuration", N, N, N);
    VC_TRAJ_SOLVED(w, p);
    VX x(vcVec("new state", 3)), X(w.X_);
    w.setState(x);
    vcSameV("state", w.getState(), x);
    vcSameV("solution", w.X_, X);
  }

  // random histories through the public interface, against a generator configured afresh
  VC_REPLAY(history)
  {
    int N = vcInt("samples", 1, 4), steps = vcInt("steps", 1, 8);
    TrajP p = anyTraj("configuration", N, N, N);
    Traj a, b;
    setTraj(a, p);
    for (int i = 0; i < steps; ++i)
    {
      int k = vcInt("mutator", 0, 10), n = k == 0 ? vcInt("new samples", 1, 4) : N;
      TrajP q = anyTraj("new values", n, n, n);
      switch (k)
      {
        case 0:
          a.setNbSamples(n); p.n = N = n; p.vel = q.vel; p.pos = q.pos;
          a.setVelRefInWorldFrame(p.vel); a.setPosRefInWorldFrame(p.pos);
          break;
        case 1: a.setSamplingPeriod(q.T); p.T = q.T; break;
        case 2: a.setVelRefInWorldFrame(q.vel); p.vel = q.vel; break;
        case 3: a.setPosRefInWorldFrame(q.pos); p.pos = q.pos; break;
        case 4: a.setVelLimit(q.vl); p.vl = q.vl; break;
        case 5: a.setAccLimit(q.al); p.al = q.al; break;
        case 6: a.setJerkLimit(q.jl); p.jl = q.jl; break;
        case 7: a.setState(q.x); break;
        case 8: a.setWeightings(weighting(q)); p.wv = q.wv; p.wp = q.wp; p.wj = q.wj; break;
        case 9: a.setConfig(configuration(q)); p.mc = q.mc; break;
        default: a.solve(q.T); break;
      }
    }
    p.x = a.getState();
    setTraj(b, p);
    b.X_ = a.X_;
    double fb = vcPos("feedback period");
    vcQPReset(); a.solve(fb);
    QPMatrices<double> m = vcQP().m;
    vcQPReset(); b.solve(fb);
    const QPMatrices<double>& f = vcQP().m;
    vcSameMrm("Q", m.Q, f.Q); vcSameM("p", m.p, f.p); vcSameMrm("A", m.A, f.A);
    vcSameV("bl", m.bl, f.bl); vcSameV("bu", m.bu, f.bu); vcSameV("xl", m.xl, f.xl); vcSameV("xu", m.xu, f.xu);
    vcSameV("state", a.getState(), b.getState());
  }
}
