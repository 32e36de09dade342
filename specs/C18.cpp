// C18  The humanoid generator solves the program its configuration defines
#include "hum.h"

namespace MPCWalkgen
{
  // a solve from any state: g and m are the supervisor and the pendulum the program is built on
#define VC_HUM_SOLVE(cop_, foot_, new_) \
    double fb; \
    Hum w; \
    HumP p(anyHumanoid(w, fb, cop_, foot_, new_)); \
    Feet g(w.feetSupervisor_); \
    VX x0(w.X_); \
    g.updateTimeline(x0, fb); \
    p.lip.fb = fb; \
    Lip m(mkLip(p.lip)); \
    int N = m.getNbSamples(), M = g.getNbPreviewedSteps(); \
    vcRequire(1 <= g.getNbOfCallsBeforeNextSample() && g.getNbOfCallsBeforeNextSample() <= feedbacks(p.lip.T, fb)); \
    int nc = (p.cop ? HumanoidCopConstraint<double>(m, g).getNbConstraints() : 0) \
             + (p.foot ? HumanoidFootConstraint<double>(m, g).getNbConstraints() : 0); \
    VC_TABLE(w, M, nc); \
    vcQPReset(); \
    bool r = w.solve(fb); \
    VX X(w.X_ - vcQP().sol)
#ifdef VC_NATIVE
#define VC_TABLE(w, M, nc)
#else
#define VC_TABLE(w, M, nc) \
    vcRequire(M <= w.maximumNbOfSteps_ && nc <= w.maximumNbOfConstraints_); \
    vcTable(w.qpMatrixVec_, w.qpoasesSolverVec_, M*(w.maximumNbOfConstraints_ + 1) + nc, 2*N + 2*M, nc)
#endif

#define VC_PROGRAM(name, cop_, foot_, new_) \
  VC_HARNESS(program_##name) \
  { \
    VC_HUM_SOLVE(cop_, foot_, new_); \
    vcQuietly(true); \
    QPMatrices<double> e(programOf(p, m, g, X)); \
    vcQuietly(false); \
    vcEnsureEqI("one solve", vcQP().solves, 1); \
    vcEnsureEqI("variables of the solver", vcQP().nv, 2*N + 2*M); \
    vcEnsureEqI("constraints of the solver", vcQP().nc, nc); \
    vcSameM("Q", vcQP().m.Q, e.Q); \
    vcSameV("p", vcQP().m.p, e.p); \
    vcSameM("A", vcQP().m.A, e.A); \
    vcSameV("bl", vcQP().m.bl, e.bl); \
    vcSameV("bu", vcQP().m.bu, e.bu); \
    vcSameV("xl", vcQP().m.xl, e.xl); \
    vcSameV("xu", vcQP().m.xu, e.xu); \
    vcEnsure("result", r == vcQP().ok); \
  }
  VC_PROGRAM(free, false, false, true)
  VC_PROGRAM(free_same_period, false, false, false)
  VC_PROGRAM(cop, true, false, true)
  VC_PROGRAM(steps, false, true, true)
  VC_PROGRAM(both, true, true, true)

  // the CoM jerk realises the first planned CoP; the pendulum and the feet go on by the given period
#define VC_ADVANCE(name, cop_, foot_, new_) \
  VC_HARNESS(advance_##name) \
  { \
    VC_HUM_SOLVE(cop_, foot_, new_); \
    (void)X; \
    vcRequire(r); \
    VX x(w.X_); \
    vcEnsureEqI("size of the solution", x.rows(), 2*N + 2*M); \
    vcQuietly(true); \
    int k = g.getNbOfCallsBeforeNextSample() - 1; \
    const MX& R = g.getRotationMatrixT(); \
    MX U(g.getFeetPosLinearDynamic().U), S(g.getFeetPosLinearDynamic().S); \
    double sx = g.getSupportFootStateX()(0), sy = g.getSupportFootStateY()(0); \
    VX zx(R.block(0, 0, N, N)*x.segment(0, N) + R.block(0, N, N, N)*x.segment(N, N) + U*x.segment(2*N, M) + S*sx); \
    VX zy(R.block(N, 0, N, N)*x.segment(0, N) + R.block(N, N, N, N)*x.segment(N, N) + U*x.segment(2*N + M, M) + S*sy); \
    LinearDynamic<double> dx(m.getCopXLinearDynamic(k)), dy(m.getCopYLinearDynamic(k)); \
    VX jx(dx.Uinv*(zx - dx.S*p.lip.x - dx.K)), jy(dy.Uinv*(zy - dy.S*p.lip.y - dy.K)); \
    vcQuietly(false); \
    VX a(w.getComStateX()), b(w.getComStateY()); \
    vcEnsureEqI("size of the state", a.rows(), 3); \
    vcEnsureEq("x", a(0), p.lip.x(0) + fb*p.lip.x(1) + fb*fb/2.*p.lip.x(2) + fb*fb*fb/6.*jx(0)); \
    vcEnsureEq("x velocity", a(1), p.lip.x(1) + fb*p.lip.x(2) + fb*fb/2.*jx(0)); \
    vcEnsureEq("x acceleration", a(2), p.lip.x(2) + fb*jx(0)); \
    vcEnsureEqI("size of the state along y", b.rows(), 3); \
    vcEnsureEq("y", b(0), p.lip.y(0) + fb*p.lip.y(1) + fb*fb/2.*p.lip.y(2) + fb*fb*fb/6.*jy(0)); \
    vcEnsureEq("y velocity", b(1), p.lip.y(1) + fb*p.lip.y(2) + fb*fb/2.*jy(0)); \
    vcEnsureEq("y acceleration", b(2), p.lip.y(2) + fb*jy(0)); \
    VX steps(x.segment(2*N, 2*M)); \
    g.updateFeetStates(steps, fb); \
    vcSame("feet", w.feetSupervisor_, g); \
  }
  VC_ADVANCE(free, false, false, true)
  VC_ADVANCE(free_same_period, false, false, false)
  VC_ADVANCE(both, true, true, true)

  // ---------------------------------------------------------------- commands reach the part they are about
#define VC_COMMAND(name, arguments, call, change) \
  VC_HARNESS(command_##name) \
  { \
    double fb; \
    Hum w; \
    HumP p(anyHumanoid(w, fb, vcBool("CoP constraints"), vcBool("step constraints"), true)); \
    Feet g(w.feetSupervisor_); \
    Lip m(w.lipModel_); \
    VX X(w.X_), vel(w.velTrackingObj_.velRefInWorldFrame_); \
    HumanoidWalkgenWeighting<double> we(w.weighting_); \
    HumanoidWalkgenConfig<double> co(w.config_); \
    arguments; \
    w.call; \
    change; \
    vcSame("feet", w.feetSupervisor_, g); \
    vcSame("pendulum", w.lipModel_, m); \
    vcSameV("solution so far", w.X_, X); \
    vcSameV("velocity reference", w.velTrackingObj_.velRefInWorldFrame_, vel); \
    vcSame("weights", w.weighting_, we); \
    vcSame("configuration", w.config_, co); \
  }
#define VC_FEET_SCALAR(name) VC_COMMAND(name, double v = vcPos("value"), name(v), g.name(v))
#define VC_FEET_STATE(name) VC_COMMAND(name, VX v(vcVec("state", 3)), name(v), g.name(v))
#ifdef VC_NATIVE
#define VC_A_POLYGON Poly v(vcBox("polygon", vcBool("box")))
#else
#define VC_A_POLYGON Poly v(vcAny<Poly>("polygon"))
#endif
#define VC_FEET_POLYGON(name) VC_COMMAND(name, VC_A_POLYGON, name(v), g.name(v))
  VC_FEET_POLYGON(setLeftFootKinematicConvexPolygon)
  VC_FEET_POLYGON(setRightFootKinematicConvexPolygon)
  VC_FEET_POLYGON(setLeftFootCopConvexPolygon)
  VC_FEET_POLYGON(setRightFootCopConvexPolygon)
  VC_FEET_STATE(setLeftFootStateX)
  VC_FEET_STATE(setLeftFootStateY)
  VC_FEET_STATE(setLeftFootStateZ)
  VC_FEET_STATE(setRightFootStateX)
  VC_FEET_STATE(setRightFootStateY)
  VC_FEET_STATE(setRightFootStateZ)
  VC_FEET_SCALAR(setLeftFootMaxHeight)
  VC_FEET_SCALAR(setRightFootMaxHeight)
  VC_FEET_SCALAR(setLeftFootYawUpperBound)
  VC_FEET_SCALAR(setLeftFootYawLowerBound)
  VC_FEET_SCALAR(setRightFootYawUpperBound)
  VC_FEET_SCALAR(setRightFootYawLowerBound)
  VC_FEET_SCALAR(setLeftFootYawSpeedUpperBound)
  VC_FEET_SCALAR(setRightFootYawSpeedUpperBound)
  VC_FEET_SCALAR(setLeftFootYawAccelerationUpperBound)
  VC_FEET_SCALAR(setRightFootYawAccelerationUpperBound)
#ifdef VC_NATIVE
  // (a shorter one is only accepted while enough of the double support is left)
#define VC_A_DURATION double v = g.DSPeriod_ + vcNonNeg("excess")
#else
#define VC_A_DURATION double v = vcPos("value")
#endif
  VC_COMMAND(setInitialDoubleSupportLength, VC_A_DURATION, setInitialDoubleSupportLength(v), g.setInitialDoubleSupportLength(v))
  VC_COMMAND(setStepPeriod, double v = g.getSamplingPeriod() + vcNonNeg("excess"), setStepPeriod(v), g.setStepPeriod(v))
  VC_COMMAND(setMove, bool v = vcBool("move"), setMove(v), g.setMove(v))
  VC_COMMAND(setComStateX, VX v(vcVec("state", 3)), setComStateX(v), m.setStateX(v))
  VC_COMMAND(setComStateY, VX v(vcVec("state", 3)), setComStateY(v), m.setStateY(v))
  VC_COMMAND(setComStateZ, VX v(VX::Zero(3)); v(0) = vcPos("height"), setComStateZ(v), m.setComHeight(v(0)))
  VC_COMMAND(setVelRefInWorldFrame, VX v(vcVec("reference", 2*m.getNbSamples())), setVelRefInWorldFrame(v), vel = v)
  VC_COMMAND(setWeightings, HumP q(anyProgramOf(m.getNbSamples(), false, false)), setWeightings(weighting(q)), we = weighting(q))
  VC_COMMAND(setConfig, HumP q(anyProgramOf(m.getNbSamples(), vcBool("new CoP constraints"), vcBool("new step constraints"))),
             setConfig(configuration(q)), co = configuration(q))
  VC_COMMAND(setSamplingPeriod, double v = vcPos("period"), setSamplingPeriod(v), g.setSamplingPeriod(v); m.setSamplingPeriod(v))

  VC_HARNESS(command_setNbSamples)
  {
    double fb;
    Hum w;
    HumP p(anyHumanoid(w, fb, vcBool("CoP constraints"), vcBool("step constraints"), true));
    Feet g(w.feetSupervisor_);
    Lip m(w.lipModel_);
    int n = vcInt("new samples", 1, 5);
    w.setNbSamples(n);
    g.setNbSamples(n); m.setNbSamples(n);
    vcSame("feet", w.feetSupervisor_, g);
    vcSame("pendulum", w.lipModel_, m);
    vcEnsureEqI("size of the solution", w.X_.rows(), 2*n + 2*g.getNbPreviewedSteps());
  }

  // contract of computeConstantPart: a program and a solver of every size the supervisor can ask for
  VC_BOUNDED(tables)
  {
    double fb;
    Hum w;
    HumP p(anyHumanoid(w, fb, vcBool("CoP constraints"), vcBool("step constraints"), true));
    w.solve(fb);
    int N = w.lipModel_.getNbSamples();
    int K = (p.cop ? N*w.feetSupervisor_.getMaximumNbOfCopConstraints() : 0)
            + (p.foot ? N*w.feetSupervisor_.getMaximumNbOfKinematicConstraints() : 0);
    vcEnsureEqI("steps", w.maximumNbOfSteps_, N);
    vcEnsureEqI("constraints", w.maximumNbOfConstraints_, K);
    vcEnsureEqI("programs", w.qpMatrixVec_.size(), (N + 1)*(K + 1));
    vcEnsureEqI("solvers", w.qpoasesSolverVec_.size(), (N + 1)*(K + 1));
    int i = vcIndex("steps", N + 1), j = vcIndex("constraints", K + 1), e = i*(K + 1) + j;
    vcEnsure("program", w.qpMatrixVec_[e].dimensionsAreConsistent(2*N + 2*i, j));
    vcEnsureEqI("variables of the solver", w.qpoasesSolverVec_[e].getNbVar(), 2*N + 2*i);
    vcEnsureEqI("constraints of the solver", w.qpoasesSolverVec_[e].getNbCtr(), j);
    vcEnsure("steps of the horizon", w.feetSupervisor_.getNbPreviewedSteps() <= N);
    vcEnsure("CoP constraints", HumanoidCopConstraint<double>(w.lipModel_, w.feetSupervisor_).getNbConstraints()
                                <= N*w.feetSupervisor_.getMaximumNbOfCopConstraints());
    vcEnsure("step constraints", HumanoidFootConstraint<double>(w.lipModel_, w.feetSupervisor_).getNbConstraints()
                                 <= N*w.feetSupervisor_.getMaximumNbOfKinematicConstraints());
  }
}
