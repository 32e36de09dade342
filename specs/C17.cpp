// C17  The wheeled-base generator solves the program its configuration defines
//
// As in C16: the state of a generator is what a fresh generator holds after being given the current configuration,
// except for the parts a solve changes, which are arbitrary (vcForgetLike).  The constructor establishes this, every
// mutator and solve keep it (vcSameState), and from any such state solve passes the program of the configuration.
#include "zeb.h"
#include "vc.h"

namespace MPCWalkgen
{
#define VC_ZEB_PARTS(w) \
    Lip c; Base b; \
    { \
      ZebP q = p; \
      q.cx = w.getComStateX(); q.cy = w.getComStateY(); q.bx = w.getBaseStateX(); q.by = w.getBaseStateY(); \
      setModels(c, b, q); \
    } \
    VX X(w.X_), B(X.segment(2*N, 2*N)); \
    double fb = vcPos("feedback period")

  VC_HARNESS(program_gradient)
  {
    int N = vcInt("samples", 1, 4);
    ZebP p = anyZeb(N, N, N, N);
    VC_ZEB_SOLVED(w, p);
    VC_ZEB_PARTS(w);
    vcQPReset();
    bool r = w.solve(fb);

    BaseVelocityTrackingObjective<double> vel(b); vel.setVelRefInWorldFrame(p.vel);
    BasePositionTrackingObjective<double> pos(b); pos.setPosRefInWorldFrame(p.pos);
    CopCenteringObjective<double> cop(c, b); cop.setCopRefInLocalFrame(p.cop);
    ComCenteringObjective<double> com(c, b); com.setNbSamples(N); com.setComRefInLocalFrame(p.com); com.updateGravityShift();
    JerkMinimizationObjective<double> jerk(c, b);
    TiltMinimizationObjective<double> tilt(c, b);
    TiltVelMinimizationObjective<double> tiltVel(c, b);

    double f = w.invObjNormFactor_;
    vcEnsure("normalisation of the objective", f > 0.);
    VX z(VX::Zero(2*N));
    VX track(4*N);
    track << z, (p.wVel*vel.getGradient(B) + p.wPos*pos.getGradient(B));
    vcEnsureEqI("one solve", vcQP().solves, 1);
    vcSameM("p", vcQP().m.p, f*(track + p.wCop*cop.getGradient(X) + p.wCom*com.getGradient(X) + p.wJerk*jerk.getGradient(X)
                               + p.wTilt*tilt.getGradient(X) + p.wTiltVel*tiltVel.getGradient(X)));
    vcEnsure("result", r == vcQP().ok);
  }

  VC_HARNESS(program_hessian)
  {
    int N = vcInt("samples", 1, 4);
    ZebP p = anyZeb(N, N, N, N);
    VC_ZEB_SOLVED(w, p);
    VC_ZEB_PARTS(w);
    vcQPReset();
    w.solve(fb);

    BaseVelocityTrackingObjective<double> vel(b);
    BasePositionTrackingObjective<double> pos(b);
    CopCenteringObjective<double> cop(c, b);
    ComCenteringObjective<double> com(c, b);
    JerkMinimizationObjective<double> jerk(c, b);
    TiltMinimizationObjective<double> tilt(c, b);
    TiltVelMinimizationObjective<double> tiltVel(c, b);

    double f = w.invObjNormFactor_;
    MX Q(p.wCop*cop.getHessian() + p.wCom*com.getHessian() + p.wJerk*jerk.getHessian()
         + p.wTilt*tilt.getHessian() + p.wTiltVel*tiltVel.getHessian());
    Q.block(2*N, 2*N, 2*N, 2*N) += p.wVel*vel.getHessian() + p.wPos*pos.getHessian();
    vcEnsureEqI("variables of the solver", vcQP().nv, 4*N);
    vcSameM("Q", vcQP().m.Q, f*Q);
  }

  // the rows of the four constraints, one after the other
#define VC_ZEB_ROWS \
    int m1 = p.fCop ? N*p.copPoly.getNbVertices() : 0, m2 = p.fBase ? 4*N : 0, \
        m3 = p.fCom ? N*p.comPoly.getNbVertices() : 0, m4 = p.fTilt ? 2*N : 0; \
    double f = w.invCtrNormFactor_; \
    vcEnsure("normalisation of the constraints", f >= 1.); \
    vcEnsureEqI("constraints of the solver", vcQP().nc, m1 + m2 + m3 + m4); \
    vcEnsureEqI("rows of A", vcQP().m.A.rows(), m1 + m2 + m3 + m4); \
    vcEnsureEqI("columns of A", vcQP().m.A.cols(), 4*N); \
    vcEnsureEqI("rows of bl", vcQP().m.bl.rows(), m1 + m2 + m3 + m4); \
    vcEnsureEqI("rows of bu", vcQP().m.bu.rows(), m1 + m2 + m3 + m4)

  VC_HARNESS(program_cop)
  {
    int N = vcInt("samples", 1, 4);
    ZebP p = anyZeb(N, N, N, N);
    p.fCop = true;
    VC_ZEB_SOLVED(w, p);
    VC_ZEB_PARTS(w);
    vcQPReset();
    w.solve(fb);
    VC_ZEB_ROWS;
    CopConstraint<double> cop(c, b);
    vcSameM("A of the CoP constraint", vcQP().m.A.block(0, 0, m1, 4*N), f*cop.getGradient());
    vcSameV("bl of the CoP constraint", vcQP().m.bl.segment(0, m1), f*cop.getFunction(X));
    int i = vcIndex("row of CoP", m1);
    vcEnsure("CoP constraint is not bounded above", vcQP().m.bu(i) >= Constant<double>::MAXIMUM_BOUND_VALUE);
  }

  VC_HARNESS(program_base)
  {
    int N = vcInt("samples", 1, 4);
    ZebP p = anyZeb(N, N, N, N);
    p.fBase = true;
    VC_ZEB_SOLVED(w, p);
    VC_ZEB_PARTS(w);
    vcQPReset();
    w.solve(fb);
    VC_ZEB_ROWS;
    BaseMotionConstraint<double> motion(b);
    vcSameM("A of the base constraint", vcQP().m.A.block(m1, 2*N, m2, 2*N), f*motion.getGradient());
    vcSameM("base constraint is on the base", vcQP().m.A.block(m1, 0, m2, 2*N), MX::Zero(m2, 2*N));
    vcSameV("bl of the base constraint", vcQP().m.bl.segment(m1, m2), f*motion.getFunctionInf(B));
    vcSameV("bu of the base constraint", vcQP().m.bu.segment(m1, m2), f*motion.getFunctionSup(B));
  }

  VC_HARNESS(program_com)
  {
    int N = vcInt("samples", 1, 4);
    ZebP p = anyZeb(N, N, N, N);
    p.fCom = true;
    VC_ZEB_SOLVED(w, p);
    VC_ZEB_PARTS(w);
    vcQPReset();
    w.solve(fb);
    VC_ZEB_ROWS;
    ComConstraint<double> com(c, b);
    vcSameM("A of the CoM constraint", vcQP().m.A.block(m1 + m2, 0, m3, 4*N), f*com.getGradient());
    vcSameV("bl of the CoM constraint", vcQP().m.bl.segment(m1 + m2, m3), f*com.getFunction(X));
    int i = vcIndex("row of CoM", m3);
    vcEnsure("CoM constraint is not bounded above", vcQP().m.bu(m1 + m2 + i) >= Constant<double>::MAXIMUM_BOUND_VALUE);
  }

  VC_HARNESS(program_tilt)
  {
    int N = vcInt("samples", 1, 4);
    ZebP p = anyZeb(N, N, N, N);
    p.fTilt = true;
    VC_ZEB_SOLVED(w, p);
    VC_ZEB_PARTS(w);
    vcQPReset();
    w.solve(fb);
    VC_ZEB_ROWS;
    TiltMotionConstraint<double> tilt(c, b);
    vcSameM("A of the tilt constraint", vcQP().m.A.block(m1 + m2 + m3, 0, m4, 4*N), f*tilt.getGradient());
    vcSameV("bl of the tilt constraint", vcQP().m.bl.segment(m1 + m2 + m3, m4), f*tilt.getFunction(X));
    vcSameV("bu of the tilt constraint", vcQP().m.bu.segment(m1 + m2 + m3, m4), f*tilt.getFunction(X));
  }

  VC_HARNESS(program_variables)
  {
    int N = vcInt("samples", 1, 4);
    ZebP p = anyZeb(N, N, N, N);
    VC_ZEB_SOLVED(w, p);
    VC_ZEB_PARTS(w);
    vcQPReset();
    w.solve(fb);
    VC_ZEB_ROWS;
    int i = vcIndex("variable", 4*N);
    vcEnsureEqI("rows of xl", vcQP().m.xl.rows(), 4*N);
    vcEnsureEqI("rows of xu", vcQP().m.xu.rows(), 4*N);
    if (i >= 2*N && p.fBase)
    {
      vcEnsureEq("jerk limit below", vcQP().m.xl(i), -p.jl - X(i));
      vcEnsureEq("jerk limit above", vcQP().m.xu(i), p.jl - X(i));
    }
    else
    {
      vcEnsure("no limit below", vcQP().m.xl(i) <= -Constant<double>::MAXIMUM_BOUND_VALUE);
      vcEnsure("no limit above", vcQP().m.xu(i) >= Constant<double>::MAXIMUM_BOUND_VALUE);
    }
  }

  static void advanced(const char* what, const VX& x, const VX& x0, double j, double fb)
  {
    vcEnsureEqI(what, x.rows(), 3);
    vcEnsureEq(what, x(0), x0(0) + fb*x0(1) + fb*fb/2.*x0(2) + fb*fb*fb/6.*j);
    vcEnsureEq(what, x(1), x0(1) + fb*x0(2) + fb*fb/2.*j);
    vcEnsureEq(what, x(2), x0(2) + fb*j);
  }

  VC_HARNESS(advance)
  {
    int N = vcInt("samples", 1, 4);
    ZebP p = anyZeb(N, N, N, N);
    VC_ZEB_SOLVED(w, p);
    VX X(w.X_), cx(w.getComStateX()), cy(w.getComStateY()), bx(w.getBaseStateX()), by(w.getBaseStateY());
    double fb = vcPos("feedback period");
    vcQPReset();
    bool r = w.solve(fb);
    vcRequire(r);
    VX s(X + vcQP().sol);
    vcSameV("accumulated solution", w.X_, s);
    advanced("body x", w.getComStateX(), cx, s(0), fb);
    advanced("body y", w.getComStateY(), cy, s(N), fb);
    advanced("base x", w.getBaseStateX(), bx, s(2*N), fb);
    advanced("base y", w.getBaseStateY(), by, s(3*N), fb);
  }

  // the contract of computeNormalizationFactor used by the other harnesses
  VC_HARNESS(normalisation)
  {
    MXrm Q(vcMat("Q", vcInt("rows of Q", 1, 4), vcInt("columns of Q", 1, 4))),
         A(vcMat("A", vcInt("rows of A", 0, 4), vcInt("columns of A", 1, 4))), Q1(Q), A1(A), Q2(Q), A2(A);
    Zeb u, v, w;
    v.invObjNormFactor_ = vcReal("factor"); v.invCtrNormFactor_ = vcReal("factor");
    w.computeNormalizationFactor(Q1, A1);
    v.computeNormalizationFactor(Q2, A2);
    vcEnsure("factor of the objective", w.invObjNormFactor_ >= 1.);
    vcEnsure("factor of the constraints", w.invCtrNormFactor_ >= 1.);
    vcSameMrm("Q is only read", Q, Q1);
    vcSameMrm("A is only read", A, A1);
    vcSameState("function of the two matrices", w, v);
    u.invObjNormFactor_ = w.invObjNormFactor_; u.invCtrNormFactor_ = w.invCtrNormFactor_;
    vcSameState("nothing else changes", w, u);
  }

  // ---------------------------------------------------------------- the invariant
  VC_HARNESS(builds)
  {
    int N = vcInt("samples", 1, 4), NV = vcInt("size of velocity reference", 1, 3),
        NP = vcInt("size of position reference", 1, 3), NQ = vcInt("size of CoP reference", 1, 3);
    ZebP p = anyZeb(NV, NP, NQ, N);
    Zeb w;
    build(w, p);
    int i = vcIndex("variable", 4*N);
    vcEnsureEq("initial solution", w.X_(i), 0.);
  }

  VC_HARNESS(initial)
  {
    Zeb a;
    ZebP p;
    p.n = 1; p.T = 1.; p.g = Constant<double>::GRAVITY_VECTOR;
    p.hc = 1.; p.hb = 0.; p.mc = 1.; p.mb = 0.;
    p.cx = p.cy = p.bx = p.by = p.roll = p.pitch = p.yaw = VX::Zero(3);
    p.vl = p.al = p.jl = 1.;
    p.tx = p.ty = 0.;
    p.vel = VX::Zero(2); p.pos = VX::Zero(2); p.cop = VX::Zero(2); p.com = VX::Zero(2);
    Base d;
    p.copPoly = d.getCopSupportConvexPolygon(); p.comPoly = d.getComSupportConvexPolygon();
    p.wVel = p.wPos = p.wCop = p.wCom = p.wJerk = p.wTilt = p.wTiltVel = 0.;
    p.fCop = p.fCom = p.fBase = p.fTilt = false;
    VC_ZEB_SOLVED(b, p);
    vcSameState("state", a, b);
  }

#define VC_MUTATOR(name, call, change, pre) \
  VC_HARNESS(keeps_##name) \
  { \
    int N = vcInt("samples", 1, 4), NV = vcInt("size of velocity reference", 1, 3), \
        NP = vcInt("size of position reference", 1, 3), NQ = vcInt("size of CoP reference", 1, 3), \
        n = vcInt("new samples", 1, 4); \
    ZebP p = anyZeb(NV, NP, NQ, N), q = p, o = anyZeb(N, N, N, n); \
    (void)o; \
    vcRequire(pre); \
    VC_ZEB_SOLVED(a, p); \
    a.call; \
    change; \
    VC_ZEB_SOLVED_TOO(b, q); \
    vcSameState("state", a, b); \
  }
  VC_MUTATOR(setNbSamples, setNbSamples(n), (q.n = n, q.com = VX::Zero(2*n)), true)
  VC_MUTATOR(setSamplingPeriod, setSamplingPeriod(o.T), q.T = o.T, true)
  VC_MUTATOR(setGravity, setGravity(o.g), q.g = o.g, true)
  VC_MUTATOR(setBaseCopConvexPolygon, setBaseCopConvexPolygon(o.copPoly), q.copPoly = o.copPoly, true)
  VC_MUTATOR(setBaseComConvexPolygon, setBaseComConvexPolygon(o.comPoly), q.comPoly = o.comPoly, true)
  VC_MUTATOR(setComBodyHeight, setComBodyHeight(o.hc), q.hc = o.hc, true)
  VC_MUTATOR(setComBaseHeight, setComBaseHeight(o.hb), q.hb = o.hb, true)
  VC_MUTATOR(setBodyMass, setBodyMass(o.mc), q.mc = o.mc, o.mc + p.mb > Constant<double>::EPSILON)
  VC_MUTATOR(setBaseMass, setBaseMass(o.mb), q.mb = o.mb, o.mb > 0. && p.mc + o.mb > Constant<double>::EPSILON)
  VC_MUTATOR(setVelRefInWorldFrame, setVelRefInWorldFrame(o.vel), q.vel = o.vel, true)
  VC_MUTATOR(setPosRefInWorldFrame, setPosRefInWorldFrame(o.pos), q.pos = o.pos, true)
  VC_MUTATOR(setCopRefInLocalFrame, setCopRefInLocalFrame(o.cop), q.cop = o.cop, true)
  VC_MUTATOR(setComRefInLocalFrame, setComRefInLocalFrame(o.com), q.com = o.com, n == N)
  VC_MUTATOR(setBaseVelLimit, setBaseVelLimit(o.vl), q.vl = o.vl, true)
  VC_MUTATOR(setBaseAccLimit, setBaseAccLimit(o.al), q.al = o.al, true)
  VC_MUTATOR(setBaseJerkLimit, setBaseJerkLimit(o.jl), q.jl = o.jl, true)
  VC_MUTATOR(setBaseStateX, setBaseStateX(o.bx), q.bx = o.bx, true)
  VC_MUTATOR(setBaseStateY, setBaseStateY(o.by), q.by = o.by, true)
  VC_MUTATOR(setBaseStateRoll, setBaseStateRoll(o.roll), q.roll = o.roll, true)
  VC_MUTATOR(setBaseStatePitch, setBaseStatePitch(o.pitch), q.pitch = o.pitch, true)
  VC_MUTATOR(setBaseStateYaw, setBaseStateYaw(o.yaw), q.yaw = o.yaw, true)
  VC_MUTATOR(setComStateX, setComStateX(o.cx), q.cx = o.cx, true)
  VC_MUTATOR(setComStateY, setComStateY(o.cy), q.cy = o.cy, true)
  VC_MUTATOR(setTiltContactPointX, setTiltContactPointOnTheGroundInLocalFrameX(o.tx), q.tx = o.tx, true)
  VC_MUTATOR(setTiltContactPointY, setTiltContactPointOnTheGroundInLocalFrameY(o.ty), q.ty = o.ty, true)
  VC_MUTATOR(setWeightings, setWeightings(weighting(o)), (q.wVel = o.wVel, q.wPos = o.wPos, q.wCop = o.wCop, q.wCom = o.wCom,
             q.wJerk = o.wJerk, q.wTilt = o.wTilt, q.wTiltVel = o.wTiltVel), true)
  VC_MUTATOR(setConfig, setConfig(configuration(o)), (q.fCop = o.fCop, q.fCom = o.fCom, q.fBase = o.fBase, q.fTilt = o.fTilt), true)
  // points with these projections on the ground
  static VV3 lifted(const Poly& p, double z)
  {
    VV3 h(p.getNbVertices());
    for (int i = 0; i < p.getNbVertices(); ++i) { h[i](0) = p.getVertices()[i](0); h[i](1) = p.getVertices()[i](1); h[i](2) = z + i; }
    return h;
  }
  VC_MUTATOR(setBaseCopHull, setBaseCopHull(lifted(o.copPoly, o.hc)), q.copPoly = Poly(o.copPoly.getVertices()),
             Poly(o.copPoly.getVertices()).getNbVertices() >= 3)
  VC_MUTATOR(setBaseComHull, setBaseComHull(lifted(o.comPoly, o.hc)), q.comPoly = Poly(o.comPoly.getVertices()),
             Poly(o.comPoly.getVertices()).getNbVertices() >= 3)
  static VX copRef(const ZebP& p, const VX& cp, const VX& ca, const VX& bp, const VX& ba)
  {
    Lip c; Base b;
    setModels(c, b, p);
    CopCenteringObjective<double> cop(c, b);
    cop.setCopRefInWorldFrame(cp, ca, bp, ba);
    return cop.copRefInLocalFrame_;
  }
  VC_MUTATOR(setComAndCopRefInWorldFrame, setComAndCopRefInWorldFrame(o.com, o.cop, o.vel, o.pos),
             (q.com = o.com - o.vel, q.cop = copRef(p, o.com, o.cop, o.vel, o.pos)),
             n == N && std::abs((p.mb + p.mc)*p.g(2)) > 0.00001)
  VC_MUTATOR(solve, solve(o.T), , NV == N && NP == N && NQ == N)

  // random histories through the public interface, against a generator configured afresh
  VC_REPLAY(history)
  {
    int N = vcInt("samples", 1, 4), steps = vcInt("steps", 1, 8);
    ZebP p = anyZeb(N, N, N, N);
    Zeb a, b;
    configure(a, p);
    for (int i = 0; i < steps; ++i)
    {
      int k = vcInt("mutator", 0, 27), n = k == 0 ? vcInt("new samples", 1, 4) : N;
      ZebP q = anyZeb(n, n, n, n);
      switch (k)
      {
        case 0:
          a.setNbSamples(n); p.n = N = n; p.com = VX::Zero(2*n);
          p.vel = q.vel; p.pos = q.pos; p.cop = q.cop;
          a.setVelRefInWorldFrame(p.vel); a.setPosRefInWorldFrame(p.pos); a.setCopRefInLocalFrame(p.cop);
          break;
        case 1: a.setWeightings(weighting(q)); p.wVel = q.wVel; p.wPos = q.wPos; p.wCop = q.wCop; p.wCom = q.wCom;
                p.wJerk = q.wJerk; p.wTilt = q.wTilt; p.wTiltVel = q.wTiltVel; break;
        case 2: a.setConfig(configuration(q)); p.fCop = q.fCop; p.fCom = q.fCom; p.fBase = q.fBase; p.fTilt = q.fTilt; break;
        case 3: vcRequire(q.mc + p.mb > Constant<double>::EPSILON); a.setBodyMass(q.mc); p.mc = q.mc; break;
        case 4: vcRequire(q.mb > 0. && p.mc + q.mb > Constant<double>::EPSILON); a.setBaseMass(q.mb); p.mb = q.mb; break;
        case 5: a.setSamplingPeriod(q.T); p.T = q.T; break;
        case 6: a.setGravity(q.g); p.g = q.g; break;
        case 7: a.setBaseCopConvexPolygon(q.copPoly); p.copPoly = q.copPoly; break;
        case 8: a.setBaseComConvexPolygon(q.comPoly); p.comPoly = q.comPoly; break;
        case 9: a.setComBodyHeight(q.hc); p.hc = q.hc; break;
        case 10: a.setComBaseHeight(q.hb); p.hb = q.hb; break;
        case 11: a.setVelRefInWorldFrame(q.vel); p.vel = q.vel; break;
        case 12: a.setPosRefInWorldFrame(q.pos); p.pos = q.pos; break;
        case 13: a.setCopRefInLocalFrame(q.cop); p.cop = q.cop; break;
        case 14: a.setComRefInLocalFrame(q.com); p.com = q.com; break;
        case 15: a.setBaseVelLimit(q.vl); p.vl = q.vl; break;
        case 16: a.setBaseAccLimit(q.al); p.al = q.al; break;
        case 17: a.setBaseJerkLimit(q.jl); p.jl = q.jl; break;
        case 18: a.setBaseStateX(q.bx); break;
        case 19: a.setBaseStateY(q.by); break;
        case 20: a.setComStateX(q.cx); break;
        case 21: a.setComStateY(q.cy); break;
        case 22: a.setBaseStateRoll(q.roll); p.roll = q.roll; break;
        case 23: a.setBaseStatePitch(q.pitch); p.pitch = q.pitch; break;
        case 24: a.setBaseStateYaw(q.yaw); p.yaw = q.yaw; break;
        case 25: a.setTiltContactPointOnTheGroundInLocalFrameX(q.tx); p.tx = q.tx; break;
        case 26: a.setTiltContactPointOnTheGroundInLocalFrameY(q.ty); p.ty = q.ty; break;
        case 27: a.solve(q.T); break;
      }
    }
    p.cx = a.getComStateX(); p.cy = a.getComStateY(); p.bx = a.getBaseStateX(); p.by = a.getBaseStateY();
    configure(b, p);
    b.X_ = a.X_;
    double fb = vcPos("feedback period");
    vcQPReset(); a.solve(fb);
    QPMatrices<double> m = vcQP().m;
    vcQPReset(); b.solve(fb);
    const QPMatrices<double>& f = vcQP().m;
    vcSameMrm("Q", m.Q, f.Q); vcSameM("p", m.p, f.p); vcSameMrm("A", m.A, f.A);
    vcSameV("bl", m.bl, f.bl); vcSameV("bu", m.bu, f.bu); vcSameV("xl", m.xl, f.xl); vcSameV("xu", m.xu, f.xu);
    vcSameV("body x", a.getComStateX(), b.getComStateX()); vcSameV("body y", a.getComStateY(), b.getComStateY());
    vcSameV("base x", a.getBaseStateX(), b.getBaseStateX()); vcSameV("base y", a.getBaseStateY(), b.getBaseStateY());
  }
}
