// C11  Tilt objectives follow the documented tilt equation
//
//   g(mh + ML) psi + m g (c - d) + M g p = M L ddot{d} + m h ddot{c} + (mh^2 + ML^2) ddot{psi}
//
// at every sample, c and d the predicted CoM and base positions, p the tilt contact point; the tilt acceleration is
// Uinv*(psi - S*psi0) with the second-order prediction of the tilt angle and its stored inverse (C01).  Hence
//   (A1*Id - A6*Uinv) psi = R - A6*Uinv*S*psi0,       R = m h ddot{c} + M L ddot{d} - m g (c - d) - M g p,
// and psi is obtained with the inverse P of the matrix on the left.  For the tilt velocity w = V*ddot{psi} + Sv*psi0,
//   (A1*U*Vinv - A6*U*Vinv*Uinv)(w - Sv*psi0) = R - A1*S*psi0,   with   P*A1*S = V*Uinv*S + P*A6*Uinv*S,
// and the objectives are half the sum of squares of psi and w over the samples of both axes.
#include <mpc-walkgen/function/zebulon_tilt_minimization_objective.h>
#include <mpc-walkgen/function/zebulon_tilt_velocity_minimization_objective.h>
#include <mpc-walkgen/tools.h>
#include "two.h"

namespace MPCWalkgen
{
#define VC_TILT(Objective) \
    VC_TWO; \
    Objective<double> o(c, b); \
    if (vcBool("earlier query")) o.getGradient(vcVec("earlier jerks", 4*t0.c.n)); \
    VC_TWO_RECONFIGURED; \
    o.computeConstantPart(); \
    VX x(vcVec("jerks", 4*N)); \
    if (vcBool("earlier query with this configuration")) o.getGradient(vcVec("other jerks", 4*N)); \
    double px = vcReal("new contact x"), py = vcReal("new contact y"); \
    b.setTiltContactPointX(px); b.setTiltContactPointY(py); \
    o.updateTiltContactPoint(); \
    VC_TWO_NEW_STATE; \
    VX roll(vcVec("new roll", 3)), pitch(vcVec("new pitch", 3)); \
    b.setStateRoll(roll); b.setStatePitch(pitch); \
    double g = 9.81, m = c.getMass(), M = b.getMass(), h = t.c.ph.h, L = t.b.ph.h; \
    double A1 = g*(m*h + M*L), A6 = m*h*h + M*L*L; \
    const LD &pos = b.getBaseTiltAngleLinearDynamic(), &vel = b.getBaseTiltAngularVelLinearDynamic(); \
    const LD &cp = c.getComPosLinearDynamic(), &ca = c.getComAccLinearDynamic(), \
             &dp = b.getBasePosLinearDynamic(), &da = b.getBaseAccLinearDynamic(); \
    MX U, P; \
    (void)vel; (void)pos; (void)cp; (void)ca; (void)dp; (void)da; (void)A1; (void)A6

#define VC_ANGLE \
    U = A1*MX::Identity(N, N) - A6*pos.Uinv; \
    Tools::inverseLU<double>(U, P, 1e-15f); \
    MX Z(-P*A6*pos.Uinv*pos.S)
#define VC_VELOCITY \
    U = A1*pos.U*vel.Uinv - A6*pos.U*vel.Uinv*pos.Uinv; \
    Tools::inverseLU<double>(U, P, 1e-15f); \
    MX Z(-P*A6*pos.Uinv*pos.S - vel.U*pos.Uinv*pos.S + vel.S)

// right-hand side at sample j of one axis
#define VC_RHS(ax, AX, p) \
    VX R(N); \
    for (int j = 0; j < N; ++j) \
      R(j) = m*h*predict(ca, j, c##ax, x, AX*N, N) + M*L*predict(da, j, b##ax, x, (2 + AX)*N, N) \
             - m*g*(predict(cp, j, c##ax, x, AX*N, N) - predict(dp, j, b##ax, x, (2 + AX)*N, N)) - M*g*p
#define VC_JACOBIANS \
    MX C(P*(m*h*ca.U - m*g*cp.U)), B(P*(M*L*da.U + m*g*dp.U))

#define VC_TILT_HARNESSES(name, Objective, INV, value) \
  VC_HARNESS(name##_gradient_x) \
  { \
    VC_TILT(Objective); INV; VC_RHS(x, 0, px); VC_JACOBIANS; \
    const MX& G = o.getGradient(x); \
    vcEnsureEqI("rows", G.rows(), 4*N); \
    vcEnsureEqI("cols", G.cols(), 1); \
    int k = vcIndex("variable", N); \
    double e = 0., f = 0.; \
    for (int i = 0; i < N; ++i) \
    { \
      double v = Z(i, 0)*roll(0) + Z(i, 1)*roll(1); \
      for (int j = 0; j < N; ++j) v += P(i, j)*R(j); \
      e += C(i, k)*v; f += B(i, k)*v; \
    } \
    vcEnsureEq("CoM x", G(k, 0), e); \
    vcEnsureEq("base x", G(2*N + k, 0), f); \
  } \
  VC_HARNESS(name##_gradient_y) \
  { \
    VC_TILT(Objective); INV; VC_RHS(y, 1, py); VC_JACOBIANS; \
    const MX& G = o.getGradient(x); \
    int k = vcIndex("variable", N); \
    double e = 0., f = 0.; \
    for (int i = 0; i < N; ++i) \
    { \
      double v = Z(i, 0)*pitch(0) + Z(i, 1)*pitch(1); \
      for (int j = 0; j < N; ++j) v += P(i, j)*R(j); \
      e += C(i, k)*v; f += B(i, k)*v; \
    } \
    vcEnsureEq("CoM y", G(N + k, 0), e); \
    vcEnsureEq("base y", G(3*N + k, 0), f); \
  } \
  VC_HARNESS(name##_hessian) \
  { \
    VC_TILT(Objective); INV; VC_JACOBIANS; (void)Z; \
    if (vcBool("after a query")) o.getGradient(x); \
    const MX& H = o.getHessian(); \
    vcEnsureEqI("rows", H.rows(), 4*N); \
    vcEnsureEqI("cols", H.cols(), 4*N); \
    int k = vcIndex("variable", N), l = vcIndex("other variable", N); \
    vcEnsureEq("CoM x, CoM x", H(k, l), gram(C, C, k, l, N)); \
    vcEnsureEq("CoM y, CoM y", H(N + k, N + l), gram(C, C, k, l, N)); \
    vcEnsureEq("base x, base x", H(2*N + k, 2*N + l), gram(B, B, k, l, N)); \
    vcEnsureEq("base y, base y", H(3*N + k, 3*N + l), gram(B, B, k, l, N)); \
    vcEnsureEq("CoM x, base x", H(k, 2*N + l), gram(C, B, k, l, N)); \
    vcEnsureEq("base x, CoM x", H(2*N + k, l), gram(B, C, k, l, N)); \
    vcEnsureEq("CoM y, base y", H(N + k, 3*N + l), gram(C, B, k, l, N)); \
    vcEnsureEq("base y, CoM y", H(3*N + k, N + l), gram(B, C, k, l, N)); \
    vcEnsureEq("CoM x, CoM y", H(k, N + l), 0.); \
    vcEnsureEq("CoM x, base y", H(k, 3*N + l), 0.); \
    vcEnsureEq("CoM y, CoM x", H(N + k, l), 0.); \
    vcEnsureEq("CoM y, base x", H(N + k, 2*N + l), 0.); \
    vcEnsureEq("base x, CoM y", H(2*N + k, N + l), 0.); \
    vcEnsureEq("base x, base y", H(2*N + k, 3*N + l), 0.); \
    vcEnsureEq("base y, CoM x", H(3*N + k, l), 0.); \
    vcEnsureEq("base y, base x", H(3*N + k, 2*N + l), 0.); \
  }
  VC_TILT_HARNESSES(tilt, TiltMinimizationObjective, VC_ANGLE, psi)
  VC_TILT_HARNESSES(tilt_velocity, TiltVelMinimizationObjective, VC_VELOCITY, w)

  // without updateTiltContactPoint: the contact point of the last computeConstantPart
#define VC_CONTACT(name, Objective) \
  VC_HARNESS(name) \
  { \
    VC_TWO; \
    Objective<double> o(c, b), q(c, b); \
    VC_TWO_RECONFIGURED; \
    VX x(vcVec("jerks", 4*N)); \
    o.computeConstantPart(); \
    double px = vcReal("earlier contact x"), py = vcReal("earlier contact y"); \
    b.setTiltContactPointX(px); b.setTiltContactPointY(py); \
    q.computeConstantPart(); \
    b.setTiltContactPointX(t.b.cx); b.setTiltContactPointY(t.b.cy); \
    q.updateTiltContactPoint(); \
    int k = vcIndex("variable", 4*N); \
    vcEnsureEq("moving the contact point afterwards or before gives the same objective", q.getGradient(x)(k, 0), o.getGradient(x)(k, 0)); \
  }
  VC_CONTACT(tilt_contact_point, TiltMinimizationObjective)
  VC_CONTACT(tilt_velocity_contact_point, TiltVelMinimizationObjective)
}
