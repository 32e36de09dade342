// C12  Humanoid objectives are exact derivatives
//
// Variables: N local CoP x, N local CoP y, M previewed foot x, M previewed foot y.  The world CoP of a sample is
//   z = (RT*cop) + V*steps + V0*support foot,
// the jerk that realises it CopUinv*(z - CopS*state - CopK), the predicted velocity ComVelS*state + ComVelU*jerk; all
// prediction matrices are those whose first interval is the time left before the next sample.  W, R, V, V0 are the
// sample weights, rotation and selection matrices of the supervisor (W symmetric: shown by C14).
#include <mpc-walkgen/function/humanoid_lip_com_velocity_tracking_objective.h>
#include <mpc-walkgen/function/humanoid_lip_com_jerk_minimization_objective.h>
#include <mpc-walkgen/function/humanoid_cop_centering_objective.h>
#include "feet.h"

namespace MPCWalkgen
{
#define VC_PARTS \
    int nb = f.getNbOfCallsBeforeNextSample() - 1; \
    const LD &cx = m.getCopXLinearDynamic(nb), &cy = m.getCopYLinearDynamic(nb), &dv = m.getComVelLinearDynamic(nb); \
    const MX &RT = f.getRotationMatrixT(), &W = f.getSampleWeightMatrix(); \
    const MX V(f.getFeetPosLinearDynamic().U), V0(f.getFeetPosLinearDynamic().S); \
    VX sx(p.x), sy(p.y); \
    (void)cx; (void)cy; (void)dv; (void)RT; (void)W; (void)sx; (void)sy

#define VC_NEW_STATE \
    VX x(vcVec("variables", 2*N + 2*M)); \
    p.x = vcVec("new CoM x", 3); p.y = vcVec("new CoM y", 3); \
    m.setStateX(p.x); m.setStateY(p.y)

// jerk that realises the planned CoP of one axis
#define VC_JERK(J, cop, s, AX, foot) \
    VX J(cop.Uinv*(RT.block(AX*N, 0, N, 2*N)*x.segment(0, 2*N) + V*x.segment(2*N + AX*M, M) + V0*foot - cop.S*s - cop.K))

#define VC_VELOCITY(OFTEN) \
    VC_HUM(HumanoidLipComVelocityTrackingObjective<double> o(m, f); \
           if (vcBool("earlier query")) o.getGradient(vcVec("earlier variables", 2*f0.getNbSamples() + 2*f0.getNbPreviewedSteps()))); \
    VC_NEW_STATE; \
    VX ref(vcVec("reference", 2*N)); \
    o.setVelRefInWorldFrame(ref); \
    VC_PARTS; \
    MX Ax(dv.U*cx.Uinv), Ay(dv.U*cy.Uinv)
#define VC_JERKOBJ(OFTEN) \
    VC_HUM(HumanoidLipComJerkMinimizationObjective<double> o(m, f); \
           if (vcBool("earlier query")) o.getGradient(vcVec("earlier variables", 2*f0.getNbSamples() + 2*f0.getNbPreviewedSteps()))); \
    VC_NEW_STATE; \
    VC_PARTS; \
    MX Ax(cx.Uinv), Ay(cy.Uinv)

// weighted residuals of the two axes
#define VC_VEL_RESIDUAL \
    VC_JERK(jx, cx, sx, 0, f.getSupportFootStateX()(0)); \
    VC_JERK(jy, cy, sy, 1, f.getSupportFootStateY()(0)); \
    VX rx(dv.S*sx + dv.U*jx + dv.K - ref.segment(0, N)), ry(dv.S*sy + dv.U*jy + dv.K - ref.segment(N, N))
#define VC_JERK_RESIDUAL \
    VC_JERK(rx, cx, sx, 0, f.getSupportFootStateX()(0)); \
    VC_JERK(ry, cy, sy, 1, f.getSupportFootStateY()(0))

// d(weighted half squared residual)/d(world CoP of sample j)
#define VC_DZ \
    VX gx(Ax.transpose()*(W*rx)), gy(Ay.transpose()*(W*ry))

#define VC_OBJECTIVE_HARNESSES(name, SETUP, RESIDUAL) \
  VC_HARNESS(name##_gradient_cop) \
  { \
    SETUP(); RESIDUAL; VC_DZ; (void)V; \
    const MX& G = o.getGradient(x); \
    vcEnsureEqI("rows", G.rows(), 2*N + 2*M); \
    vcEnsureEqI("cols", G.cols(), 1); \
    int k = vcIndex("local CoP", 2*N); \
    double e = 0.; \
    for (int j = 0; j < N; ++j) e += RT(j, k)*gx(j) + RT(N + j, k)*gy(j); \
    vcEnsureEq("derivative along a local CoP", G(k, 0), e); \
  } \
  VC_HARNESS(name##_gradient_steps) \
  { \
    SETUP(); RESIDUAL; VC_DZ; \
    int k = vcIndex("step", M); \
    double ex = 0., ey = 0.; \
    for (int j = 0; j < N; ++j) ex += V(j, k)*gx(j); \
    for (int j = 0; j < N; ++j) ey += V(j, k)*gy(j); \
    const MX& G = o.getGradient(x); \
    vcEnsureEq("derivative along the x of a step", G(2*N + k, 0), ex); \
    vcEnsureEq("derivative along the y of a step", G(2*N + M + k, 0), ey); \
  } \
  VC_HARNESS(name##_hessian_cop) \
  { \
    SETUP(); (void)V; (void)V0; \
    if (vcBool("after a query")) o.getGradient(x); \
    const MX& H = o.getHessian(); \
    vcEnsureEqI("rows", H.rows(), 2*N + 2*M); \
    vcEnsureEqI("cols", H.cols(), 2*N + 2*M); \
    MX Hx(Ax.transpose()*W*Ax), Hy(Ay.transpose()*W*Ay); \
    int k = vcIndex("local CoP", 2*N), l = vcIndex("other local CoP", 2*N); \
    double e = 0.; \
    for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) e += RT(i, k)*Hx(i, j)*RT(j, l); \
    for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) e += RT(N + i, k)*Hy(i, j)*RT(N + j, l); \
    vcEnsureEq("local CoP, local CoP", H(k, l), e); \
  } \
  VC_HARNESS(name##_hessian_cop_steps) \
  { \
    SETUP(); (void)V0; \
    const MX& H = o.getHessian(); \
    MX Hx(Ax.transpose()*W*Ax), Hy(Ay.transpose()*W*Ay); \
    int k = vcIndex("local CoP", 2*N), l = vcIndex("step", M); \
    double kx = 0., ky = 0., xk = 0., yk = 0.; \
    for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) kx += RT(i, k)*Hx(i, j)*V(j, l); \
    for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) ky += RT(N + i, k)*Hy(i, j)*V(j, l); \
    for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) xk += V(i, l)*Hx(i, j)*RT(j, k); \
    for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) yk += V(i, l)*Hy(i, j)*RT(N + j, k); \
    vcEnsureEq("local CoP, step x", H(k, 2*N + l), kx); \
    vcEnsureEq("local CoP, step y", H(k, 2*N + M + l), ky); \
    vcEnsureEq("step x, local CoP", H(2*N + l, k), xk); \
    vcEnsureEq("step y, local CoP", H(2*N + M + l, k), yk); \
  } \
  VC_HARNESS(name##_hessian_steps) \
  { \
    SETUP(); (void)V0; \
    const MX& H = o.getHessian(); \
    MX Hx(Ax.transpose()*W*Ax), Hy(Ay.transpose()*W*Ay); \
    int k = vcIndex("step", M), l = vcIndex("other step", M); \
    double ex = 0., ey = 0.; \
    for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) ex += V(i, k)*Hx(i, j)*V(j, l); \
    for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) ey += V(i, k)*Hy(i, j)*V(j, l); \
    vcEnsureEq("step x, step x", H(2*N + k, 2*N + l), ex); \
    vcEnsureEq("step y, step y", H(2*N + M + k, 2*N + M + l), ey); \
    vcEnsureEq("step x, step y", H(2*N + k, 2*N + M + l), 0.); \
    vcEnsureEq("step y, step x", H(2*N + M + k, 2*N + l), 0.); \
  }
  VC_OBJECTIVE_HARNESSES(velocity, VC_VELOCITY, VC_VEL_RESIDUAL)
  VC_OBJECTIVE_HARNESSES(jerk, VC_JERKOBJ, VC_JERK_RESIDUAL)

  VC_HARNESS(centering)
  {
    VC_HUM(HumanoidCopCenteringObjective<double> o(m, f);
           if (vcBool("earlier query")) o.getGradient(vcVec("earlier variables", 2*f0.getNbSamples() + 2*f0.getNbPreviewedSteps())));
    VC_NEW_STATE;
    const MX& G = o.getGradient(x);
    vcEnsureEqI("rows", G.rows(), 2*N + 2*M);
    vcEnsureEqI("cols", G.cols(), 1);
    int k = vcIndex("variable", 2*N + 2*M), l = vcIndex("other variable", 2*N + 2*M);
    vcEnsureEq("derivative", G(k, 0), k < 2*N ? x(k) : 0.);
    const MX& H = o.getHessian();
    vcEnsureEqI("rows of the hessian", H.rows(), 2*N + 2*M);
    vcEnsureEqI("cols of the hessian", H.cols(), 2*N + 2*M);
    vcEnsureEq("hessian", H(k, l), k == l && k < 2*N ? 1. : 0.);
  }

  VC_HARNESS(reference_is_zero_before_it_is_set)
  {
    double fb;
    Feet f(vcFeet("supervisor", fb));
    LipP p(lipFor(f, fb));
    Lip m(mkLip(p));
    HumanoidLipComVelocityTrackingObjective<double> o(m, f), q(m, f);
    int N = f.getNbSamples(), M = f.getNbPreviewedSteps();
    q.setVelRefInWorldFrame(VX::Zero(2*N));
    VX x(vcVec("variables", 2*N + 2*M));
    int k = vcIndex("variable", 2*N + 2*M);
    vcEnsureEq("gradient", o.getGradient(x)(k, 0), q.getGradient(x)(k, 0));
  }
}
