// C08  CoM and CoP centring objectives are exact derivatives
//
// Variables: CoM jerks x, CoM jerks y, base jerks x, base jerks y.  With e(i) the distance, at sample i, between the
// predicted position relative to the base and the (shifted) reference, the gradient is the sum over the samples of
// de(i)/dvariable * e(i) and the Hessian that of the products of the derivatives.
#include <mpc-walkgen/function/zebulon_com_centering_objective.h>
#include <mpc-walkgen/function/zebulon_cop_centering_objective.h>
#include "two.h"

namespace MPCWalkgen
{
#define VC_COM \
    VC_TWO; \
    vcRequire(t0.c.ph.m + t0.b.ph.m > 0. && t.c.ph.m + t.b.ph.m > 0.); \
    ComCenteringObjective<double> o(c, b); \
    if (vcBool("earlier query")) \
    { \
      o.setComRefInLocalFrame(vcVec("earlier reference", 2*t0.c.n)); \
      o.updateGravityShift(); \
      o.getGradient(vcVec("earlier jerks", 4*t0.c.n)); \
    } \
    VC_TWO_RECONFIGURED; \
    o.setNbSamples(N); \
    o.computeConstantPart(); \
    VX ref(vcVec("reference", 2*N)), x(vcVec("jerks", 4*N)); \
    if (vcBool("reference first")) { o.setComRefInLocalFrame(ref); o.updateGravityShift(); } \
    else { o.updateGravityShift(); o.setComRefInLocalFrame(ref); } \
    if (vcBool("earlier query with this configuration")) o.getGradient(vcVec("other jerks", 4*N)); \
    VC_TWO_NEW_STATE; \
    const LD &dc = c.getComPosLinearDynamic(), &db = b.getBasePosLinearDynamic(); \
    double m = t.c.ph.m, M = t.b.ph.m, f = (m*t.c.ph.h + M*t.b.ph.h)/(M + m); \
    double shiftX = f*t.c.ph.g(0)/t.c.ph.g(2), shiftY = f*t.c.ph.g(1)/t.c.ph.g(2)

  static double comError(const LD& dc, const LD& db, const VX& sc, const VX& sb, const VX& x, int N, int axis, int i)
  {
    return predict(dc, i, sc, x, axis*N, N) - predict(db, i, sb, x, (2 + axis)*N, N);
  }

  VC_HARNESS(com_gradient_x)
  {
    VC_COM;
    const MX& g = o.getGradient(x);
    vcEnsureEqI("rows", g.rows(), 4*N);
    vcEnsureEqI("cols", g.cols(), 1);
    int k = vcIndex("variable", N);
    double ec = 0., eb = 0.;
    for (int i = 0; i < N; ++i) ec += dc.U(i, k)*(comError(dc, db, cx, bx, x, N, 0, i) - ref(i) - shiftX);
    for (int i = 0; i < N; ++i) eb += -db.U(i, k)*(comError(dc, db, cx, bx, x, N, 0, i) - ref(i) - shiftX);
    vcEnsureEq("CoM x", g(k, 0), ec);
    vcEnsureEq("base x", g(2*N + k, 0), eb);
  }

  VC_HARNESS(com_gradient_y)
  {
    VC_COM;
    const MX& g = o.getGradient(x);
    int k = vcIndex("variable", N);
    double ec = 0., eb = 0.;
    for (int i = 0; i < N; ++i) ec += dc.U(i, k)*(comError(dc, db, cy, by, x, N, 1, i) - ref(N + i) - shiftY);
    for (int i = 0; i < N; ++i) eb += -db.U(i, k)*(comError(dc, db, cy, by, x, N, 1, i) - ref(N + i) - shiftY);
    vcEnsureEq("CoM y", g(N + k, 0), ec);
    vcEnsureEq("base y", g(3*N + k, 0), eb);
  }

#define VC_CENTRING_HESSIAN(Ux, Uy, Bx, By) \
    const MX& h = o.getHessian(); \
    vcEnsureEqI("rows", h.rows(), 4*N); \
    vcEnsureEqI("cols", h.cols(), 4*N); \
    int k = vcIndex("variable", N), l = vcIndex("other variable", N); \
    vcEnsureEq("CoM x, CoM x", h(k, l), gram(Ux, Ux, k, l, N)); \
    vcEnsureEq("CoM y, CoM y", h(N + k, N + l), gram(Uy, Uy, k, l, N)); \
    vcEnsureEq("base x, base x", h(2*N + k, 2*N + l), gram(Bx, Bx, k, l, N)); \
    vcEnsureEq("base y, base y", h(3*N + k, 3*N + l), gram(By, By, k, l, N)); \
    vcEnsureEq("CoM x, base x", h(k, 2*N + l), gram(Ux, Bx, k, l, N)); \
    vcEnsureEq("base x, CoM x", h(2*N + k, l), gram(Bx, Ux, k, l, N)); \
    vcEnsureEq("CoM y, base y", h(N + k, 3*N + l), gram(Uy, By, k, l, N)); \
    vcEnsureEq("base y, CoM y", h(3*N + k, N + l), gram(By, Uy, k, l, N)); \
    vcEnsureEq("CoM x, CoM y", h(k, N + l), 0.); \
    vcEnsureEq("CoM x, base y", h(k, 3*N + l), 0.); \
    vcEnsureEq("CoM y, CoM x", h(N + k, l), 0.); \
    vcEnsureEq("CoM y, base x", h(N + k, 2*N + l), 0.); \
    vcEnsureEq("base x, CoM y", h(2*N + k, N + l), 0.); \
    vcEnsureEq("base x, base y", h(2*N + k, 3*N + l), 0.); \
    vcEnsureEq("base y, CoM x", h(3*N + k, l), 0.); \
    vcEnsureEq("base y, base x", h(3*N + k, 2*N + l), 0.)

  VC_HARNESS(com_hessian)
  {
    VC_COM;
    MX B(-db.U);
    VC_CENTRING_HESSIAN(dc.U, dc.U, B, B);
  }

  VC_HARNESS(com_initial_reference)
  {
    TwoP t = anyTwo();
    Lip c(mkLip(t.c));
    Base b(mkBase(t.b));
    ComCenteringObjective<double> o(c, b);
    int N = t.c.n, k = vcIndex("variable", N);
    VX x(vcVec("jerks", 4*N));
    const LD &dc = c.getComPosLinearDynamic(), &db = b.getBasePosLinearDynamic();
    double e = 0.;
    for (int i = 0; i < N; ++i) e += dc.U(i, k)*comError(dc, db, t.c.x, t.b.x, x, N, 0, i);
    vcEnsureEq("no reference, no shift", o.getGradient(x)(k, 0), e);
  }

  // ---------------------------------------------------------------- CoP
  // the CoP of the two bodies; a base lighter than the tolerance is treated as massless
#define VC_COP_OBJECTIVE \
    VC_TWO; \
    CopCenteringObjective<double> o(c, b); \
    if (vcBool("earlier query")) \
    { \
      o.setCopRefInLocalFrame(vcVec("earlier reference", 2*t0.c.n)); \
      o.getGradient(vcVec("earlier jerks", 4*t0.c.n)); \
    } \
    VC_TWO_RECONFIGURED; \
    o.computeConstantPart()
#define VC_COP \
    VC_COP_OBJECTIVE; \
    VX ref(vcVec("reference", 2*N)), x(vcVec("jerks", 4*N)); \
    o.setCopRefInLocalFrame(ref); \
    if (vcBool("earlier query with this configuration")) o.getGradient(vcVec("other jerks", 4*N)); \
    VC_TWO_NEW_STATE; \
    const LD &dx = c.getCopXLinearDynamic(), &dy = c.getCopYLinearDynamic(), &db = b.getBasePosLinearDynamic(), \
             &ex = b.getCopXLinearDynamic(), &ey = b.getCopYLinearDynamic(); \
    bool heavy = t.b.ph.m > Constant<double>::EPSILON

  static double copError(const LD& dc, const LD& dcb, const LD& db, bool heavy, const VX& sc, const VX& sb, const VX& x, int N, int axis, int i)
  {
    return predict(dc, i, sc, x, axis*N, N) - predict(db, i, sb, x, (2 + axis)*N, N) +
           (heavy ? predict(dcb, i, sb, x, (2 + axis)*N, N) : 0.);
  }

#define VC_COP_GRADIENT(ax, AX, d, e, sc, sb) \
  VC_HARNESS(cop_gradient_com_##ax) \
  { \
    VC_COP; \
    const MX& g = o.getGradient(x); \
    vcEnsureEqI("rows", g.rows(), 4*N); \
    vcEnsureEqI("cols", g.cols(), 1); \
    int k = vcIndex("variable", N); \
    double r = 0.; \
    for (int i = 0; i < N; ++i) r += d.U(i, k)*(copError(d, e, db, heavy, sc, sb, x, N, AX, i) - ref(AX*N + i)); \
    vcEnsureEq("derivative", g(AX*N + k, 0), r); \
  } \
  VC_HARNESS(cop_gradient_base_##ax) \
  { \
    VC_COP; \
    const MX& g = o.getGradient(x); \
    int k = vcIndex("variable", N); \
    double r = 0.; \
    for (int i = 0; i < N; ++i) \
      r += ((heavy ? e.U(i, k) : 0.) - db.U(i, k))*(copError(d, e, db, heavy, sc, sb, x, N, AX, i) - ref(AX*N + i)); \
    vcEnsureEq("derivative", g((2 + AX)*N + k, 0), r); \
  }
  VC_COP_GRADIENT(x, 0, dx, ex, cx, bx)
  VC_COP_GRADIENT(y, 1, dy, ey, cy, by)

  VC_HARNESS(cop_hessian_heavy_base)
  {
    VC_COP;
    vcRequire(heavy);
    MX Bx(ex.U - db.U), By(ey.U - db.U);
    VC_CENTRING_HESSIAN(dx.U, dy.U, Bx, By);
  }

  VC_HARNESS(cop_hessian_massless_base)
  {
    VC_COP;
    vcRequire(!heavy);
    MX Bx(-db.U);
    VC_CENTRING_HESSIAN(dx.U, dy.U, Bx, Bx);
  }

  // a world-frame reference: motions of the two bodies, turned into a local CoP by the two-mass equation
  // CoP = sum mass/total*(position - height/gravity_z*(acceleration + gravity))
  VC_HARNESS(cop_world_reference)
  {
    VC_COP_OBJECTIVE;
    VX rc(vcVec("CoM reference", 2*N)), ac(vcVec("CoM acceleration reference", 2*N)),
       rb(vcVec("base reference", 2*N)), ab(vcVec("base acceleration reference", 2*N)), x(vcVec("jerks", 4*N));
    double m = t.c.ph.m, M = t.b.ph.m, gz = t.c.ph.g(2);
    vcRequire(std::abs((m + M)*gz) > 1e-3);
    o.setCopRefInWorldFrame(rc, ac, rb, ab);
    MX world(o.getGradient(x));
    VX local(2*N);
    for (int i = 0; i < 2*N; ++i)
    {
      double g = i < N ? t.c.ph.g(0) : t.c.ph.g(1);
      local(i) = m/(m + M)*(rc(i) - t.c.ph.h/gz*(ac(i) + g)) + M/(m + M)*(rb(i) - t.b.ph.h/gz*(ab(i) + g)) - rb(i);
    }
    o.setCopRefInLocalFrame(local);
    int k = vcIndex("variable", 4*N);
    vcEnsureEq("the same objective as with the equivalent local reference", world(k, 0), o.getGradient(x)(k, 0));
  }

  VC_HARNESS(cop_initial_reference)
  {
    TwoP t = anyTwo();
    Lip c(mkLip(t.c));
    Base b(mkBase(t.b));
    CopCenteringObjective<double> o(c, b);
    int N = t.c.n, k = vcIndex("variable", N);
    VX x(vcVec("jerks", 4*N));
    bool heavy = t.b.ph.m > Constant<double>::EPSILON;
    const LD &d = c.getCopYLinearDynamic(), &db = b.getBasePosLinearDynamic(), &e = b.getCopYLinearDynamic();
    double r = 0.;
    for (int i = 0; i < N; ++i) r += d.U(i, k)*copError(d, e, db, heavy, t.c.y, t.b.y, x, N, 1, i);
    vcEnsureEq("no reference", o.getGradient(x)(N + k, 0), r);
  }
}
