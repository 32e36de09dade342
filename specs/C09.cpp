// C09  Support constraints hold exactly when CoM or CoP is inside the polygon
//
// Row i*N + j belongs to edge i of the polygon and sample j.  The QP bounds gradient*dX from below by the function, so
// a row is satisfied when the function is not positive, and its gradient is minus the derivative of the function.
//
// edge(v, i, X, Y) <= 0 exactly when (X, Y) is on the inner side of edge i of the counter-clockwise polygon.  The
// contract of a row is  function = edge(predicted position relative to the base).  The code returns edge(minus that
// position) instead (known finding: the polygon is point-reflected, which cannot be told for the symmetric polygons
// of the tests).  The harnesses *_inside_the_polygon state the former, *_row_value pin the latter, so that any other
// deviation is still reported.
#include <mpc-walkgen/function/zebulon_com_constraint.h>
#include <mpc-walkgen/function/zebulon_cop_constraint.h>
#include "two.h"

namespace MPCWalkgen
{
  static double ex(const VV2& v, int i) { int n = v.size(); return v[(i + 1)%n](0) - v[i](0); }
  static double ey(const VV2& v, int i) { int n = v.size(); return v[(i + 1)%n](1) - v[i](1); }
  static double edge(const VV2& v, int i, double X, double Y) { return ey(v, i)*(X - v[i](0)) - ex(v, i)*(Y - v[i](1)); }

#define VC_SUPPORT(Constr, poly) \
    VC_TWO; \
    Constr<double> o(c, b); \
    if (vcBool("earlier query")) o.getFunction(vcVec("earlier jerks", 4*t0.c.n)); \
    VC_TWO_RECONFIGURED; \
    o.computeConstantPart(); \
    VX x(vcVec("jerks", 4*N)); \
    if (vcBool("earlier query with this configuration")) o.getFunction(vcVec("other jerks", 4*N)); \
    VC_TWO_NEW_STATE; \
    VV2 v(b.poly().getVertices()); \
    int M = v.size(); \
    const LD& db = b.getBasePosLinearDynamic(); \
    bool heavy = t.b.ph.m > Constant<double>::EPSILON

#define VC_COM_POS(ax, AX, j) (predict(c.getComPosLinearDynamic(), j, c##ax, x, AX*N, N) - predict(db, j, b##ax, x, (2 + AX)*N, N))
#define VC_COP_POS_(dc, dcb, ax, AX, j) (predict(c.dc(), j, c##ax, x, AX*N, N) - predict(db, j, b##ax, x, (2 + AX)*N, N) + \
                                    (heavy ? predict(b.dcb(), j, b##ax, x, (2 + AX)*N, N) : 0.))
#define VC_COP_POS(ax, AX, j) (AX ? VC_COP_POS_(getCopYLinearDynamic, getCopYLinearDynamic, ax, AX, j) : VC_COP_POS_(getCopXLinearDynamic, getCopXLinearDynamic, ax, AX, j))

#define VC_SUPPORT_HARNESSES(what, Constr, poly, POS, UX, UY, BX, BY) \
  VC_HARNESS(what##_rows) \
  { \
    VC_SUPPORT(Constr, poly); \
    vcEnsureEqI("number of constraints", o.getNbConstraints(), M*N); \
    vcEnsureEqI("rows of the function", o.getFunction(x).rows(), M*N); \
    vcEnsureEqI("rows of the gradient", o.getGradient().rows(), M*N); \
    vcEnsureEqI("cols of the gradient", o.getGradient().cols(), 4*N); \
  } \
  VC_HARNESS(what##_row_value) \
  { \
    VC_SUPPORT(Constr, poly); \
    int i = vcIndex("edge", M), j = vcIndex("sample", N); \
    vcEnsureEq("row of an edge and a sample", o.getFunction(x)(i*N + j), edge(v, i, -POS(x, 0, j), -POS(y, 1, j))); \
  } \
  VC_HARNESS(what##_inside_the_polygon) \
  { \
    VC_SUPPORT(Constr, poly); \
    int i = vcIndex("edge", M), j = vcIndex("sample", N); \
    vcEnsureEq("row satisfied exactly on the inner side of the edge", o.getFunction(x)(i*N + j), edge(v, i, POS(x, 0, j), POS(y, 1, j))); \
  } \
  VC_HARNESS(what##_gradient) \
  { \
    VC_SUPPORT(Constr, poly); \
    if (vcBool("after a query")) o.getFunction(x); \
    int i = vcIndex("edge", M), j = vcIndex("sample", N), k = vcIndex("variable", N); \
    const MX& g = o.getGradient(); \
    vcEnsureEq("CoM x", g(i*N + j, k), ey(v, i)*UX(j, k)); \
    vcEnsureEq("CoM y", g(i*N + j, N + k), -ex(v, i)*UY(j, k)); \
    vcEnsureEq("base x", g(i*N + j, 2*N + k), ey(v, i)*BX(j, k)); \
    vcEnsureEq("base y", g(i*N + j, 3*N + k), -ex(v, i)*BY(j, k)); \
  }
#define COM_U(j, k) c.getComPosLinearDynamic().U(j, k)
#define COM_B(j, k) (-db.U(j, k))
#define COP_UX(j, k) c.getCopXLinearDynamic().U(j, k)
#define COP_UY(j, k) c.getCopYLinearDynamic().U(j, k)
#define COP_BX(j, k) ((heavy ? b.getCopXLinearDynamic().U(j, k) : 0.) - db.U(j, k))
#define COP_BY(j, k) ((heavy ? b.getCopYLinearDynamic().U(j, k) : 0.) - db.U(j, k))
  VC_SUPPORT_HARNESSES(com, ComConstraint, getComSupportConvexPolygon, VC_COM_POS, COM_U, COM_U, COM_B, COM_B)
  VC_SUPPORT_HARNESSES(cop, CopConstraint, getCopSupportConvexPolygon, VC_COP_POS, COP_UX, COP_UY, COP_BX, COP_BY)
}
