// C04  A polygon's bounds and half-planes describe exactly its edges
//
// For the verifier the vertices are any list of points (the contract of extractVertices is not used); a polygon is
// then assumed convex and counter-clockwise, with edges that are either axis-parallel or farther from it than the
// documented tolerance.
#include <mpc-walkgen/convexpolygon.h>
#include <mpc-walkgen/constant.h>
#include "vc.h"

namespace MPCWalkgen
{
  typedef ConvexPolygon<double> Poly;

  static double dx(const VV2& v, int k) { int n = v.size(); return v[(k + 1)%n](0) - v[k](0); }
  static double dy(const VV2& v, int k) { int n = v.size(); return v[(k + 1)%n](1) - v[k](1); }
  static bool vertical(const VV2& v, int k) { return dx(v, k) == 0.; }
  static bool horizontal(const VV2& v, int k) { return dy(v, k) == 0.; }
  static bool general(const VV2& v, int k) { return !vertical(v, k) && !horizontal(v, k); }
  // >= 0 when (x, y) is on the left of edge k, the side of the interior
  static double leftOf(const VV2& v, int k, double x, double y) { return dx(v, k)*(y - v[k](1)) - dy(v, k)*(x - v[k](0)); }

  // neither too short nor nearly, but not exactly, axis-parallel
  static bool clear(double d) { return d == 0. || std::abs(d) >= Constant<double>::EPSILON; }
  static bool properEdge(const VV2& v, int k)
  {
    return clear(dx(v, k)) && clear(dy(v, k)) && !(dx(v, k) == 0. && dy(v, k) == 0.);
  }

#define VC_POLYGON \
    Poly g(vcPoints("points", vcInt("number of points", 3, 7))); \
    VV2 v(g.getVertices()); \
    int nv = v.size(); \
    vcRequire(nv >= 3); \
    vcEnsureEqI("number of vertices", g.getNbVertices(), nv); \
    VC_FORALL(e, nv, properEdge(v, e)); \
    for (int e = 0; e < nv; ++e) VC_FORALL(w, nv, leftOf(v, e, v[w](0), v[w](1)) >= 0.)

  static int generalBefore(const VV2& v, int k)
  {
    int c = 0;
    for (int e = 0; e < k; ++e) if (general(v, e)) ++c;
    return c;
  }

  VC_HARNESS(one_half_plane_per_general_edge)
  {
    VC_POLYGON;
    vcEnsureEqI("one half-plane per general edge", g.getNbGeneralConstraints(), generalBefore(v, nv));
    vcEnsureEqI("size of x coefficients", g.getGeneralConstraintsMatrixCoefsForX().rows(), g.getNbGeneralConstraints());
    vcEnsureEqI("size of y coefficients", g.getGeneralConstraintsMatrixCoefsForY().rows(), g.getNbGeneralConstraints());
    vcEnsureEqI("size of constant part", g.getGeneralConstraintsConstantPart().rows(), g.getNbGeneralConstraints());
  }

  VC_HARNESS(half_plane_of_a_general_edge)
  {
    VC_POLYGON;
    int k = vcIndex("edge", nv);
    vcRequire(general(v, k));
    int r = generalBefore(v, k), k1 = (k + 1)%nv;
    vcEnsure("the edge has a row", r < g.getNbGeneralConstraints());
    double a = g.getGeneralConstraintsMatrixCoefsForX()(r), b = g.getGeneralConstraintsMatrixCoefsForY()(r),
           c = g.getGeneralConstraintsConstantPart()(r);
    double x = vcReal("x"), y = vcReal("y");
    vcEnsureEq("first end point on the line", a*v[k](0) + b*v[k](1) + c, 0.);
    vcEnsureEq("second end point on the line", a*v[k1](0) + b*v[k1](1) + c, 0.);
    vcEnsureEq("interior on the non-positive side", a*x + b*y + c, -leftOf(v, k, x, y));
  }

  // the side an axis-parallel edge limits
  VC_HARNESS(right_bound)
  {
    VC_POLYGON;
    int k = vcIndex("edge", nv);
    vcRequire(vertical(v, k) && dy(v, k) > 0.);
    vcEnsureEq("upper bound on x", g.getXSupBound(), v[k](0));
  }

  VC_HARNESS(left_bound)
  {
    VC_POLYGON;
    int k = vcIndex("edge", nv);
    vcRequire(vertical(v, k) && dy(v, k) < 0.);
    vcEnsureEq("lower bound on x", g.getXInfBound(), v[k](0));
  }

  VC_HARNESS(upper_bound)
  {
    VC_POLYGON;
    int k = vcIndex("edge", nv);
    vcRequire(horizontal(v, k) && dx(v, k) < 0.);
    vcEnsureEq("upper bound on y", g.getYSupBound(), v[k](1));
  }

  VC_HARNESS(lower_bound)
  {
    VC_POLYGON;
    int k = vcIndex("edge", nv);
    vcRequire(horizontal(v, k) && dx(v, k) > 0.);
    vcEnsureEq("lower bound on y", g.getYInfBound(), v[k](1));
  }

#define VC_NO_EDGE(name, cond, get, value) \
  VC_HARNESS(no_##name) \
  { \
    VC_POLYGON; \
    VC_FORALL(k, nv, !(cond)); \
    vcEnsureEq("bound left at the documented maximum", g.get(), value); \
  }
  VC_NO_EDGE(right_edge, vertical(v, k) && dy(v, k) > 0., getXSupBound, Constant<double>::MAXIMUM_BOUND_VALUE)
  VC_NO_EDGE(left_edge, vertical(v, k) && dy(v, k) < 0., getXInfBound, -Constant<double>::MAXIMUM_BOUND_VALUE)
  VC_NO_EDGE(upper_edge, horizontal(v, k) && dx(v, k) < 0., getYSupBound, Constant<double>::MAXIMUM_BOUND_VALUE)
  VC_NO_EDGE(lower_edge, horizontal(v, k) && dx(v, k) > 0., getYInfBound, -Constant<double>::MAXIMUM_BOUND_VALUE)

  // a point satisfies every bound exactly when it is on the left of every axis-parallel edge; for the other edges the
  // value of the half-plane is minus that distance expression (above)
#define VC_SATISFIED(name, cond, get, value) \
  VC_HARNESS(satisfied_is_inside_##name) \
  { \
    VC_POLYGON; \
    double x = vcReal("x"), y = vcReal("y"); \
    int k = vcIndex("edge", nv); \
    vcRequire(cond); \
    vcLemmaEq("what limits the edge", get, value); \
    vcRequire(x <= g.getXSupBound() && x >= g.getXInfBound() && y <= g.getYSupBound() && y >= g.getYInfBound()); \
    vcEnsure("on the inner side of every edge", leftOf(v, k, x, y) >= 0.); \
  }
  VC_SATISFIED(right, vertical(v, k) && dy(v, k) > 0., g.getXSupBound(), v[k](0))
  VC_SATISFIED(left, vertical(v, k) && dy(v, k) < 0., g.getXInfBound(), v[k](0))
  VC_SATISFIED(top, horizontal(v, k) && dx(v, k) < 0., g.getYSupBound(), v[k](1))
  VC_SATISFIED(bottom, horizontal(v, k) && dx(v, k) > 0., g.getYInfBound(), v[k](1))

  VC_HARNESS(inside_satisfies)
  {
    VC_POLYGON;
    double x = vcReal("x"), y = vcReal("y");
    double m = Constant<double>::MAXIMUM_BOUND_VALUE;
    vcRequire(std::abs(x) <= m && std::abs(y) <= m);
    VC_FORALL(k, nv, leftOf(v, k, x, y) >= 0.);
    vcEnsure("upper bound on x", x <= g.getXSupBound());
    vcEnsure("lower bound on x", x >= g.getXInfBound());
    vcEnsure("upper bound on y", y <= g.getYSupBound());
    vcEnsure("lower bound on y", y >= g.getYInfBound());
  }

  VC_HARNESS(no_vertices)
  {
    Poly g;
    double m = Constant<double>::MAXIMUM_BOUND_VALUE;
    vcEnsureEqI("vertices", g.getNbVertices(), 0);
    vcEnsureEqI("half-planes", g.getNbGeneralConstraints(), 0);
    vcEnsureEq("right", g.getXSupBound(), m); vcEnsureEq("left", g.getXInfBound(), -m);
    vcEnsureEq("top", g.getYSupBound(), m); vcEnsureEq("bottom", g.getYInfBound(), -m);
  }
}
