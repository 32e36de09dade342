// C05  Hull extraction keeps a subset of the points that contains them all
#include <mpc-walkgen/convexpolygon.h>
#include <mpc-walkgen/constant.h>
#include "vc.h"

namespace MPCWalkgen
{
  typedef ConvexPolygon<double> Poly;
#ifdef VC_NATIVE
  static double turn(const V2& a, const V2& b, const V2& c) { return (b(0) - a(0))*(c(1) - b(1)) - (b(1) - a(1))*(c(0) - b(0)); }
  static double some(int n) { return int(vcu()*n)%n; }

  // points in general position, on a grid, on the edges of a triangle, on a line, copies of one another, scaled or
  // far from the origin; when apart, on a grid of 1e-3
  // and without three points which are nearly aligned
  static VV2 list(const char* name, bool apart)
  {
    VV2 p;
    int kind = vcInt("kind of list", 0, 6), n = vcInt("number of points", 1, 9);
    double w = 0.2 + vcu(), h = 0.2 + vcu();
    V2 o(vcu() - 0.5, vcu() - 0.5), d(vcu() - 0.5, vcu() - 0.5), c[3];
    if (apart) { o = (1000.*o).array().round()/1000.; d = (1000.*d).array().round()/1000.; w = std::floor(1000*w)/1000; h = std::floor(1000*h)/1000; }
    for (int k = 0; k < 3; ++k) c[k] = V2(std::floor(500*vcu() - 250)/250, std::floor(500*vcu() - 250)/250);
    for (int i = 0; i < n; ++i)
    {
      V2 x;
      switch (kind)
      {
      case 0: x = V2(2*vcu() - 1, 2*vcu() - 1); break;
      case 1: x = V2(some(5) - 2, some(5) - 2); break;
      case 2: { int k = some(3); x = c[k] + some(5)/4.*(c[(k + 1)%3] - c[k]); break; }
      case 3: x = o + V2((some(3) - 1)*w, (some(3) - 1)*h); break;
      case 4: x = o + (some(7) - 3)*d; break;
      case 5: { double t = 2*M_PI*some(12)/12; x = o + w*V2(std::cos(t), std::sin(t)); break; }
      default: x = p.empty() || vcu() < 0.6 ? V2(2*vcu() - 1, 2*vcu() - 1) : p[some(p.size())]; break;
      }
      if (apart) x = (1000.*x).array().round()/1000.;
      else if (vcu() < 0.3) x += 2e-4*V2(vcu() - 0.5, vcu() - 0.5);
      p.push_back(x);
    }
    // no three points are nearly, but not exactly, aligned
    for (size_t a = 0; apart && a < p.size(); ++a) for (size_t b = 0; b < p.size(); ++b) for (size_t c = 0; c < p.size(); ++c)
    {
      double t = std::abs(turn(p[a], p[b], p[c]));
      vcRequire(t < 1e-9 || t > 2e-3*(p[b] - p[a]).norm()*(p[c] - p[b]).norm());
    }
    for (size_t i = 0; i < p.size(); ++i) { vclog(name, p[i](0)); vclog("  y", p[i](1)); }
    return p;
  }

  VC_HARNESS(lowest_and_leftmost)
  {
    VV2 p(list("point", vcBool("well separated")));
    int i = Poly::getIndexOfLowestAndLeftmostVertice(p), n = p.size();
    vcEnsure("in the list", 0 <= i && i < n);
    double low = p[0](1);
    for (int k = 0; k < n; ++k) low = std::min(low, p[k](1));
    vcEnsure("lowest", p[i](1) < low + Constant<double>::EPSILON);
    for (int k = 0; k < n; ++k) vcEnsure("leftmost", p[k](1) != low || p[k](0) >= p[i](0));
  }

  VC_HARNESS(next_vertex)
  {
    VV2 p(list("point", vcBool("well separated")));
    int n = p.size(), i = vcIndex("current point", n);
    V2 last(vcVec2("last vertex"));
    int k = Poly::getIndexOfSmallestAngleVertice(i, last, p);
    vcEnsure("in the list", 0 <= k && k < n);
    bool other = false;
    for (int j = 0; j < n; ++j) other = other || !p[j].isApprox(p[i], Constant<double>::EPSILON);
    vcEnsure("another point", !other || !p[k].isApprox(p[i], Constant<double>::EPSILON));
  }

  VC_BOUNDED(turn_angle)
  {
    V2 a(vcVec2("first")), b(vcVec2("second"));
    double t = Poly::angleBetweenVecs(a, b);
    if (a.norm() < 1e-9 || b.norm() < 1e-9) vcEnsure("no angle", t == 0.);
    else
    {
      vcEnsure("cosine", std::abs(std::cos(t)*a.norm()*b.norm() - a.dot(b)) <= 1e-3*a.norm()*b.norm());
      vcEnsure("absolute sine", std::abs(std::abs(std::sin(t))*a.norm()*b.norm() - std::abs(a(0)*b(1) - a(1)*b(0))) <= 1e-3*a.norm()*b.norm());
      vcEnsure("half turn", -M_PI - 1e-6 <= t && t <= M_PI + 1e-6);
    }
  }

  VC_HARNESS(vertices_are_points_of_the_list)
  {
    VV2 p(list("point", vcBool("well separated")));
    VV2 v(Poly(p).getVertices());
    vcEnsure("some vertex", v.size() >= 1 && v.size() <= p.size());
    for (size_t i = 0; i < v.size(); ++i)
    {
      bool in = false;
      for (size_t k = 0; k < p.size(); ++k) in = in || p[k] == v[i];
      vcEnsure("point of the list", in);
    }
    VV2 none;
    vcEnsureEqI("no point, no vertex", Poly(none).getNbVertices(), 0);
  }

  VC_BOUNDED(hull)
  {
    VV2 p(list("point", true));
    VV2 v(Poly(p).getVertices());
    int n = v.size();
    double low = p[0](1), left = 1e9;
    for (size_t k = 0; k < p.size(); ++k) low = std::min(low, p[k](1));
    for (size_t k = 0; k < p.size(); ++k) if (p[k](1) == low) left = std::min(left, p[k](0));
    for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) vcEnsure("no vertex twice", v[i] != v[j]);
    bool flat = true;
    for (size_t a = 0; a < p.size(); ++a) for (size_t b = 0; b < a; ++b) for (size_t c = 0; c < b; ++c)
      flat = flat && std::abs(turn(p[a], p[b], p[c])) < 1e-9;
    if (flat) return;
    vcEnsure("starts at the lowest then leftmost point", v[0](1) == low && v[0](0) == left);
    vcEnsure("a polygon", n >= 3);
    for (int i = 0; i < n; ++i)
    {
      const V2& a = v[i]; const V2& b = v[(i + 1)%n];
      vcEnsure("counter-clockwise", turn(a, b, v[(i + 2)%n]) > -1e-3*(b - a).norm());
      for (size_t k = 0; k < p.size(); ++k) vcEnsure("contains the point", turn(a, b, p[k]) >= -1e-3*(b - a).norm());
    }
  }
#else
  // (for the list of harnesses: the bodies above only run natively; the contracts of vc/wp.py are what is proved)
  VC_HARNESS(lowest_and_leftmost) {}
  VC_HARNESS(next_vertex) {}
  VC_BOUNDED(turn_angle) {}
  VC_HARNESS(vertices_are_points_of_the_list) {}
  VC_BOUNDED(hull) {}
#endif
}
