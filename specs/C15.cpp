// C15  Normalising a quadratic program does not change its solution set
//
// The objective is (Q, p), the constraint family (A, bl, bu).  Entries are addressed by a position in the family:
// whatever two entries are chosen, they are scaled by the same factor.
#include <mpc-walkgen/qpsolver.h>
#include "vc.h"

namespace MPCWalkgen
{
  typedef QPMatrices<double> QP;
  typedef QP::MatrixXrm MR;

  static QP anyProgram(int n, int m)
  {
    QP q;
    q.Q = vcMat("Q", n, n); q.A = vcMat("A", m, n);
    q.p = vcVec("p", n); q.bl = vcVec("bl", m); q.bu = vcVec("bu", m); q.xl = vcVec("xl", n); q.xu = vcVec("xu", n);
#ifdef VC_NATIVE
    double s = std::pow(10., vcRange("scale", -5, 2));
    q.Q *= s; q.p *= s; q.A *= s; q.bl *= s; q.bu *= s;
#endif
    return q;
  }
#define VC_QP \
    int n = vcInt("variables", 1, 5), m = vcInt("constraints", 1, 5); \
    double eps = vcRange("threshold", 1e-6, 0.5); \
    vcRequire(0. < eps); vcRequire(eps < 1.); \
    QP q(anyProgram(n, m)), o(q)
#define VC_ENTRY(name, o, q, M, r, c) \
    int i_##name = vcIndex("row of " #M, r), j_##name = vcIndex("column of " #M, c); \
    double o_##name = o.M(i_##name, j_##name), q_##name = q.M(i_##name, j_##name)

  // a family keeps its proportions: e*o' == e'*o, and a zero stays zero
#define VC_SAME_FACTOR(what, a, b) \
    vcEnsureEq(what, q_##a*o_##b, q_##b*o_##a)
  // an entry that is not zero shows the factor
#define VC_FACTOR(a) \
    vcRequire(o_##a != 0.); \
    vcEnsure("factor >= 1", q_##a/o_##a >= 1.); \
    vcEnsure("factor < 1/threshold", q_##a/o_##a < 1./eps)

  VC_HARNESS(objective)
  {
    VC_QP;
    q.normalizeMatrices(eps);
    vcEnsureEqI("rows of Q", q.Q.rows(), n);
    vcEnsureEqI("columns of Q", q.Q.cols(), n);
    vcEnsureEqI("size of p", q.p.size(), n);
    VC_ENTRY(a, o, q, Q, n, n);
    VC_ENTRY(b, o, q, Q, n, n);
    VC_ENTRY(c, o, q, p, n, 1);
    VC_SAME_FACTOR("Q is scaled by one factor", a, b);
    VC_SAME_FACTOR("p is scaled like Q", a, c);
    if (o_a == 0.) vcEnsureEq("a zero of Q stays one", q_a, 0.);
    if (o_c == 0.) vcEnsureEq("a zero of p stays one", q_c, 0.);
  }
  VC_HARNESS(objective_factor)
  {
    VC_QP;
    q.normalizeMatrices(eps);
    VC_ENTRY(a, o, q, Q, n, n);
    VC_FACTOR(a);
  }
  VC_HARNESS(objective_factor_of_the_linear_part)
  {
    VC_QP;
    q.normalizeMatrices(eps);
    VC_ENTRY(c, o, q, p, n, 1);
    VC_FACTOR(c);
  }
  VC_HARNESS(constraints)
  {
    VC_QP;
    q.normalizeMatrices(eps);
    vcEnsureEqI("rows of A", q.A.rows(), m);
    vcEnsureEqI("columns of A", q.A.cols(), n);
    vcEnsureEqI("size of bl", q.bl.size(), m);
    vcEnsureEqI("size of bu", q.bu.size(), m);
    VC_ENTRY(a, o, q, A, m, n);
    VC_ENTRY(b, o, q, A, m, n);
    VC_ENTRY(l, o, q, bl, m, 1);
    VC_ENTRY(u, o, q, bu, m, 1);
    VC_SAME_FACTOR("A is scaled by one factor", a, b);
    VC_SAME_FACTOR("bl is scaled like A", a, l);
    VC_SAME_FACTOR("bu is scaled like A", a, u);
    VC_SAME_FACTOR("bl is scaled like bu", u, l);
    if (o_a == 0.) vcEnsureEq("a zero of A stays one", q_a, 0.);
    if (o_l == 0.) vcEnsureEq("a zero of bl stays one", q_l, 0.);
    if (o_u == 0.) vcEnsureEq("a zero of bu stays one", q_u, 0.);
  }
  VC_HARNESS(constraints_factor)
  {
    VC_QP;
    q.normalizeMatrices(eps);
    VC_ENTRY(a, o, q, A, m, n);
    VC_FACTOR(a);
  }
  VC_HARNESS(constraints_factor_of_the_bounds)
  {
    VC_QP;
    q.normalizeMatrices(eps);
    VC_ENTRY(l, o, q, bl, m, 1);
    VC_ENTRY(u, o, q, bu, m, 1);
    VC_FACTOR(l);
    VC_FACTOR(u);
  }
  VC_HARNESS(variable_bounds_are_untouched)
  {
    VC_QP;
    q.normalizeMatrices(eps);
    int k = vcIndex("variable", n);
    vcEnsureEqI("size of xl", q.xl.size(), n);
    vcEnsureEqI("size of xu", q.xu.size(), n);
    vcEnsureEq("lower bound", q.xl(k), o.xl(k));
    vcEnsureEq("upper bound", q.xu(k), o.xu(k));
  }
#define VC_NOT_SMALL(x) (!(std::abs(x) > eps && std::abs(x) < 1.))
  VC_HARNESS(objective_without_small_entries)
  {
    VC_QP;
#ifdef VC_NATIVE
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) q.Q(i, j) = std::round(q.Q(i, j));
    o = q;
#endif
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) vcRequire(VC_NOT_SMALL(q.Q(i, j)));
    q.normalizeMatrices(eps);
    VC_ENTRY(a, o, q, Q, n, n);
    VC_ENTRY(c, o, q, p, n, 1);
    vcEnsureEq("Q is unchanged", q_a, o_a);
    vcEnsureEq("p is unchanged", q_c, o_c);
  }
  VC_HARNESS(constraints_without_small_entries)
  {
    VC_QP;
#ifdef VC_NATIVE
    for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) q.A(i, j) = std::round(q.A(i, j));
    o = q;
#endif
    for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) vcRequire(VC_NOT_SMALL(q.A(i, j)));
    q.normalizeMatrices(eps);
    VC_ENTRY(a, o, q, A, m, n);
    VC_ENTRY(l, o, q, bl, m, 1);
    VC_ENTRY(u, o, q, bu, m, 1);
    vcEnsureEq("A is unchanged", q_a, o_a);
    vcEnsureEq("bl is unchanged", q_l, o_l);
    vcEnsureEq("bu is unchanged", q_u, o_u);
  }
}
