// C01  Constant-jerk prediction matrices are exact for every horizon
#include <mpc-walkgen/tools.h>
#include <mpc-walkgen/lineardynamic.h>
#include <mpc-walkgen/constant.h>
#include "vc.h"

namespace MPCWalkgen
{
  typedef Tools::ConstantJerkDynamic<double> CJ;
  typedef LinearDynamic<double> LD;

  static void sizes(const LD& d, int N, int ns)
  {
    vcEnsureEqI("rows of S", d.S.rows(), N);
    vcEnsureEqI("cols of S", d.S.cols(), ns);
    vcEnsureEqI("rows of U", d.U.rows(), N);
    vcEnsureEqI("cols of U", d.U.cols(), N);
    vcEnsureEqI("rows of UT", d.UT.rows(), N);
    vcEnsureEqI("cols of UT", d.UT.cols(), N);
    vcEnsureEqI("rows of K", d.K.rows(), N);
    vcEnsureEqI("cols of K", d.K.cols(), 1);
    vcEnsureEqI("rows of Uinv", d.Uinv.rows(), N);
    vcEnsureEqI("cols of Uinv", d.Uinv.cols(), N);
    vcEnsureEqI("rows of UTinv", d.UTinv.rows(), N);
    vcEnsureEqI("cols of UTinv", d.UTinv.cols(), N);
  }

  // an arbitrary earlier content of the output argument must not show through
  static void dirty(LD& d)
  {
    int r = vcInt("old rows", 0, 4), c = vcInt("old cols", 0, 4);
    d.U = vcMat("old U", r, c);
    d.UT = vcMat("old UT", c, r);
    d.Uinv = vcMat("old Uinv", r, c);
    d.UTinv = vcMat("old UTinv", c, r);
    d.S = vcMat("old S", r, 3);
    d.K = vcVec("old K", r);
  }

  static void transposes(const LD& d, int i, int j)
  {
    vcEnsureEq("UT is the transpose of U", d.UT(j, i), d.U(i, j));
    vcEnsureEq("UTinv is the transpose of Uinv", d.UTinv(j, i), d.Uinv(i, j));
  }

  // one interval of length h with constant jerk: coefficient rows of position, velocity and acceleration with
  // respect to the initial state (column c) and to jerk j
  VC_HARNESS(third_order)
  {
    double S = vcPos("S"), T = vcPos("T");
    int N = vcInt("N", 1, 8);
    LD pos, vel, acc, jerk;
    dirty(pos); dirty(vel); dirty(acc); dirty(jerk);
    CJ::computePosDynamic(S, T, N, pos);
    CJ::computeVelDynamic(S, T, N, vel);
    CJ::computeAccDynamic(S, T, N, acc);
    CJ::computeJerkDynamic(N, jerk);
    sizes(pos, N, 3); sizes(vel, N, 3); sizes(acc, N, 3); sizes(jerk, N, 3);
    int i = vcIndex("i", N), j = vcIndex("j", N), c = vcIndex("c", 3);
    transposes(pos, i, j); transposes(vel, i, j); transposes(acc, i, j); transposes(jerk, i, j);
    vcEnsureEq("K pos", pos.K(i), 0.);
    vcEnsureEq("K vel", vel.K(i), 0.);
    vcEnsureEq("K acc", acc.K(i), 0.);
    vcEnsureEq("K jerk", jerk.K(i), 0.);
    vcEnsureEq("jerk S", jerk.S(i, c), 0.);
    vcEnsureEq("jerk U", jerk.U(i, j), i == j ? 1. : 0.);
    double h = i == 0 ? S : T;
    // coefficients at the previous sample (the initial state itself for the first one)
    double ps, vs, as, pu, vu, au;
    if (i == 0)
    {
      ps = c == 0 ? 1. : 0.; vs = c == 1 ? 1. : 0.; as = c == 2 ? 1. : 0.;
      pu = 0.; vu = 0.; au = 0.;
    }
    else
    {
      ps = pos.S(i - 1, c); vs = vel.S(i - 1, c); as = acc.S(i - 1, c);
      pu = pos.U(i - 1, j); vu = vel.U(i - 1, j); au = acc.U(i - 1, j);
    }
    double d = i == j ? 1. : 0.;
    vcEnsureEq("position wrt initial state", pos.S(i, c), ps + h*vs + h*h/2.*as);
    vcEnsureEq("velocity wrt initial state", vel.S(i, c), vs + h*as);
    vcEnsureEq("acceleration wrt initial state", acc.S(i, c), as);
    vcEnsureEq("position wrt jerk", pos.U(i, j), pu + h*vu + h*h/2.*au + d*h*h*h/6.);
    vcEnsureEq("velocity wrt jerk", vel.U(i, j), vu + h*au + d*h*h/2.);
    vcEnsureEq("acceleration wrt jerk", acc.U(i, j), au + d*h);
  }

  VC_HARNESS(second_order)
  {
    double S = vcPos("S"), T = vcPos("T");
    int N = vcInt("N", 1, 8);
    LD pos, vel;
    dirty(pos); dirty(vel);
    CJ::computeOrder2PosDynamic(S, T, N, pos);
    CJ::computeOrder2VelDynamic(S, T, N, vel);
    sizes(pos, N, 2); sizes(vel, N, 2);
    int i = vcIndex("i", N), j = vcIndex("j", N), c = vcIndex("c", 2);
    transposes(pos, i, j); transposes(vel, i, j);
    vcEnsureEq("K pos", pos.K(i), 0.);
    vcEnsureEq("K vel", vel.K(i), 0.);
    double h = i == 0 ? S : T;
    double ps, vs, pu, vu;
    if (i == 0)
    {
      ps = c == 0 ? 1. : 0.; vs = c == 1 ? 1. : 0.; pu = 0.; vu = 0.;
    }
    else
    {
      ps = pos.S(i - 1, c); vs = vel.S(i - 1, c); pu = pos.U(i - 1, j); vu = vel.U(i - 1, j);
    }
    double d = i == j ? 1. : 0.;
    vcEnsureEq("position wrt initial state", pos.S(i, c), ps + h*vs);
    vcEnsureEq("velocity wrt initial state", vel.S(i, c), vs);
    vcEnsureEq("position wrt acceleration", pos.U(i, j), pu + h*vu + d*h*h/2.);
    vcEnsureEq("velocity wrt acceleration", vel.U(i, j), vu + d*h);
  }

  VC_HARNESS(cop)
  {
    double S = vcPos("S"), T = vcPos("T");
    int N = vcInt("N", 1, 8);
    double h = vcReal("height"), gx = vcReal("gravityX"), gz = vcReal("gravityZ");
    double mass = vcReal("mass"), total = vcReal("total mass");
    vcRequire(std::abs(gz) > Constant<double>::EPSILON);
    vcRequire(total > Constant<double>::EPSILON && mass >= 0. && mass <= total);
    LD pos, acc, cop;
    dirty(cop);
    CJ::computePosDynamic(S, T, N, pos);
    CJ::computeAccDynamic(S, T, N, acc);
    CJ::computeCopDynamic(S, T, N, cop, h, gx, gz, mass, total);
    sizes(cop, N, 3);
    int i = vcIndex("i", N), j = vcIndex("j", N), c = vcIndex("c", 3);
    transposes(cop, i, j);
    double m = mass/total;
    vcEnsureEq("cop wrt initial state", cop.S(i, c), m*(pos.S(i, c) - h/gz*acc.S(i, c)));
    vcEnsureEq("cop wrt jerk", cop.U(i, j), m*(pos.U(i, j) - h/gz*acc.U(i, j)));
    vcEnsureEq("cop constant", cop.K(i), -m*h/gz*gx);
  }

  VC_HARNESS(acceleration_inverse)
  {
    double S = vcPos("S"), T = vcPos("T");
    int N = vcInt("N", 1, 8);
    LD acc;
    dirty(acc);
    CJ::computeAccDynamic(S, T, N, acc);
    int i = vcIndex("i", N), j = vcIndex("j", N);
    double l = 0., r = 0.;
    for (int k = 0; k < N; ++k) { l += acc.Uinv(i, k)*acc.U(k, j); r += acc.U(i, k)*acc.Uinv(k, j); }
    vcEnsureEq("Uinv*U is the identity", l, i == j ? 1. : 0.);
    vcEnsureEq("U*Uinv is the identity", r, i == j ? 1. : 0.);
  }

  VC_HARNESS(order2_velocity_inverse)
  {
    double S = vcPos("S"), T = vcPos("T");
    int N = vcInt("N", 1, 8);
    LD acc;
    dirty(acc);
    CJ::computeOrder2VelDynamic(S, T, N, acc);
    int i = vcIndex("i", N), j = vcIndex("j", N);
    double l = 0., r = 0.;
    for (int k = 0; k < N; ++k) { l += acc.Uinv(i, k)*acc.U(k, j); r += acc.U(i, k)*acc.Uinv(k, j); }
    vcEnsureEq("Uinv*U is the identity", l, i == j ? 1. : 0.);
    vcEnsureEq("U*Uinv is the identity", r, i == j ? 1. : 0.);
  }

  VC_HARNESS(jerk_inverse)
  {
    int N = vcInt("N", 1, 8);
    LD d;
    dirty(d);
    CJ::computeJerkDynamic(N, d);
    int i = vcIndex("i", N), j = vcIndex("j", N);
    double l = 0., r = 0.;
    for (int k = 0; k < N; ++k) { l += d.Uinv(i, k)*d.U(k, j); r += d.U(i, k)*d.Uinv(k, j); }
    vcEnsureEq("Uinv*U is the identity", l, i == j ? 1. : 0.);
    vcEnsureEq("U*Uinv is the identity", r, i == j ? 1. : 0.);
  }

  // the inverses obtained from an LU decomposition: the inverse with small entries replaced by zero
  static double cut(double x) { return std::abs(x) < Constant<double>::EPSILON ? 0. : x; }

  VC_HARNESS(lu_inverses)
  {
    double S = vcPos("S"), T = vcPos("T");
    int N = vcInt("N", 1, 6);
    double h = vcReal("height"), gx = vcReal("gravityX"), gz = vcReal("gravityZ");
    double mass = vcPos("mass"), total = vcReal("total mass");
    vcRequire(std::abs(gz) > Constant<double>::EPSILON);
    vcRequire(total > Constant<double>::EPSILON && mass <= total);
    LD pos, vel, pos2, cop;
    CJ::computePosDynamic(S, T, N, pos);
    CJ::computeVelDynamic(S, T, N, vel);
    CJ::computeOrder2PosDynamic(S, T, N, pos2);
    CJ::computeCopDynamic(S, T, N, cop, h, gx, gz, mass, total);
    int i = vcIndex("i", N), j = vcIndex("j", N);
    Eigen::FullPivLU<MX> lp(pos.U), lv(vel.U), l2(pos2.U), lc(cop.U);
    MX ip = lp.inverse(), iv = lv.inverse(), i2 = l2.inverse(), ic = lc.inverse();
    vcEnsureEq("position inverse", pos.Uinv(i, j), cut(ip(i, j)));
    vcEnsureEq("velocity inverse", vel.Uinv(i, j), cut(iv(i, j)));
    vcEnsureEq("second-order position inverse", pos2.Uinv(i, j), cut(i2(i, j)));
    vcEnsureEq("cop inverse", cop.Uinv(i, j), cut(ic(i, j)));
  }

  VC_HARNESS(update_state)
  {
    double T = vcPos("T"), jerk = vcReal("jerk");
    VX x = vcVec("state", 3);
    double p = x(0), v = x(1), a = x(2);
    CJ::updateState(jerk, T, x);
    vcEnsureEqI("state size", x.rows(), 3);
    vcEnsureEq("position", x(0), p + T*v + T*T/2.*a + T*T*T/6.*jerk);
    vcEnsureEq("velocity", x(1), v + T*a + T*T/2.*jerk);
    vcEnsureEq("acceleration", x(2), a + T*jerk);
  }

  // the one-step update agrees with the first row of the predictions
  VC_HARNESS(update_agrees_with_prediction)
  {
    double S = vcPos("S"), T = vcPos("T");
    int N = vcInt("N", 1, 6);
    LD pos, vel, acc;
    CJ::computePosDynamic(S, T, N, pos);
    CJ::computeVelDynamic(S, T, N, vel);
    CJ::computeAccDynamic(S, T, N, acc);
    VX x = vcVec("state", 3), u = vcVec("jerks", N);
    VX pp = pos.S*x + pos.U*u + pos.K;
    VX pv = vel.S*x + vel.U*u + vel.K;
    VX pa = acc.S*x + acc.U*u + acc.K;
    CJ::updateState(u(0), S, x);
    vcEnsureEq("position", pp(0), x(0));
    vcEnsureEq("velocity", pv(0), x(1));
    vcEnsureEq("acceleration", pa(0), x(2));
  }
}
