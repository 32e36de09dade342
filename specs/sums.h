// Mathematical sums over prediction matrices, used by the specifications of the objectives and constraints.
#pragma once
#include "vc.h"
#include <mpc-walkgen/lineardynamic.h>

namespace MPCWalkgen
{
  // entry of the prediction at sample i from state s and controls x(o .. o+N-1)
  static double predict(const LinearDynamic<double>& d, int i, const VX& s, const VX& x, int o, int N)
  {
    double r = d.K(i);
    for (int c = 0; c < d.S.cols(); ++c) r += d.S(i, c)*s(c);
    for (int j = 0; j < N; ++j) r += d.U(i, j)*x(o + j);
    return r;
  }

  // sum over the samples of a(i, k)*b(i, l)
  static double gram(const MX& a, const MX& b, int k, int l, int N)
  {
    double r = 0.;
    for (int i = 0; i < N; ++i) r += a(i, k)*b(i, l);
    return r;
  }
}
