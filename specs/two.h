// A pendulum and a base with the same horizon, in any state, and a function of both that was built, and possibly
// queried, with an earlier configuration.
#pragma once
#include "models.h"
#include "sums.h"

namespace MPCWalkgen
{
  struct TwoP { LipP c; BaseP b; };
  static TwoP anyTwo()
  {
    TwoP t;
    t.c = anyLip(); t.b = anyBase();
    t.b.n = t.c.n; t.b.T = t.c.T;
    return t;
  }
#define VC_TWO \
    TwoP t0 = anyTwo(), t = anyTwo(); \
    Lip c(mkLip(t0.c)); \
    Base b(mkBase(t0.b))
#define VC_TWO_RECONFIGURED \
    c = mkLip(t.c); b = mkBase(t.b); \
    int N = t.c.n; \
    (void)N
#define VC_TWO_NEW_STATE \
    VX cx(vcVec("new CoM x", 3)), cy(vcVec("new CoM y", 3)), bx(vcVec("new base x", 3)), by(vcVec("new base y", 3)); \
    c.setStateX(cx); c.setStateY(cy); b.setStateX(bx); b.setStateY(by)
}
