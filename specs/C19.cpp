// C19  The QP solver wrapper reports success exactly when the solver succeeded
//
// The state of a wrapper is whether its solver has been initialised.  A new one is not (`created'), every solve leaves
// it initialised (`keeps'), and from either state a solve hands over the program and reports the answer (`solve').
#include "vc.h"
#include "vc_pre.h"
#include "QProblem.hpp"
namespace MPCWalkgen
{
// the wrapper and the factory themselves, from /repo/qpsolver
#include <src/qpsolver_qpoases.hxx>
  template class QPOasesSolver<double>;
}
#include <src/qpsolver_qpoases_double.cpp>

namespace MPCWalkgen
{
  typedef QPOasesSolver<double> Wrapper;

  static QPMatrices<double> anyProgram(int nv, int nc)
  {
    QPMatrices<double> m;
    m.Q = vcMat("Q", nv, nv); m.p = vcVec("p", nv); m.xl = vcVec("xl", nv); m.xu = vcVec("xu", nv);
    m.A = vcMat("A", nc, nv); m.bl = vcVec("bl", nc); m.bu = vcVec("bu", nc);
    return m;
  }

  static void solves(bool before, bool warm, std::ostream* os)
  {
    int nv = vcInt("variables", 1, 4), nc = vcInt("constraints", 0, 4), most = vcInt("iterations", 1, 1000);
    Wrapper w(nv, nc);
    vcOasesReset();
    if (before)
    {
      // any earlier solve; by `keeps', any number of them
      QPMatrices<double> e(anyProgram(nv, nc));
      VX s(vcVec("earlier memory", nv));
      w.solve(e, most, s, vcBool("warm start earlier"), os);
    }
    QPMatrices<double> m(anyProgram(nv, nc)), c(m);
    VX sol(vcVec("memory", nv));
    vcOasesReset();
    bool r = w.solve(m, most, sol, warm, os);

    const VcOases& o = vcOases();
    vcEnsureEqI("one call of the solver", o.inits + o.hots, 1);
    vcEnsureEqI("solver of the right size", o.nv, nv);
    vcEnsureEqI("solver of the right number of constraints", o.nc, nc);
    vcEnsure("warm start only when asked to", o.hots == 0 || warm);
    vcEnsure("warm start only once initialised", o.hots == 0 || before);
    vcSameV("gradient", o.m.p, c.p);
    vcSameV("lower bounds", o.m.xl, c.xl);
    vcSameV("upper bounds", o.m.xu, c.xu);
    vcSameV("lower bounds of the constraints", o.m.bl, c.bl);
    vcSameV("upper bounds of the constraints", o.m.bu, c.bu);
    if (o.inits == 1)
    {
      vcSameMrm("Hessian", o.m.Q, c.Q);
      vcSameMrm("constraint matrix", o.m.A, c.A);
    }
    vcEnsureEqI("iteration limit", o.nWSR, most);
    vcEnsure("success exactly when the solver succeeded", r == (o.ret == vcqp::SUCCESSFUL_RETURN));
    vcEnsureEqI("size of the solution", sol.rows(), nv);
    if (r) vcSameV("solution", sol, o.primal);
    vcSameMrm("caller's Hessian", m.Q, c.Q);
    vcSameMrm("caller's constraint matrix", m.A, c.A);
  }

  VC_HARNESS(first_solve) { solves(false, vcBool("warm start"), nullptr); }
  VC_HARNESS(first_solve_with_diagnostics) { solves(false, vcBool("warm start"), vcStream()); }
  VC_HARNESS(later_solve) { solves(true, vcBool("warm start"), nullptr); }
  VC_HARNESS(later_solve_with_diagnostics) { solves(true, vcBool("warm start"), vcStream()); }

  VC_HARNESS(created)
  {
    int nv = vcInt("variables", 1, 4), nc = vcInt("constraints", 0, 4);
    Wrapper w(nv, nc);
    vcEnsureEqI("variables", w.getNbVar(), nv);
    vcEnsureEqI("constraints", w.getNbCtr(), nc);
  }

  VC_HARNESS(made_by_the_factory)
  {
    int nv = vcInt("variables", 1, 4), nc = vcInt("constraints", 0, 4);
    QPSolver<double>* s = makeQPSolverDouble(nv, nc);
    vcEnsureEqI("variables", s->getNbVar(), nv);
    vcEnsureEqI("constraints", s->getNbCtr(), nc);
  }

  // a wrapper after two solves is one after the second alone
  VC_HARNESS(keeps)
  {
    int nv = vcInt("variables", 1, 4), nc = vcInt("constraints", 0, 4), most = vcInt("iterations", 1, 1000);
    Wrapper a(nv, nc), b(nv, nc);
    QPMatrices<double> m(anyProgram(nv, nc)), e(anyProgram(nv, nc));
    VX sol(vcVec("memory", nv));
    bool warm = vcBool("warm start");
    a.solve(e, most, sol, vcBool("warm start earlier"));
    a.solve(m, most, sol, warm);
    b.solve(m, most, sol, warm);
#ifndef VC_NATIVE
    vcSameState("state", a, b);
#endif
    vcEnsureEqI("variables", a.getNbVar(), nv);
    vcEnsureEqI("constraints", a.getNbCtr(), nc);
  }

  VC_REPLAY(history)
  {
    int nv = vcInt("variables", 1, 4), nc = vcInt("constraints", 0, 4), n = vcInt("solves", 1, 8);
    Wrapper w(nv, nc);
    for (int i = 0; i < n; ++i)
    {
      QPMatrices<double> m(anyProgram(nv, nc));
      VX sol(vcVec("memory", nv));
      bool warm = vcBool("warm start"), os = vcBool("diagnostics");
      int most = vcInt("iterations", 1, 1000);
      vcOasesReset();
      bool r = w.solve(m, most, sol, warm, os ? vcStream() : nullptr);
      vcEnsure("warm start", vcOases().hots == 0 || (warm && i > 0));
      vcEnsureEqI("iteration limit", vcOases().nWSR, most);
      vcEnsure("verdict", r == (vcOases().ret == vcqp::SUCCESSFUL_RETURN));
      if (r) vcSameV("solution", sol, vcOases().primal);
    }
  }
}
