// The contract of the external solver (qpOASES is not available here): any answer.  Every call records what it was
// given; the return value and the primal solution are arbitrary; the iteration limit is an in-out argument; asking for
// the primal solution of an unsolved problem leaves the caller's memory alone or not.  For the verifier the bodies
// below are replaced by the same contract in vc/contracts.py.
#pragma once
#include <mpc-walkgen/qpsolver.h>

namespace MPCWalkgen
{
  // what the solver of a wrapper was given
  struct VcOases
  {
    QPMatrices<double> m;
    int nv, nc;             // sizes of the solver that was called last
    int inits, hots;        // calls so far
    bool early;             // warm start before any initialisation
    int nWSR;               // iteration limit given
    int ret;                // answer
    Eigen::Matrix<double, Eigen::Dynamic, 1> primal;
  };
  VcOases& vcOases();
  void vcOasesReset();

  namespace vcqp
  {
    enum PrintLevel { PL_DEBUG_ITER = -2, PL_TABULAR, PL_NONE, PL_LOW, PL_MEDIUM, PL_HIGH };
    enum BooleanType { BT_FALSE, BT_TRUE };
    enum returnValue
    {
      TERMINAL_LIST_ELEMENT = -1, SUCCESSFUL_RETURN = 0, RET_DIV_BY_ZERO = 1, RET_INIT_FAILED = 33,
      RET_INIT_FAILED_INFEASIBILITY = 37, RET_INIT_FAILED_UNBOUNDEDNESS = 38, RET_HOTSTART_FAILED = 46,
      RET_QP_NOT_SOLVED = 56, RET_QP_UNBOUNDED = 60, RET_QP_INFEASIBLE = 61, RET_MAX_NWSR_REACHED = 64
    };
    typedef double real_t;

    class QProblem
    {
    public:
      QProblem(int nv, int nc) : nv_(nv), nc_(nc), ready_(false) {}
      returnValue setPrintLevel(PrintLevel) { return SUCCESSFUL_RETURN; }
      returnValue init(const real_t* const H, const real_t* const g, const real_t* const A, const real_t* const lb,
                       const real_t* const ub, const real_t* const lbA, const real_t* const ubA, int& nWSR,
                       real_t* const cputime = 0)
#ifdef VC_NATIVE
      {
        VcOases& o = vcOases();
        o.m.Q = Eigen::Map<const QPMatrices<double>::MatrixXrm>(H, nv_, nv_);
        o.m.A = Eigen::Map<const QPMatrices<double>::MatrixXrm>(A, nc_, nv_);
        ++o.inits;
        ready_ = true;
        return answer(g, lb, ub, lbA, ubA, nWSR);
      }
#else
      ;
#endif
      returnValue hotstart(const real_t* const g, const real_t* const lb, const real_t* const ub, const real_t* const lbA,
                           const real_t* const ubA, int& nWSR, real_t* const cputime = 0)
#ifdef VC_NATIVE
      {
        ++vcOases().hots;
        if (!ready_) vcOases().early = true;
        return answer(g, lb, ub, lbA, ubA, nWSR);
      }
#else
      ;
#endif
      returnValue getPrimalSolution(real_t* const x) const
#ifdef VC_NATIVE
      {
        VcOases& o = vcOases();
        bool ok = o.ret == SUCCESSFUL_RETURN;
        if (ok || vcu() < 0.5) for (int i = 0; i < nv_; ++i) x[i] = o.primal(i);
        return ok ? SUCCESSFUL_RETURN : RET_QP_NOT_SOLVED;
      }
#else
      ;
#endif
      int getNV() const { return nv_; }
      int getNC() const { return nc_; }

    private:
      int nv_, nc_;
      bool ready_;
#ifdef VC_NATIVE
      returnValue answer(const real_t* g, const real_t* lb, const real_t* ub, const real_t* lbA, const real_t* ubA, int& nWSR)
      {
        typedef Eigen::Map<const QPMatrices<double>::VectorX> V;
        static const int codes[] = {0, 0, 0, 1, -1, 33, 37, 38, 46, 56, 60, 61, 64};
        VcOases& o = vcOases();
        o.nv = nv_; o.nc = nc_;
        o.m.p = V(g, nv_); o.m.xl = V(lb, nv_); o.m.xu = V(ub, nv_); o.m.bl = V(lbA, nc_); o.m.bu = V(ubA, nc_);
        o.nWSR = nWSR;
        nWSR = int(nWSR*vcu());
        o.ret = codes[int(vcu()*12.99)];
        o.primal.resize(nv_);
        for (int i = 0; i < nv_; ++i) o.primal(i) = vcu() - 0.5;
        return returnValue(o.ret);
      }
#endif
    };
  }
#ifdef VC_NATIVE
  inline VcOases& vcOases() { static VcOases o; return o; }
  inline void vcOasesReset() { VcOases& o = vcOases(); o.inits = o.hots = 0; o.early = false; }
#endif
}
namespace qpOASES = MPCWalkgen::vcqp;
