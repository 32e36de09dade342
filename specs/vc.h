// Vocabulary of the contract harnesses.
//
// A harness is a C++ function that draws arbitrary inputs, states a precondition (vcRequire), calls the real
// library code and states the postcondition (vcEnsure / vcEnsureEq / vcSame).  The VC generator (vc/) executes it
// symbolically together with the real code: every vcInt/vcReal/vcVec/... is then an unconstrained symbolic value
// of unbounded size.  The same file is compiled natively (vc_native.h) to replay a failed obligation on the real
// code; nativeHi and friends only steer that replay and mean nothing to the verifier.
#pragma once
#include <vector>
#include <iosfwd>
#include <string>
#include <cmath>
#include <Eigen/Core>
#include <Eigen/LU>
#include <Eigen/StdVector>
#include <mpc-walkgen/qpsolver.h>

namespace MPCWalkgen
{
  typedef Eigen::Matrix<double, Eigen::Dynamic, 1> VX;
  typedef Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic> MX;
  typedef Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> MXrm;
  typedef Eigen::Matrix<double, 2, 1> V2;
  typedef Eigen::Matrix<double, 3, 1> V3;
  typedef Eigen::Matrix<double, 4, 1> V4;
  typedef std::vector<V2, Eigen::aligned_allocator<V2> > VV2;
  typedef std::vector<V3> VV3;

  double vcReal(const char* name);                       // any real
  double vcPos(const char* name);                        // any real > 0
  double vcNonNeg(const char* name);                     // any real >= 0
  double vcRange(const char* name, double lo, double hi);// lo <= x <= hi
  int vcInt(const char* name, int lo, int nativeHi);     // any integer >= lo
  int vcIndex(const char* name, int n);                  // 0 <= i < n
  bool vcBool(const char* name);
  VX vcVec(const char* name, int n);
  MX vcMat(const char* name, int r, int c);
  V2 vcVec2(const char* name);
  V3 vcVec3(const char* name);
  V4 vcVec4(const char* name);
  VV2 vcPoints(const char* name, int n);
  VV3 vcPoints3(const char* name, int n);
  void vcRequire(bool c);
  void vcEnsure(const char* name, bool c);
  void vcEnsureEq(const char* name, double a, double b);
  void vcLemmaEq(const char* name, double a, double b);   // ensured, and used afterwards
  void vcEnsureEqI(const char* name, long a, long b);

  // The QP solver is an external dependency: its contract is "any answer".  Every solve records what it was given
  // and answers with an arbitrary verdict and vector, a function of the number of solves since the last vcQPReset.
  struct VcQP
  {
    QPMatrices<double> m;   // the program the solver works on (Q and A are those of its first call when it is warm-started)
    bool warm;
    int maxIter;
    int nv, nc;             // sizes the solver was made for
    int solves;             // number of solves so far
    VX sol;                 // what it answered
    bool ok;
  };
  VcQP& vcQP();
  void vcQPReset();

  // whole-object equality (every field, private ones included, for the verifier; the public observers natively)
  template <typename T> void vcSame(const char* name, const T& a, const T& b);
  // the same, as the inductive step of a state invariant: a difference in private state alone is not a violation, it
  // only leaves the invariant unproved (natively checked over random histories instead)
  template <typename T> void vcSameState(const char* name, const T& a, const T& b);
  // an arbitrary value of a class: every field unconstrained
  template <typename T> T vcAny(const char* name);
  // w in any state it may reach from the one it is in by any number of the calls that lead from `before' to `after':
  // everything such a call changes gets an arbitrary value; an initialised QP solver holds the matrices of m.
  // vcSameState leaves those parts out from then on, but for the sizes that the call does not change
  template <typename T> void vcForgetLike(T& w, const T& after, const T& before, const QPMatrices<double>& m);
  // the same parts of another object
  template <typename T> void vcForgetAgain(T& w, const QPMatrices<double>& m);
  // between vcQuietly(true) and vcQuietly(false) no obligation is generated: for canonical constructions whose
  // obligations another harness discharges
  void vcQuietly(bool on);
  std::ostream* vcStream();                              // somewhere to write to
  // elementwise equality of two matrices, sizes included
  void vcSameM(const char* name, const MX& a, const MX& b);
  void vcSameMrm(const char* name, const MXrm& a, const MXrm& b);
  void vcSameV(const char* name, const VX& a, const VX& b);
}

// precondition that holds for every index
#define VC_FORALL(i, n, c) for (int i = 0; i < (n); ++i) vcRequire(c)

#ifdef VC_NATIVE
#include "vc_native.h"
#define VC_NATIVELY(x) x
#else
#define VC_NATIVELY(x)
#define VC_HARNESS(name) void vch_##name()
#define VC_BOUNDED(name) void vcb_##name()   // compiled and run only: bounded stand-in, nothing is proved
#define VC_REPLAY(name) void vcr_##name()    // compiled and run only, when a proof is missing: random histories
#endif
