// native side of vc.h: random inputs, checks on the compiled real code
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csetjmp>
#include <csignal>
#include <ctime>
#include <unistd.h>
#include <random>
#include <map>
#include <sstream>
#include <mpc-walkgen/qpsolverfactory.h>

namespace MPCWalkgen
{
  struct VcRun
  {
    std::mt19937_64 rng;
    std::ostringstream log;
    jmp_buf jb;
    std::string fail;
    unsigned long qpseed;
  };
  inline VcRun& vcr() { static VcRun r; return r; }
  struct VcReg { const char* name; void (*fn)(); };
  inline std::vector<VcReg>& vcregs() { static std::vector<VcReg> v; return v; }
  struct VcRegistrar { VcRegistrar(const char* n, void (*f)()) { VcReg r = {n, f}; vcregs().push_back(r); } };
#define VC_BOUNDED(name) VC_HARNESS(name)
#define VC_REPLAY(name) VC_HARNESS(name)
#define VC_HARNESS(name) void vch_##name(); static VcRegistrar vcreg_##name(#name, &vch_##name); void vch_##name()

  inline double vcu() { return std::uniform_real_distribution<double>(0., 1.)(vcr().rng); }
  inline void vclog(const char* n, double v) { vcr().log << "  " << n << " = " << v << "\n"; }
  inline double vcraw()
  {
    switch (vcr().rng() % 6)
    {
      case 0: return double(int(vcr().rng() % 7) - 3);
      case 1: return 0.25*double(int(vcr().rng() % 17) - 8);
      default: return 4.*vcu() - 2.;
    }
  }
  inline double vcReal(const char* name) { double v = vcraw(); vclog(name, v); return v; }
  inline double vcPos(const char* name)
  {
    double v = (vcr().rng() % 3) ? 0.05 + 1.95*vcu() : 0.125*double(1 + vcr().rng() % 16);
    vclog(name, v); return v;
  }
  inline double vcNonNeg(const char* name)
  {
    double v = (vcr().rng() % 4) ? 0.05 + 4.95*vcu() : double(vcr().rng() % 3);
    vclog(name, v); return v;
  }
  inline double vcRange(const char* name, double lo, double hi)
  {
    double v; switch (vcr().rng() % 8) { case 0: v = lo; break; case 1: v = hi; break; default: v = lo + (hi - lo)*vcu(); }
    vclog(name, v); return v;
  }
  inline int vcInt(const char* name, int lo, int hi)
  { int v = lo + int(vcr().rng() % (unsigned long)(hi - lo + 1)); vclog(name, v); return v; }
  inline int vcIndex(const char* name, int n)
  { if (n <= 0) longjmp(vcr().jb, 2); return vcInt(name, 0, n - 1); }
  inline bool vcBool(const char* name) { bool b = vcr().rng() % 2; vclog(name, b); return b; }
  inline MX vcMat(const char* name, int r, int c)
  {
    MX m(r, c); vcr().log << "  " << name << " =";
    for (int i = 0; i < r; ++i) { for (int j = 0; j < c; ++j) { m(i, j) = vcraw(); vcr().log << " " << m(i, j); } vcr().log << (c > 1 ? ";" : ""); }
    vcr().log << "\n"; return m;
  }
  inline VX vcVec(const char* name, int n) { return vcMat(name, n, 1); }
  inline V2 vcVec2(const char* name) { return vcMat(name, 2, 1); }
  inline V3 vcVec3(const char* name) { return vcMat(name, 3, 1); }
  inline V4 vcVec4(const char* name) { return vcMat(name, 4, 1); }
  inline VV2 vcPoints(const char* name, int n)
  {
    bool grid = vcr().rng() % 2;      // equal, aligned and axis-parallel points half of the time
    VV2 v;
    for (int i = 0; i < n; ++i)
    {
      V2 p = vcVec2(name);
      if (grid) { p = V2(double(int(p(0))), double(int(p(1)))); vcr().log << "  (rounded to " << p(0) << " " << p(1) << ")\n"; }
      v.push_back(p);
    }
    return v;
  }
  inline VV3 vcPoints3(const char* name, int n) { VV3 v; for (int i = 0; i < n; ++i) v.push_back(vcVec3(name)); return v; }
  inline void vcRequire(bool c) { if (!c) longjmp(vcr().jb, 2); }
  inline void vcEnsure(const char* name, bool c)
  { if (!c) { vcr().fail = std::string("postcondition '") + name + "' is false"; longjmp(vcr().jb, 1); } }
  inline bool vcClose(double a, double b)
  {
    if (a == b) return true;
    if (a != a && b != b) return true;
    return std::abs(a - b) <= 1e-6*(1. + std::max(std::abs(a), std::abs(b)));
  }
  inline void vcEnsureEq(const char* name, double a, double b)
  {
    if (!vcClose(a, b))
    {
      std::ostringstream s; s.precision(17);
      s << "postcondition '" << name << "': got " << a << ", contract says " << b;
      vcr().fail = s.str(); longjmp(vcr().jb, 1);
    }
  }
  inline void vcLemmaEq(const char* name, double a, double b) { vcEnsureEq(name, a, b); }
  inline void vcEnsureEqI(const char* name, long a, long b) { vcEnsureEq(name, double(a), double(b)); }
  inline void vcQuietly(bool) {}
  inline std::ostream* vcStream() { static std::ostringstream s; s.str(""); return &s; }
template <typename T> void vcForgetAgain(T&, const QPMatrices<double>&) {}
template <typename T> void vcForgetLike(T&, const T&, const T&, const QPMatrices<double>&) {}
  template <typename A, typename B> void vcSameMat(const char* name, const A& a, const B& b)
  {
    vcEnsureEqI((std::string(name) + " rows").c_str(), a.rows(), b.rows());
    vcEnsureEqI((std::string(name) + " cols").c_str(), a.cols(), b.cols());
    for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j)
    {
      std::ostringstream s; s << name << "(" << i << "," << j << ")";
      vcEnsureEq(s.str().c_str(), a(i, j), b(i, j));
    }
  }
  inline void vcSameM(const char* name, const MX& a, const MX& b) { vcSameMat(name, a, b); }
  inline void vcSameMrm(const char* name, const MXrm& a, const MXrm& b) { vcSameMat(name, a, b); }
  inline void vcSameV(const char* name, const VX& a, const VX& b) { vcSameMat(name, a, b); }
}

namespace MPCWalkgen
{
  inline VcQP& vcQP() { static VcQP q; return q; }
  inline void vcQPReset() { vcQP().solves = 0; }

  template <typename Scalar>
  class VcSolver : public QPSolver<Scalar>
  {
  public:
    VcSolver(int nv, int nc) : nv_(nv), nc_(nc), init_(false) {}
    bool solve(const QPMatrices<Scalar>& m, int maxIter, typename QPMatrices<Scalar>::VectorX& sol, bool warm, std::ostream*)
    {
      assert(m.dimensionsAreConsistent(nv_, nc_));
      VcQP& q = vcQP();
      if (!(init_ && warm)) { init_ = true; Q_ = m.Q; A_ = m.A; }
      q.m = m; q.m.Q = Q_; q.m.A = A_;
      q.warm = warm; q.maxIter = maxIter; q.nv = nv_; q.nc = nc_;
      std::mt19937_64 g(vcr().qpseed + 77777UL*(unsigned long)q.solves);
      q.ok = g() % 4 != 0;
      for (int i = 0; i < sol.size(); ++i) sol(i) = Scalar(double(g() % 2001)/1000. - 1.);
      q.sol = sol;
      ++q.solves;
      return q.ok;
    }
    int getNbVar() const { return nv_; }
    int getNbCtr() const { return nc_; }
  private:
    int nv_, nc_; bool init_;
    typename QPMatrices<Scalar>::MatrixXrm Q_, A_;
  };
  template <> QPSolver<double>* makeQPSolver<double>(int nv, int nc) { return new VcSolver<double>(nv, nc); }
}

extern "C" void __assert_fail(const char* expr, const char* file, unsigned line, const char* fn) throw()
{
  const char* f = strrchr(file, '/');
  MPCWalkgen::vcr().fail = std::string("assertion ") + expr + " tripped in " + fn + " (" + (f ? f + 1 : file) + ")";
  longjmp(MPCWalkgen::vcr().jb, strstr(file, "/eigen3/") ? 3 : 1);
}

namespace MPCWalkgen
{
  inline const char*& vccur() { static const char* c = ""; return c; }
  inline unsigned long& vctrial() { static unsigned long t = 0; return t; }
  inline void vcreport(unsigned long seed)
  {
    printf("FAIL %s seed=%lu trial=%lu\n %s\n inputs:\n%s", vccur(), seed, vctrial(), vcr().fail.c_str(), vcr().log.str().c_str());
    fflush(stdout);
  }
  inline unsigned long& vcseed() { static unsigned long t = 0; return t; }
  inline void vcsig(int s)
  {
    vcr().fail = s == SIGALRM ? "the code does not terminate (20 s)" : s == SIGSEGV ? "invalid memory access" : "the code aborts";
    vcreport(vcseed());
    _exit(1);
  }
  inline int vcmain(int argc, char** argv)
  {
    const char* want = argc > 1 ? argv[1] : "all";
    unsigned long seed = argc > 2 ? strtoul(argv[2], 0, 10) : 1;
    unsigned long trials = argc > 3 ? strtoul(argv[3], 0, 10) : 1000;
    double limit = argc > 4 ? atof(argv[4]) : 1e9;
    unsigned long first = argc > 5 ? strtoul(argv[5], 0, 10) : 0;
    signal(SIGSEGV, vcsig); signal(SIGABRT, vcsig); signal(SIGFPE, vcsig); signal(SIGBUS, vcsig); signal(SIGALRM, vcsig);
    vcseed() = seed;
    int rc = 0;
    for (size_t q = 0; q < vcregs().size(); ++q)
    {
      if (strcmp(want, "all") && strcmp(want, vcregs()[q].name)) continue;
      static unsigned long done, rejected; static bool bad;
      done = rejected = 0; bad = false;
      time_t t0 = time(0);
      vccur() = vcregs()[q].name;
      for (vctrial() = first; vctrial() < first + trials && !bad; ++vctrial())
      {
        if (difftime(time(0), t0) > limit) break;
        vcr().rng.seed(seed*1000003UL + vctrial()); vcr().log.str(""); vcr().log.precision(17); vcr().fail = "";
        vcr().qpseed = seed*7919UL + vctrial(); vcQPReset();
        alarm(20);
        int r = setjmp(vcr().jb);
        if (r == 0) { vcregs()[q].fn(); ++done; }
        else if (r == 2) ++rejected;
        else { bad = true; vcreport(seed); }
      }
      alarm(0);
      if (!bad) printf("PASS %s trials=%lu rejected=%lu\n", vcregs()[q].name, done, rejected); else rc = 1;
      fflush(stdout);
    }
    return rc;
  }
}
#define VC_MAIN() int main(int argc, char** argv) { return MPCWalkgen::vcmain(argc, argv); }
