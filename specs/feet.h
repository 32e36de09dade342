// A feet supervisor in any state.  For the verifier it is an abstract value behind its contract (vc/feet.py); natively
// it is a real one after a random history of commands and updates.
#pragma once
#include <mpc-walkgen/humanoid_feet_supervisor.h>
#include "models.h"
#include "sums.h"

namespace MPCWalkgen
{
  typedef HumanoidFeetSupervisor<double> Feet;

#ifdef VC_NATIVE
  inline Poly vcBox(const char* name, bool flat)
  {
    double w = 0.05 + vcu(), h = 0.05 + vcu(), a = 0.1 + 0.8*vcu(), b = 0.1 + 0.8*vcu(), x = vcu() - 0.5, y = vcu() - 0.5;
    VV2 p;
    p.push_back(V2(x, y)); p.push_back(V2(x + w, y));
    if (!flat) p.push_back(V2(x + w*(1. + 0.5*a), y + h*0.5));
    p.push_back(V2(x + w, y + h));
    if (!flat) p.push_back(V2(x + w*b, y + 1.4*h));
    p.push_back(V2(x, y + h));
    vclog(name, p.size());
    return Poly(p);
  }
  template <typename F> inline void vcConfigure(F& f, int N, double T)
  {
    f.setLeftFootCopConvexPolygon(vcBox("left CoP polygon", vcBool("box")));
    f.setRightFootCopConvexPolygon(vcBox("right CoP polygon", vcBool("box")));
    f.setLeftFootKinematicConvexPolygon(vcBox("left kinematic polygon", vcBool("box")));
    f.setRightFootKinematicConvexPolygon(vcBox("right kinematic polygon", vcBool("box")));
    f.setLeftFootStateX(vcVec("left foot x", 3)); f.setLeftFootStateY(vcVec("left foot y", 3));
    f.setRightFootStateX(vcVec("right foot x", 3)); f.setRightFootStateY(vcVec("right foot y", 3));
    f.setLeftFootMaxHeight(vcPos("left height")); f.setRightFootMaxHeight(vcPos("right height"));
    f.setStepPeriod(T*vcInt("samples per step", 2, std::min(5, N)));
    f.setInitialDoubleSupportLength(T*vcInt("samples per double support", 1, 4));
  }
  inline Feet vcFeet(const char*, double& fb)
  {
    int N = vcInt("samples of the supervisor", 2, 7), q = vcInt("feedback periods per sample", 1, 4);
    double T = 0.05*vcInt("period in 50 ms", 1, 8);
    fb = T/q;
    Feet f(N, T);
    vcConfigure(f, N, T);
    VX v(VX::Zero(2*N));
    int n = vcInt("updates", 0, 30);
    bool move = false;
    for (int i = 0; i < n; ++i)
    {
      if (vcu() < 0.15) { move = !move; f.setMove(move); vclog("move command", move); }
      f.updateTimeline(v, fb);
      f.updateFeetStates(v.segment(2*N, 2*f.getNbPreviewedSteps()), fb);
    }
    f.updateTimeline(v, fb);
    vclog("previewed steps", f.getNbPreviewedSteps());
    return f;
  }
#else
  static Feet vcFeet(const char* name, double& fb)
  {
    fb = vcPos("feedback period of the supervisor");
    return vcAny<Feet>(name);
  }
#endif

  // a pendulum with the horizon of the supervisor
  static LipP lipFor(const Feet& f, double fb)
  {
    LipP p(anyLip());
    p.n = f.getNbSamples(); p.T = f.getSamplingPeriod(); p.fb = fb;
    vcRequire(periodsOk(p.T, p.fb));
    vcRequire(1 <= f.getNbOfCallsBeforeNextSample() && f.getNbOfCallsBeforeNextSample() <= feedbacks(p.T, p.fb));
    return p;
  }

  // A function built on a supervisor and a pendulum, possibly queried, before both change to an arbitrary new state.
#define VC_HUM(EARLIER) \
    double fb0, fb; \
    Feet f0(vcFeet("earlier supervisor", fb0)), f1(vcFeet("supervisor", fb)); \
    LipP p0(lipFor(f0, fb0)), p(lipFor(f1, fb)); \
    Feet f(f0); \
    Lip m(mkLip(p0)); \
    EARLIER; \
    f = f1; m = mkLip(p); \
    int N = f.getNbSamples(), M = f.getNbPreviewedSteps()
}
