// C14  The feet supervisor keeps a consistent walking timeline
//
// The histories are those of a user: timeline update, foot states update with the previewed steps that were chosen
// (here: any), start and stop commands at any moment.
#include "feet.h"

namespace MPCWalkgen
{
  static bool near(double a, double b, double tol) { return std::abs(a - b) <= tol*(1. + std::abs(a) + std::abs(b)); }
  static int other(int phase) { return phase == Phase<double>::leftSS ? Phase<double>::rightSS : Phase<double>::leftSS; }

  // ---- the pieces of an update, for all sizes and values
  VC_HARNESS(landed_step_is_dropped)
  {
    int N = vcInt("samples", 1, 6), m = vcInt("steps", 1, 5), k = vcIndex("entry", 2*N + 2*m - 2);
    Feet f(N, 1.);
    VX v(vcVec("solution", 2*N + 2*m)), old(v);
    f.shortenStepVec(v);
    vcEnsureEqI("size", v.rows(), 2*N + 2*m - 2);
    vcEnsureEq("entry", v(k), old(k < 2*N ? k : k < 2*N + m - 1 ? k + 1 : k + 2));
  }

  VC_HARNESS(next_phase)
  {
    Feet f(vcInt("samples", 1, 6), 1.);
    Phase<double> last;
    bool ds = vcBool("double support"), left = vcBool("left support");
    last.phaseType_ = ds ? Phase<double>::DS : left ? Phase<double>::leftSS : Phase<double>::rightSS;
    bool move = vcBool("move");
    f.setMove(move);
    f.stepPeriod_ = vcPos("step period"); f.DSPeriod_ = vcPos("double support");
    int steps = vcInt("previewed steps", 0, 5);
    f.nbPreviewedSteps_ = steps;
    f.processFSM(last);
    vcEnsureEqI("a single support ends with a step", f.nbPreviewedSteps_, ds ? steps : steps + 1);
    vcEnsureEqI("next phase", f.phase_.phaseType_, !move ? Phase<double>::DS : left && !ds ? Phase<double>::rightSS : Phase<double>::leftSS);
    vcEnsureEq("its duration", f.phase_.duration_, move ? f.stepPeriod_ : f.DSPeriod_);
  }

  VC_HARNESS(support_foot)
  {
    Feet f(vcInt("samples", 1, 6), 1.);
    bool ds = vcBool("double support"), left = vcBool("left support");
    f.timeline_.front().phaseType_ = ds ? Phase<double>::DS : left ? Phase<double>::leftSS : Phase<double>::rightSS;
    VX lx(vcVec("left x", 3)), ly(vcVec("left y", 3)), rx(vcVec("right x", 3)), ry(vcVec("right y", 3));
    f.setLeftFootStateX(lx); f.setLeftFootStateY(ly); f.setRightFootStateX(rx); f.setRightFootStateY(ry);
    bool move = vcBool("move");
    f.setMove(move);
    int k = vcIndex("entry", 3);
    VX x(f.getSupportFootStateX()), y(f.getSupportFootStateY());
    vcEnsureEq("x", x(k), !ds && !left ? rx(k) : !ds || move ? lx(k) : (rx(k) + lx(k))/2.);
    vcEnsureEq("y", y(k), !ds && !left ? ry(k) : !ds || move ? ly(k) : (ry(k) + ly(k))/2.);
    vcEnsure("double support", f.isInDS() == ds);
  }

  static void flight(Phase<double>::PhaseType phase)
  {
    int N = vcInt("samples", 1, 6), m = vcInt("steps", 1, 5);
    double T = vcPos("period"), fb = vcPos("feedback period");
    Feet f(N, T);
    f.timeline_.front().phaseType_ = phase;
    double D = T + vcPos("flight"), t = vcPos("time to the next phase");
    vcRequire(t > Constant<double>::EPSILON);
    f.timeline_.front().duration_ = D;
    f.timeToNextPhase_ = t;
    f.nbPreviewedSteps_ = m;
    VX lx(vcVec("left x", 3)), ly(vcVec("left y", 3)), lz(vcVec("left z", 3)), rx(vcVec("right x", 3)), ry(vcVec("right y", 3)), rz(vcVec("right z", 3));
    f.setLeftFootStateX(lx); f.setLeftFootStateY(ly); f.setLeftFootStateZ(lz);
    f.setRightFootStateX(rx); f.setRightFootStateY(ry); f.setRightFootStateZ(rz);
    double h = vcPos("left height"), g = vcPos("right height");
    f.setLeftFootMaxHeight(h); f.setRightFootMaxHeight(g);
    VX s(vcVec("steps of the solution", 2*m));
    HumanoidFootModel<double> L(f.leftFootModel_), R(f.rightFootModel_);
    f.updateFeetStates(s, fb);
    bool flying = phase != Phase<double>::DS && t < D - T + Constant<double>::EPSILON;
    bool down = t < (D - T)*0.5 + Constant<double>::EPSILON || t < fb + Constant<double>::EPSILON;
    V3 x(s(0), 0., 0.), y(s(m), 0., 0.), z(down ? 0. : phase == Phase<double>::leftSS ? g : h, 0., 0.);
    if (flying && phase == Phase<double>::leftSS) { R.updateStateX(x, t, fb); R.updateStateY(y, t, fb); R.updateStateZ(z, down ? t : t - (D - T)*0.5, fb); }
    if (flying && phase == Phase<double>::rightSS) { L.updateStateX(x, t, fb); L.updateStateY(y, t, fb); L.updateStateZ(z, down ? t : t - (D - T)*0.5, fb); }
    vcSameV("left x", f.getLeftFootStateX(), L.getStateX()); vcSameV("left y", f.getLeftFootStateY(), L.getStateY()); vcSameV("left z", f.getLeftFootStateZ(), L.getStateZ());
    vcSameV("right x", f.getRightFootStateX(), R.getStateX()); vcSameV("right y", f.getRightFootStateY(), R.getStateY()); vcSameV("right z", f.getRightFootStateZ(), R.getStateZ());
    vcEnsureEq("time goes by", f.timeToNextPhase_, t - fb);
  }

  VC_HARNESS(only_the_right_foot_moves) { flight(Phase<double>::leftSS); }
  VC_HARNESS(only_the_left_foot_moves) { flight(Phase<double>::rightSS); }
  VC_HARNESS(no_foot_moves) { flight(Phase<double>::DS); }

  // the last update of a flight brings the foot to its step, at rest
  VC_HARNESS(landing)
  {
    VX c(vcVec("state", 3));
    double T = vcPos("time to landing"), goal = vcReal("step");
    HumanoidFootModel<double> f(vcInt("samples", 1, 6), vcPos("period"));
    f.setStateX(c);
    V3 g(goal, 0., 0.);
    f.updateStateX(g, T, T);
    vcEnsureEq("position", f.getStateX()(0), goal);
    vcEnsureEq("speed", f.getStateX()(1), 0.);
    vcEnsureEq("acceleration", f.getStateX()(2), 0.);
  }

  VC_HARNESS(selection_matrices)
  {
    int N = vcInt("samples", 1, 6), m = vcInt("steps", 0, 5), r = vcIndex("sample", N);
    SelectionMatrices<double> s;
    s.reset(N, m);
    vcEnsureEqI("rows of V0", s.V0.rows(), N); vcEnsureEqI("columns of V0", s.V0.cols(), 1);
    vcEnsureEqI("rows of V", s.V.rows(), N); vcEnsureEqI("columns of V", s.V.cols(), m);
    vcEnsureEqI("rows of VT", s.VT.rows(), m); vcEnsureEqI("columns of VT", s.VT.cols(), N);
    vcEnsureEqI("no support", s.V0(r), 0);
    if (m > 0)
    {
      int c = vcIndex("step", m);
      vcEnsureEqI("no step", s.V(r, c), 0); vcEnsureEqI("no step, transposed", s.VT(c, r), 0);
    }
  }

  VC_HARNESS(feet_position_dynamic)
  {
    int N = vcInt("samples", 1, 6), m = vcInt("steps", 1, 5), r = vcIndex("sample", N), c = vcIndex("step", m);
    Feet f(N, 1.);
    f.selectionMatrices_.reset(N, m);
    int i = vcIndex("chosen sample", N), j = vcIndex("chosen step", m), k = vcIndex("other sample", N);
    f.selectionMatrices_.V(i, j) = 1; f.selectionMatrices_.VT(j, i) = 1; f.selectionMatrices_.V0(k) = 1;
    f.computeFeetPosDynamic();
    const LinearDynamic<double>& d = f.getFeetPosLinearDynamic();
    vcEnsureEq("U", d.U(r, c), f.getSelectionMatrices().V(r, c));
    vcEnsureEq("UT", d.UT(c, r), f.getSelectionMatrices().VT(c, r));
    vcEnsureEq("S", d.S(r), f.getSelectionMatrices().V0(r));
  }

  VC_HARNESS(rotation)
  {
    int N = vcInt("samples", 1, 6), r = vcIndex("row", 2*N), c = vcIndex("column", 2*N);
    Feet f(N, 1.);
    f.computeRotationMatrix();
    vcEnsureEqI("rows", f.getRotationMatrix().rows(), 2*N); vcEnsureEqI("columns", f.getRotationMatrix().cols(), 2*N);
    vcEnsureEq("identity", f.getRotationMatrix()(r, c), r == c ? 1. : 0.);
    vcEnsureEq("transposed identity", f.getRotationMatrixT()(r, c), r == c ? 1. : 0.);
  }

  VC_HARNESS(sample_weights)
  {
    int N = vcInt("samples", 2, 6), r = vcIndex("row", N), c = vcIndex("column", N);
    double T = vcPos("period"), t = vcPos("time to the next phase");
    vcRequire(T > 1e-2 && t < 20*T);
    Feet f(N, T);
    f.timeToNextPhase_ = t;
    while (t > T + Constant<double>::EPSILON) t -= T;
    f.computeSampleWeightMatrix();
    const MX& W = f.getSampleWeightMatrix();
    vcEnsureEqI("rows", W.rows(), N); vcEnsureEqI("columns", W.cols(), N);
    vcEnsureEq("weight", W(r, c), r != c ? 0. : r == 0 ? t/T : r == N - 1 ? 1.05f - t/T : 1.);
    vcEnsure("symmetric", W(r, c) == W(c, r));
  }

  VC_HARNESS(calls_before_the_next_sample)
  {
    double T = vcPos("period"), t = vcPos("time to the next phase"), fb = vcPos("feedback period");
    vcRequire(T > 1e-2 && t < 20*T && fb > 1e-2);
    Feet f(vcInt("samples", 1, 6), T);
    f.timeToNextPhase_ = t;
    f.feedbackPeriod_ = fb;
    while (t > T + Constant<double>::EPSILON) t -= T;
    vcEnsureEqI("calls", f.getNbOfCallsBeforeNextSample(), static_cast<int>((t + Constant<double>::EPSILON)/fb));
    vcEnsure("within a sample", t <= T + Constant<double>::EPSILON);
  }

  // a step entering the horizon: the CoP and the earlier steps stay in place, the new one is in the middle of the
  // polygon allowed from the step before it
#ifdef VC_NATIVE
#define VC_A_KINEMATIC(name) Poly name(vcBox(#name, vcBool("box")))
#else
#define VC_A_KINEMATIC(name) Poly name(vcAny<Poly>(#name)); vcRequire(name.getNbVertices() >= 1)
#endif
  static double middle(const Poly& q, int axis)
  {
    VV2 p(q.getVertices());
    double lo = p[0](axis), hi = p[0](axis);
    for (size_t j = 1; j < p.size(); ++j)
    {
      if (lo > p[j](axis)) lo = p[j](axis);
      if (hi < p[j](axis)) hi = p[j](axis);
    }
    return (hi + lo)/2;
  }
  static void entering(int m, Phase<double>::PhaseType phase, bool onLeft)
  {
    int N = vcInt("samples", 1, 6), k = vcIndex("entry", 2*N + 2*m);
    Feet f(N, 1.);
    VC_A_KINEMATIC(left); VC_A_KINEMATIC(right);
    f.setLeftFootKinematicConvexPolygon(left); f.setRightFootKinematicConvexPolygon(right);
    VX lx(vcVec("left x", 3)), ly(vcVec("left y", 3)), rx(vcVec("right x", 3)), ry(vcVec("right y", 3));
    f.setLeftFootStateX(lx); f.setLeftFootStateY(ly); f.setRightFootStateX(rx); f.setRightFootStateY(ry);
    VX v(vcVec("solution", 2*N + 2*m)), old(v);
    bool ds = phase == Phase<double>::DS;
    f.timeline_.set_capacity(m + 2);
    f.timeline_.front().phaseType_ = phase;
    VX kinds(vcVec("single supports", m + ds));
    for (int i = 0; i < m + ds; ++i)
      f.timeline_.push_back(Phase<double>(kinds(i) > 0. ? Phase<double>::leftSS : Phase<double>::rightSS, 1.));
    if (m + ds > 0)
    {
      if (onLeft) vcRequire(kinds(m + ds - 1) > 0.); else vcRequire(kinds(m + ds - 1) <= 0.);
      phase = onLeft ? Phase<double>::leftSS : Phase<double>::rightSS;
    }
    f.nbPreviewedSteps_ = m + 1;
    f.setMove(true);
    f.enlargeStepVec(v);
    vcEnsureEqI("size", v.rows(), 2*N + 2*m + 2);
    vcEnsureEq("entry", v(k < 2*N + m ? k : k + 1), old(k));
    const Poly& q = phase == Phase<double>::leftSS ? left : right;
    double x0 = m ? old(2*N + m - 1) : ds || phase == Phase<double>::leftSS ? lx(0) : rx(0);
    double y0 = m ? old(2*N + 2*m - 1) : ds || phase == Phase<double>::leftSS ? ly(0) : ry(0);
    vcEnsureEq("x of the step", v(2*N + m), x0 + middle(q, 0));
    vcEnsureEq("y of the step", v(2*N + 2*m + 1), y0 + middle(q, 1));
  }
  VC_HARNESS(first_step_during_a_left_support) { entering(0, Phase<double>::leftSS, true); }
  VC_HARNESS(first_step_during_a_right_support) { entering(0, Phase<double>::rightSS, false); }
  VC_HARNESS(first_step_during_a_double_support) { entering(0, Phase<double>::DS, true); }
  VC_HARNESS(first_step_during_a_double_support_from_the_right) { entering(0, Phase<double>::DS, false); }
  VC_HARNESS(step_during_a_left_support_from_the_left) { entering(vcInt("steps", 1, 5), Phase<double>::leftSS, true); }
  VC_HARNESS(step_during_a_left_support_from_the_right) { entering(vcInt("steps", 1, 5), Phase<double>::leftSS, false); }
  VC_HARNESS(step_during_a_right_support_from_the_left) { entering(vcInt("steps", 1, 5), Phase<double>::rightSS, true); }
  VC_HARNESS(step_during_a_right_support_from_the_right) { entering(vcInt("steps", 1, 5), Phase<double>::rightSS, false); }
  VC_HARNESS(step_during_a_double_support_from_the_left) { entering(vcInt("steps", 1, 5), Phase<double>::DS, true); }
  VC_HARNESS(step_during_a_double_support_from_the_right) { entering(vcInt("steps", 1, 5), Phase<double>::DS, false); }

#ifdef VC_NATIVE
  // a step fits in the horizon: otherwise the landing of the flying foot is not among the variables
  struct Walk
  {
    int N, q; double T, fb; Feet f; VX v; bool move;
    static int some(int lo, int hi) { return lo + int(vcu()*(hi - lo + 1))%(hi - lo + 1); }
    Walk() : N(vcInt("samples", 2, 9)), q(vcInt("feedback periods per sample", 1, 4)), T(0.05*vcInt("period in 50 ms", 1, 8)),
             fb(T/q), f(N, T), v(VX::Random(2*N)), move(false)
    {
      vcConfigure(f, 9, T);
      f.setStepPeriod(T*vcInt("samples of a step", 2, std::min(6, N)));
      f.setInitialDoubleSupportLength(T*vcInt("samples of the double support", 1, 4));
    }
    int phase(int i) const { return f.timeline_[i].phaseType_; }
    void command()
    {
      if (vcu() < 0.12) { move = !move; f.setMove(move); vclog("move command", move); }
      vclog("update after command", move);
    }
    VX steps() const { return v.segment(2*N, v.rows() - 2*N); }
    // the QP may choose any CoP and any steps
    void choose() { for (int i = 0; i < v.rows(); ++i) v(i) += 0.1*(vcu() - 0.5); }
  };
  static const int LENGTH = 60;

  VC_BOUNDED(phases_of_the_timeline)
  {
    Walk w;
    int n = vcInt("updates", 1, LENGTH);
    int current = Phase<double>::DS, next = -1;
    for (int i = 0; i < n; ++i)
    {
      w.command();
      bool over = w.f.timeToNextPhase_ < Constant<double>::EPSILON;
      w.f.updateTimeline(w.v, w.fb);
      vcEnsureEqI("the phase only changes when it is over, to the previewed one", w.phase(0), over ? next : current);
      vcEnsure("some phase", w.f.timeline_.size() >= 1);
      double end = w.f.timeToNextPhase_, horizon = w.N*w.T;
      for (size_t k = 0; k + 1 < w.f.timeline_.size(); ++k)
      {
        int want = !w.move ? int(Phase<double>::DS)
                   : w.phase(k) == Phase<double>::DS ? int(Phase<double>::leftSS) : other(w.phase(k));
        vcEnsureEqI("the next phase follows the command", w.phase(k + 1), want);
        vcEnsureEq("its duration", w.f.timeline_[k + 1].duration_,
                   want == Phase<double>::DS ? w.f.DSPeriod_ : w.f.getStepPeriod());
        vcEnsure("it begins within the horizon", end <= horizon + 1e-6);
        end += w.f.timeline_[k + 1].duration_;
      }
      vcEnsure("the timeline covers the horizon", end > horizon - 1e-6);
      vcEnsure("double support", w.f.isInDS() == (w.phase(0) == Phase<double>::DS));
      current = w.phase(0); next = w.f.timeline_.size() > 1 ? w.phase(1) : -1;
      w.choose();
      double left = w.f.timeToNextPhase_;
      w.f.updateFeetStates(w.steps(), w.fb);
      vcEnsure("time goes by", near(w.f.timeToNextPhase_, left - w.fb, 1e-9));
    }
  }

  VC_BOUNDED(samples_of_the_horizon)
  {
    Walk w;
    int n = vcInt("updates", 1, LENGTH), N = w.N;
    for (int i = 0; i < n; ++i)
    {
      w.command();
      w.f.updateTimeline(w.v, w.fb);
      int M = w.f.getNbPreviewedSteps();
      const SelectionMatrices<double>& s = w.f.getSelectionMatrices();
      const LinearDynamic<double>& d = w.f.getFeetPosLinearDynamic();
      vcEnsure("number of steps", 0 <= M && M <= N);
      vcEnsureEqI("rows of V0", s.V0.rows(), N); vcEnsureEqI("columns of V0", s.V0.cols(), 1);
      vcEnsureEqI("rows of V", s.V.rows(), N); vcEnsureEqI("columns of V", s.V.cols(), M);
      vcEnsureEqI("rows of VT", s.VT.rows(), M); vcEnsureEqI("columns of VT", s.VT.cols(), N);
      vcEnsureEqI("size of the dynamics", d.U.cols(), M);
      double t = w.f.timeToNextPhase_;
      bool ds = w.f.isInDS();
      int last = -1;
      for (int r = 0; r < N; ++r)
      {
        int at = -2;
        vcEnsure("entry of V0", s.V0(r) == 0 || s.V0(r) == 1);
        vcEnsure("entry of the dynamics", d.S(r) == s.V0(r));
        if (s.V0(r)) at = -1;
        for (int c = 0; c < M; ++c)
        {
          vcEnsure("entry of V", s.V(r, c) == 0 || s.V(r, c) == 1);
          vcEnsure("entry of VT", s.V(r, c) == s.VT(c, r) && d.U(r, c) == s.V(r, c) && d.UT(c, r) == s.V(r, c));
          if (s.V(r, c)) { vcEnsure("only one support", at == -2); at = c; }
        }
        vcEnsure("some support", at != -2);
        vcEnsure("supports follow one another", at == last || at == last + 1);
        last = at;
        // the support of a sample: the number of single supports which ended before it began
        double first = t;
        while (first > w.T + Constant<double>::EPSILON) first -= w.T;
        double instant = first + r*w.T, end = t;
        int landed = 0;
        for (size_t k = 0; k + 1 < w.f.timeline_.size() && end <= instant + 1e-6; ++k)
        {
          if (w.phase(k) != Phase<double>::DS) ++landed;
          end += w.f.timeline_[k + 1].duration_;
        }
        if (w.move) vcEnsureEqI("support of the sample", at + 1, landed);
        vcEnsure("phase of the sample", r == 0 || w.f.phaseIndexFromSample_(r) >= w.f.phaseIndexFromSample_(r - 1));
      }
      double first = w.f.timeToNextPhase_;
      while (first > w.T + Constant<double>::EPSILON) first -= w.T;
      const MX& W = w.f.getSampleWeightMatrix();
      vcEnsureEqI("rows of the weights", W.rows(), N); vcEnsureEqI("columns of the weights", W.cols(), N);
      for (int r = 0; r < N; ++r) for (int c = 0; c < N; ++c)
      {
        double want = r != c ? 0. : r == N - 1 && N > 1 ? 1.05f - first/w.T : r == 0 && N > 1 ? first/w.T : r == 0 ? W(0, 0) : 1.;
        vcEnsure("weight", near(W(r, c), want, 1e-9));
      }
      for (int r = 0; r < 2*N; ++r) for (int c = 0; c < 2*N; ++c)
        vcEnsure("rotation", w.f.getRotationMatrix()(r, c) == (r == c) && w.f.getRotationMatrixT()(r, c) == (r == c));
      int calls = w.f.getNbOfCallsBeforeNextSample();
      vcEnsure("calls before the next sample", 1 <= calls && calls <= w.q && near(calls*w.fb, first, 1e-6));
      w.choose();
      w.f.updateFeetStates(w.steps(), w.fb);
    }
  }

  VC_BOUNDED(decision_vector)
  {
    Walk w;
    int n = vcInt("updates", 1, LENGTH), N = w.N;
    for (int i = 0; i < n; ++i)
    {
      w.command();
      int before = (w.v.rows() - 2*N)/2;
      bool landed = w.f.timeToNextPhase_ < Constant<double>::EPSILON && !w.f.isInDS();
      VX old(w.v);
      w.f.updateTimeline(w.v, w.fb);
      int M = w.f.getNbPreviewedSteps(), kept = std::min(M, before - landed);
      vcEnsureEqI("room for exactly the previewed steps", w.v.rows(), 2*N + 2*M);
      for (int k = 0; k < 2*N; ++k) vcEnsure("CoP kept", w.v(k) == old(k));
      for (int k = 0; k < kept; ++k)
      {
        vcEnsure("x of the step kept", w.v(2*N + k) == old(2*N + k + landed));
        vcEnsure("y of the step kept", w.v(2*N + M + k) == old(2*N + before + k + landed));
      }
      for (int k = std::max(0, kept); k < M; ++k)
      {
        const VV2& p = w.f.getKinematicConvexPolygon(k).getVertices();
        double lx = 1e9, hx = -1e9, ly = 1e9, hy = -1e9;
        for (size_t e = 0; e < p.size(); ++e)
        {
          lx = std::min(lx, p[e](0)); hx = std::max(hx, p[e](0)); ly = std::min(ly, p[e](1)); hy = std::max(hy, p[e](1));
        }
        double x0 = k ? w.v(2*N + k - 1) : w.f.getSupportFootStateX()(0), y0 = k ? w.v(2*N + M + k - 1) : w.f.getSupportFootStateY()(0);
        vcEnsure("x of the new step", near(w.v(2*N + k), x0 + (lx + hx)/2, 1e-9));
        vcEnsure("y of the new step", near(w.v(2*N + M + k), y0 + (ly + hy)/2, 1e-9));
      }
      w.choose();
      w.f.updateFeetStates(w.steps(), w.fb);
    }
  }

  VC_BOUNDED(feet)
  {
    Walk w;
    int n = vcInt("updates", 1, LENGTH), N = w.N;
    // both feet begin on the ground
    VX z(VX::Zero(3));
    VX rest(VX::Zero(3)); rest(0) = 0.3;
    w.f.setLeftFootStateX(z); w.f.setLeftFootStateY(rest); w.f.setRightFootStateX(z); w.f.setRightFootStateY(-rest);
    w.f.setLeftFootStateZ(z); w.f.setRightFootStateZ(z);
    for (int i = 0; i < n; ++i)
    {
      w.command();
      w.f.updateTimeline(w.v, w.fb);
      w.choose();
      VX lx(w.f.getLeftFootStateX()), ly(w.f.getLeftFootStateY()), lz(w.f.getLeftFootStateZ());
      VX rx(w.f.getRightFootStateX()), ry(w.f.getRightFootStateY()), rz(w.f.getRightFootStateZ());
      bool ds = w.f.isInDS(), left = w.phase(0) == Phase<double>::leftSS;
      double t = w.f.timeToNextPhase_, D = w.f.timeline_.front().duration_;
      VX sx(w.f.getSupportFootStateX()), sy(w.f.getSupportFootStateY());
      vcEnsure("support", ds && !w.move ? sx == (rx + lx)/2. && sy == (ry + ly)/2. : ds || left ? sx == lx && sy == ly : sx == rx && sy == ry);
      VX s(w.steps());
      int M = w.f.getNbPreviewedSteps();
      w.f.updateFeetStates(s, w.fb);
      const VX& lX = w.f.getLeftFootStateX(); const VX& lY = w.f.getLeftFootStateY(); const VX& lZ = w.f.getLeftFootStateZ();
      const VX& rX = w.f.getRightFootStateX(); const VX& rY = w.f.getRightFootStateY(); const VX& rZ = w.f.getRightFootStateZ();
      bool flying = !ds && t < D - w.T + Constant<double>::EPSILON;
      if (!flying || left) vcEnsure("the left foot stays", lX == lx && lY == ly && lZ == lz);
      if (!flying || !left) vcEnsure("the right foot stays", rX == rx && rY == ry && rZ == rz);
      if (flying)
      {
        const VX& X = left ? rX : lX; const VX& Y = left ? rY : lY; const VX& Z = left ? rZ : lZ;
        const VX& x = left ? rx : lx; const VX& y = left ? ry : ly;
        if (t - w.fb < Constant<double>::EPSILON)
        {
          vcEnsure("it lands on its step", near(X(0), s(0), 1e-6) && near(Y(0), s(M), 1e-6) && near(Z(0), 0., 1e-6));
          vcEnsure("it lands at rest", near(X(1), 0., 1e-6) && near(Y(1), 0., 1e-6) && near(Z(1), 0., 1e-6));
        }
        // the state of the foot follows the polynomial to the previewed position (its foot model's)
        HumanoidFootModel<double> foot(left ? w.f.leftFootModel_ : w.f.rightFootModel_);
        foot.setStateX(x); foot.setStateY(y);
        V3 gx(s(0), 0., 0.), gy(s(M), 0., 0.);
        foot.updateStateX(gx, t, w.fb); foot.updateStateY(gy, t, w.fb);
        vcEnsure("towards its previewed position", foot.getStateX() == X && foot.getStateY() == Y);
      }
    }
  }
#else
  // (for the list of harnesses: the bodies above only run natively)
  VC_BOUNDED(phases_of_the_timeline) {}
  VC_BOUNDED(samples_of_the_horizon) {}
  VC_BOUNDED(decision_vector) {}
  VC_BOUNDED(feet) {}
#endif
}
