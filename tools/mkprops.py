#!/usr/bin/env python3
"""Regenerates properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "observe_at": list(observe), "hook_needed": None}})

prop("C01", "Constant-jerk prediction matrices are exact for every horizon",
     "For every horizon length, sampling period and first-interval length, the prediction matrices for position, velocity, acceleration, jerk, the two second-order dynamics and the centre of pressure give exactly the quantity reached at each sample instant when a piecewise-constant jerk (acceleration for the second-order ones) is integrated from the initial state, the centre of pressure being (mass/total mass)*(position - height/gravity_z*(acceleration + gravity_horizontal)). "
     "The matrices stored as transposes are the transposes, the acceleration, second-order velocity and jerk inverses are true inverses, and the other stored inverses are the matrix inverse with entries below the documented threshold replaced by zero. "
     "The one-step state update integrates one constant-jerk interval exactly, so predictions and updates agree.",
     ["inputs"], "all horizon lengths N>0, all sampling periods T>0, all first intervals S>0, all heights, gravities and masses the functions accept, all initial states and jerks",
     "The tests evaluate a few horizons and periods (N up to 10) of four models; nothing relates the closed forms to the integration they stand for at a general row, column and horizon.",
     ["src/tools.cpp", "src/lineardynamic.cpp", "mpc-walkgen/tools.h"],
     [("ConstantJerkDynamic::compute*Dynamic", "src/tools.cpp"), ("ConstantJerkDynamic::updateState", "src/tools.cpp"), ("inverseLU", "mpc-walkgen/tools.h"), ("LinearDynamic::reset", "src/lineardynamic.cpp")],
     [("U, UT, Uinv, UTinv, S, K", "prediction Y = U X + S x + K and its stored transposes/inverses", "mpc-walkgen/lineardynamic.h")])

prop("C02", "Models never serve prediction matrices that disagree with their parameters",
     "After any sequence of constructions and parameter changes on a model (with automatic recomputation on), every prediction matrix it returns is the one its current parameters (samples, periods, height, gravity, masses) define, and every getter returns the value last set. "
     "For a pendulum model sampled faster than its horizon period, the i-th returned matrix is the one whose first interval is (i+1) feedback periods. "
     "Each way of constructing a model initialises all of its observable parameters, and with the same values.",
     ["histories", "inputs"], "every finite sequence of public setter calls with accepted arguments, for every constructor of the pendulum, base and trajectory models",
     "Tests check one or two setters after construction; staleness needs the particular setter whose recomputation is missing, out of every possible history.",
     ["src/model/lip_model.cpp", "src/model/zebulon_base_model.cpp", "src/model/no_dynamic_model.cpp", "mpc-walkgen/model/lip_model.h", "mpc-walkgen/model/zebulon_base_model.h", "mpc-walkgen/model/no_dynamic_model.h"],
     [("computeDynamics and the per-matrix compute functions called by each setter", "src/model/lip_model.cpp, src/model/zebulon_base_model.cpp, src/model/no_dynamic_model.cpp")],
     [("cached dynamics", "must equal a function of the parameter fields at every public boundary", "mpc-walkgen/model/*.h")])

prop("C03", "Foot interpolation is a C2 spline that reaches its target",
     "For every start state, target state and duration, the generated foot trajectory starts at the start position, velocity and acceleration, is continuous up to the second derivative everywhere on the interval, and reaches the target position, velocity and acceleration at the end of the duration. "
     "Updating a foot state over an elapsed time t of a duration T yields exactly the position, velocity and acceleration of that trajectory at t, and changes no other coordinate of the foot.",
     ["inputs"], "all start and target states, all durations T>0 and all elapsed times 0<=t<=T",
     "Tests sample a handful of start/end pairs and compare at a few instants with a tolerance; the guarantee is an identity in nine unknowns for every instant.",
     ["src/interpolator.cpp", "src/model/humanoid_foot_model.cpp", "mpc-walkgen/tools.h", "mpc-walkgen/model/humanoid_foot_model.h"],
     [("Interpolator::computePolynomialNormalisedFactors, selectFactors", "src/interpolator.cpp"), ("HumanoidFootModel::interpolateTrajectory, updateState*", "src/model/humanoid_foot_model.cpp"), ("polynomValue and derivatives", "mpc-walkgen/tools.h")])

prop("C04", "A polygon's bounds and half-planes describe exactly its edges",
     "For a polygon given by its counter-clockwise vertices, each edge contributes exactly one constraint: a vertical or horizontal edge sets the bound on the side it limits, every other edge contributes one half-plane through its two end points with the interior on the non-positive side. "
     "A point satisfies all bounds and half-planes exactly when it is inside or on the polygon; edges are neither lost nor duplicated and bounds without an edge stay at the documented maximum.",
     ["inputs"], "all counter-clockwise convex vertex lists of any length, all points",
     "Tests check five or six literal polygons; the edge cases are which edges are classified as bounds, in which order, for any number of vertices.",
     ["src/convexpolygon.cpp", "mpc-walkgen/convexpolygon.h"],
     [("computeBoundsAndGeneralConstraintValues", "src/convexpolygon.cpp")])

prop("C05", "Hull extraction keeps a subset of the points that contains them all",
     "Building a polygon from a set of points gives vertices that are all among the given points, start at the lowest-then-leftmost one, turn counter-clockwise, and whose hull contains every given point. "
     "Finding the lowest-leftmost point returns an index inside the list whose point is lowest (within the documented tolerance), and no point set with at least one point makes the extraction read outside the list.",
     ["inputs"], "all finite non-empty point lists (containment: non-degenerate lists)",
     "Tests use a few literal point lists; ties, duplicates, collinear points and list order are where gift wrapping fails.",
     ["src/convexpolygon.cpp", "mpc-walkgen/convexpolygon.h"],
     [("extractVertices, getIndexOfLowestAndLeftmostVertice, getIndexOfSmallestAngleVertice, angleBetweenVecs", "src/convexpolygon.cpp")])

prop("C06", "Trajectory objectives and motion limits are exact derivatives and bounds",
     "For every model state, reference and jerk sequence, the position-tracking, velocity-tracking and jerk-minimisation objectives return exactly the gradient and Hessian of half the squared distance between prediction and reference (half the squared jerk). "
     "The motion constraint's gradient stacks the velocity and acceleration predictions, and its lower and upper values are exactly the distance left to minus and plus the configured velocity and acceleration limits. "
     "Results do not depend on earlier queries and have the dimensions of the current horizon.",
     ["inputs", "histories"], "all horizons N>0, states, references of the current size, jerk vectors and limits; any sequence of earlier queries",
     "No test runs the trajectory classes at all.",
     ["src/function/trajectory_position_tracking_objective.cpp", "src/function/trajectory_velocity_tracking_objective.cpp", "src/function/trajectory_jerk_minimization_objective.cpp", "src/function/trajectory_motion_constraint.cpp"],
     [("getGradient/getHessian/computeConstantPart", "src/function/trajectory_*"), ("getFunctionInf/getFunctionSup", "src/function/trajectory_motion_constraint.cpp")])

prop("C07", "Base tracking and jerk objectives are exact derivatives",
     "For every base state, reference and jerk sequence, the base position-tracking and velocity-tracking objectives return exactly the gradient and Hessian of half the squared distance between predicted and reference motion on both axes, with no coupling between the axes. "
     "The jerk objective returns those of half the squared norm of all jerks. "
     "Results do not depend on earlier queries.",
     ["inputs", "histories"], "all horizons, base states, references and jerk vectors",
     "Tests compare literal numbers for one or two small horizons; the axis and block layout must hold for every horizon and state.",
     ["src/function/zebulon_base_position_tracking_objective.cpp", "src/function/zebulon_base_velocity_tracking_objective.cpp", "src/function/zebulon_jerk_minimization_objective.cpp"],
     [("getGradient/getHessian/computeConstantPart", "src/function/zebulon_base_*_tracking_objective.cpp")])

prop("C08", "CoM and CoP centring objectives are exact derivatives",
     "For every state of both bodies, reference and jerk sequence, the centring objectives return exactly the gradient and Hessian of half the squared distance, on both axes, between the reference and the predicted CoM (or two-mass CoP) position relative to the base. "
     "The CoM reference is shifted by the horizontal offset that inclined gravity induces for the current masses and heights, and a CoP reference given in world frame is converted with the two-mass CoP equation. "
     "A massless base is treated as the limit of a light one.",
     ["inputs", "histories"], "all horizons, states, masses, heights, gravities with non-zero vertical part, references and jerk vectors",
     "Tests compare literal numbers for one horizon with and without base mass; block layout, cross terms and the gravity shift must hold for every horizon, mass and gravity.",
     ["src/function/zebulon_com_centering_objective.cpp", "src/function/zebulon_cop_centering_objective.cpp"],
     [("getGradient/getHessian/computeConstantPart/updateGravityShift/setCopRefInWorldFrame", "src/function/zebulon_com_centering_objective.cpp, src/function/zebulon_cop_centering_objective.cpp")])

prop("C09", "Support constraints hold exactly when CoM or CoP is inside the polygon",
     "For every support polygon, state and jerk sequence, the CoM and CoP support constraints have one row per polygon edge and sample, and the value of that row is minus the signed distance expression of the predicted CoM (or two-mass CoP) relative to the base with respect to that edge, so that all rows are satisfied exactly when every predicted sample is inside the polygon. "
     "The constraint gradient is the exact derivative of those rows and no row is missing, duplicated or attached to another sample.",
     ["inputs", "histories"], "all horizons, polygons with any number of vertices, states, masses and jerk vectors",
     "Tests check two literal rectangles with horizon 1 or 2.",
     ["src/function/zebulon_cop_constraint.cpp", "src/function/zebulon_com_constraint.cpp"],
     [("computeconstraintMatrices, computeConstantPart, getFunction", "src/function/zebulon_cop_constraint.cpp, src/function/zebulon_com_constraint.cpp")])

prop("C10", "Base and tilt motion limits are encoded exactly",
     "For every base state and jerk sequence, the base motion constraint's gradient stacks the velocity and acceleration predictions of both axes and its lower and upper values are exactly the distance left to minus and plus the velocity and acceleration limits. "
     "The tilt motion constraint expresses that the predicted velocities of both bodies have no component perpendicular to the base heading, with its gradient the exact derivative. "
     "Results do not depend on earlier queries.",
     ["inputs", "histories"], "all horizons, states, headings, limits and jerk vectors",
     "Tests compare literal numbers for one small horizon and heading zero.",
     ["src/function/zebulon_base_motion_constraint.cpp", "src/function/zebulon_tilt_motion_constraint.cpp"],
     [("getFunctionInf/getFunctionSup/getFunction/computeConstantPart", "src/function/zebulon_base_motion_constraint.cpp, src/function/zebulon_tilt_motion_constraint.cpp")])

prop("C11", "Tilt objectives follow the documented tilt equation",
     "For every state, contact point and jerk sequence, the tilt and tilt-velocity objectives return the gradient and Hessian of half the squared predicted tilt (tilt velocity) obtained by solving the documented tilt balance equation of the two bodies over the horizon. "
     "Each body's acceleration enters with its own mass times its own height, and moving the contact point changes only the constant part it defines.",
     ["inputs", "histories"], "all horizons, states, masses, heights and contact points for which the tilt equation is solvable, all jerk vectors",
     "No test runs the tilt objectives.",
     ["src/function/zebulon_tilt_minimization_objective.cpp", "src/function/zebulon_tilt_velocity_minimization_objective.cpp"],
     [("computeConstantPart/updateTiltContactPoint/getGradient/getHessian", "src/function/zebulon_tilt_*_objective.cpp")])

prop("C12", "Humanoid objectives are exact derivatives",
     "For every pendulum state, footstep assignment, sample weighting and decision vector, the CoM velocity-tracking, CoM jerk and CoP-centring objectives return exactly the gradient and Hessian of their weighted half squared cost, with the jerk recovered from the world-frame CoP given by the local CoP and the current and previewed support feet. "
     "The prediction used is the one whose first interval is the time left before the next sample.",
     ["inputs", "histories"], "all horizons, numbers of previewed steps, selection matrices, weights, states, references and decision vectors",
     "Tests compare literal numbers for one horizon in double support.",
     ["src/function/humanoid_lip_com_velocity_tracking_objective.cpp", "src/function/humanoid_lip_com_jerk_minimization_objective.cpp", "src/function/humanoid_cop_centering_objective.cpp"],
     [("getGradient/getHessian", "src/function/humanoid_*_objective.cpp")])

prop("C13", "Humanoid CoP and footstep constraints match the support polygons",
     "For every timeline and decision vector, the CoP constraint bounds and half-planes of each sample are exactly those of the support polygon active at that sample, and the footstep constraint's are exactly those of the kinematic polygon placed at the previous support position (the current support foot for the first step), all expressed as variations of the decision vector. "
     "There is exactly one row per half-plane, in order, and its gradient is the exact derivative.",
     ["inputs", "histories"], "all horizons, numbers of previewed steps, polygons per sample or step with any number of edges, decision vectors",
     "Tests check one timeline with one polygon shape.",
     ["src/function/humanoid_cop_constraint.cpp", "src/function/humanoid_foot_constraint.cpp"],
     [("computeGeneralConstraintsMatrices/computeBoundsVectors/getFunction/getGradient", "src/function/humanoid_cop_constraint.cpp, src/function/humanoid_foot_constraint.cpp")])

prop("C14", "The feet supervisor keeps a consistent walking timeline",
     "For every sequence of updates and start/stop commands, single-support phases alternate feet, double support is entered or left only as commanded, and every sample of the horizon is assigned to exactly one support position: the current one or exactly one previewed step, in non-decreasing order. "
     "The decision vector always has room for exactly the previewed steps, keeping earlier CoP and step entries in place, and between phases only the flying foot moves, towards its previewed position, landing when the phase ends.",
     ["histories", "inputs"], "all sequences of timeline and foot-state updates and start/stop commands, all horizons, step and double-support durations that are multiples of the sampling period",
     "The only test constructs the object.",
     ["src/humanoid_feet_supervisor.cpp", "mpc-walkgen/humanoid_feet_supervisor.h"],
     [("updateTimeline, processFSM, computeSelectionMatrix, enlargeStepVec, shortenStepVec, updateFeetStates", "src/humanoid_feet_supervisor.cpp")],
     [("timeline", "queue of phases from the current one to the end of the horizon", "mpc-walkgen/humanoid_feet_supervisor.h")])

prop("C15", "Normalising a quadratic program does not change its solution set",
     "Normalising the quadratic program's matrices multiplies the whole objective by one positive factor and each constraint family (its matrix together with both of its bounds) by one positive factor, so that the same variables are feasible and the same variable is optimal. "
     "Each factor is at least one and below the inverse of the given threshold; it is one when no matrix entry lies between the threshold and one.",
     ["inputs"], "all quadratic programs of any dimension",
     "No test exercises the normalisation.",
     ["qpsolver/mpc-walkgen/qpsolver.h"],
     [("QPMatrices::normalizeMatrices, getNormalizationFactor", "qpsolver/mpc-walkgen/qpsolver.h")])

prop("C16", "The trajectory generator solves the program its configuration defines",
     "For every history of configuration, state and reference changes, each solve passes to the QP solver exactly the weighted sum of the objectives and the motion and jerk limits defined by the current configuration, up to normalisation. "
     "When the solver succeeds, the applied jerk is the first entry of the accumulated solution and the state is advanced by exactly that constant jerk over the given period; the result reported is the solver's own.",
     ["histories", "inputs"], "every finite sequence of public calls with accepted arguments, every solver answer",
     "No test links a solver, so solve() is never run.",
     ["src/trajectory_walkgen.cpp", "mpc-walkgen/trajectory_walkgen.h"],
     [("solve, computeConstantPart and setters", "src/trajectory_walkgen.cpp")])

prop("C17", "The wheeled-base generator solves the program its configuration defines",
     "For every history of configuration, state and reference changes, each solve passes to the QP solver exactly the weighted sum of the enabled objectives and the constraints and jerk bounds defined by the current configuration, with no cached part left over from an earlier one. "
     "When the solver succeeds, the two bodies are advanced by exactly the first jerks of the accumulated solution over the given period; the result reported is the solver's own.",
     ["histories", "inputs"], "every finite sequence of public calls with accepted arguments, every solver answer",
     "No test links a solver, so solve() and most setters are never run.",
     ["src/zebulon_walkgen.cpp", "mpc-walkgen/zebulon_walkgen.h"],
     [("solve, computeConstantPart and setters", "src/zebulon_walkgen.cpp")])

prop("C18", "The humanoid generator solves the program its configuration defines",
     "For every history of configuration, state and reference changes, each solve passes to a QP solver of the right size exactly the weighted sum of the objectives and the CoP and footstep constraints defined by the current timeline and configuration. "
     "When the solver succeeds, the applied CoM jerk is the one that realises the first planned CoP, the pendulum and feet are advanced over the given period, and the result reported is the solver's own.",
     ["histories", "inputs"], "every finite sequence of public calls with accepted arguments, every solver answer",
     "No test links a solver, so solve() is never run.",
     ["src/humanoid_walkgen.cpp", "mpc-walkgen/humanoid_walkgen.h"],
     [("solve, computeConstantPart, convertCopInLFtoComJerk and setters", "src/humanoid_walkgen.cpp")])

prop("C19", "The QP solver wrapper reports success exactly when the solver succeeded",
     "Whatever the underlying solver answers and whether or not diagnostics are requested, the wrapper returns true exactly when the problem was solved, in which case the caller's solution vector is the solver's primal solution. "
     "It warm-starts only when asked to and only once the solver has been initialised, and passes the caller's matrices, bounds and iteration limit unchanged.",
     ["fault_sequences", "inputs"], "every sequence of solver return codes over any sequence of calls, with and without a diagnostics stream",
     "The solver is not available here, so the wrapper is never run; failures of the solver cannot be provoked by a test at will.",
     ["qpsolver/src/qpsolver_qpoases.hxx", "qpsolver/mpc-walkgen/qpsolver.h"],
     [("QPOasesSolver::solve", "qpsolver/src/qpsolver_qpoases.hxx")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
if __name__ == "__main__":
    for p in P: assert len(p["title"]) <= 80, p["id"]
    print(len(P))
