#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [],
                  "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe or [], "hook_needed": None}})

DP = ["src/dorm_prince/dp5/algorithm.rs", "src/dorm_prince/dp5/stages.rs", "src/dorm_prince/dp5/prepare.rs", "src/dorm_prince/dp5/error.rs"]
RA = ["src/radau/algorithm.rs", "src/radau/newton.rs", "src/radau/error_estimate.rs", "src/radau/step_size_control.rs", "src/radau/dec.rs", "src/radau/linear_solve.rs"]
ODE = ["src/ode/integrator.rs", "src/ode/solution.rs", "src/ode/statistics.rs", "src/ode/code.rs"]
T = "The seven unit tests run one fault-free right-hand side per method with default options and one forward time span; "

prop("C01", "Accepted steps are genuine steps of the chosen method, whatever faults occurred",
 "Every point appended to the recorded solution is the result of exactly one step of the selected method (Dormand-Prince 5(4); or the 3-stage Radau IIA collocation solution, as accurately as the convergence test of its Newton iteration demands) of length t[k+1]-t[k], started from the state, time and parameters in force after point k, on the user's fault-free right-hand side. This holds whatever NaN or infinite values individual right-hand-side evaluations returned while steps were being computed, in both time directions, and for every option setting. A trial that was contaminated by such a value is retried, never recorded.",
 ["fault_sequences", "histories", "configurations", "inputs"],
 "for every sequence of transient right-hand-side faults at arbitrary evaluations, every event history, option setting, dimension and time direction",
 T + "none injects a bad evaluation, forces a retry, or recomputes the step that was recorded.",
 DP + RA, [("stage evaluation and FSAL reuse", "src/dorm_prince/dp5/stages.rs compute_stages, prepare.rs"), ("simplified Newton iteration and factor reuse", "src/radau/newton.rs newton, src/radau/dec.rs, src/radau/algorithm.rs step")],
 observe=["OdeIntegrator.sol.ts/us", "right-hand-side calls"])

prop("C02", "No step is recorded that fails the error test, even if the estimate was hit",
 "A step is recorded only if its error, by the method's own embedded estimate in the root-mean-square norm weighted with abstol + reltol*|u|, is at most one (for Radau5 with the tolerances it derives from the user's, with the re-evaluation of the estimate that Radau5 does on the first or a retried step, and with whatever Jacobian it currently uses as filter). A fault in an evaluation that feeds only the estimate (the derivative at the step's start or end, or the re-evaluated estimate) makes the trial fail; it never switches the test off.",
 ["fault_sequences", "histories", "configurations", "inputs"],
 "for every placement of NaN and infinite faults among the evaluations feeding stages and error estimate, and every tolerance setting",
 T + "only one of them compares with an exact solution and none hits the estimator with a fault.",
 DP + RA, [("error norm and accept test", "src/dorm_prince/dp5/error.rs, prepare.rs"), ("filtered estimate and its second chance", "src/radau/error_estimate.rs"), ("accept test", "src/radau/step_size_control.rs")],
 observe=["OdeIntegrator.sol.ts/us"])

prop("C03", "Non-finite values never enter the state or the recorded solution",
 "Whatever NaN, infinite or overflowing values the right-hand side or the Jacobian return, transiently or from some point on for ever (including a domain wall in time or state beyond which every evaluation is NaN), every recorded time and state and the integrator's public time and state remain finite, and no recorded point lies beyond such a wall (except that Radau5, which does not evaluate at the end point of its step, may have its very last point just past a wall in state). As long as everything returned is finite, the right-hand side is only called with finite arguments, even if a Jacobian makes an iteration matrix exactly singular.",
 ["fault_sequences", "inputs", "configurations"],
 "for every sequence of non-finite and overflowing evaluations, transient or persistent",
 T + "no test ever returns a non-finite value.",
 DP + RA, [("NaN-aware accept test", "src/dorm_prince/dp5/prepare.rs, error.rs; src/radau/error_estimate.rs"), ("Newton rejection on non-finite increments", "src/radau/newton.rs")],
 observe=["OdeIntegrator.u/t", "sol.ts/us"])

prop("C04", "Every integration terminates with a verdict, under any environment",
 "For any right-hand side, Jacobian and callback behaviour - including persistent NaN/infinite/huge results, discontinuities, finite-time blow-up, stiffness, singular Jacobians - and any valid options, each step call returns after a bounded number of evaluations, and integrate() and both iterators end with a return code other than Continue after recording at most max_steps steps; the library itself never panics.",
 ["fault_sequences", "inputs", "configurations", "histories"],
 "for every (also persistent) fault sequence and option setting; liveness as a bound on evaluations per step call and on recorded steps",
 T + "termination under a right-hand side that keeps failing is never exercised.",
 DP + RA + ["src/ode/integrator.rs"], [("minimum step size exit", "src/dorm_prince/dp5/algorithm.rs step; src/radau/algorithm.rs step"), ("max_steps exit", "same"), ("singular-matrix counter", "src/radau/dec.rs")],
 observe=["sol.retcode", "number of right-hand-side/Jacobian calls"])

prop("C05", "Progress resumes once transient faults stop",
 "If the right-hand side or Jacobian misbehaves (NaN or infinite results, or a singular-making Jacobian) only during finitely many short bursts of evaluations on a well-posed problem, the integration still reaches the final time with Success, and needs at most a constant factor of the fault-free number of evaluations plus a constant number per burst. Without any faults a well-posed problem always ends in Success.",
 ["fault_sequences", "configurations", "inputs"],
 "for every placement of bounded fault bursts; bounded liveness measured in evaluations against the fault-free run of the same scenario",
 T + "recovery and step-size regrowth after a fault are never exercised.",
 DP + RA, [("reduction on rejection, regrowth on acceptance", "src/dorm_prince/dp5/prepare.rs; src/radau/step_size_control.rs, newton.rs, dec.rs")],
 observe=["sol.retcode", "right-hand-side call count"])

prop("C06", "Return codes tell the truth",
 "Success is reported exactly when the solution has been recorded up to the final time in force (or a callback itself declared it); MaxIters only when the step budget max_steps was used up; DtLessThanMin when, and only when, the step size has collapsed to rounding level of the current time (no trial with such a step size is made); SingularMatrix only when the supplied Jacobian was singular-making or non-finite. While none of these holds the code is Continue, step() returns the step count, and otherwise step() returns nothing.",
 ["fault_sequences", "histories", "configurations"],
 "for every fault sequence, horizon change, option setting and driving history",
 T + "no test asserts a return code.",
 DP + RA + ODE, [("last-step detection", "src/dorm_prince/dp5/algorithm.rs; src/radau/algorithm.rs, step_size_control.rs"), ("return code of step()", "src/ode/integrator.rs step")],
 observe=["sol.retcode", "return value of step()"])

prop("C07", "How the integrator is driven does not matter, and the end is final",
 "Any mixture of step(), integrate(), the consuming iterator and the borrowing iterator, interrupted and resumed at arbitrary points, produces bit-for-bit the same recorded solution, statistics and return code as calling step() repeatedly, under the same faults; each iterator yields exactly the newly recorded points in order, including the one at the final time. Once a return code other than Continue is set, further calls change nothing, yield nothing and call no user code.",
 ["schedules", "histories", "fault_sequences"],
 "for every interleaving of driver calls (step, integrate, next on either iterator, abandonment and resumption, calls after the end)",
 T + "each drives one integrator in one way and stops at the end.",
 ODE + ["src/dorm_prince/dp5/algorithm.rs", "src/radau/algorithm.rs"], [("step/integrate/Iterator::next", "src/ode/integrator.rs"), ("last/reject flags carried between steps", "caches of both methods")],
 observe=["items yielded", "sol", "stats"])

prop("C08", "A panic in user code at any call leaves a consistent, resumable integrator",
 "If the right-hand side, the Jacobian or the callback panics at an arbitrary call (possibly after half-writing its output) and the caller catches the panic, then previously recorded points are untouched, the recorded times and states agree in number with the accepted count, and the current time and state are those of the last recorded point. Driving the integrator further completes the integration with the same accuracy as if the panic had not happened, neither skipping nor duplicating a step.",
 ["crash_points", "fault_sequences", "histories"],
 "for every user call at which a panic strikes, with clean or torn output, any number of times",
 T + "no test panics inside user code.",
 DP + RA + ["src/ode/integrator.rs"], [("state committed only after all stages", "src/dorm_prince/dp5/prepare.rs; src/radau/step_size_control.rs"), ("bookkeeping and recording order", "src/dorm_prince/dp5/algorithm.rs step")],
 observe=["public fields after catch_unwind", "sol"])

prop("C09", "Integrators are isolated from each other and fully deterministic",
 "The trajectory, statistics and calls made by an integrator depend only on its own problem, options and environment: running any number of integrators interleaved step by step, on different threads with preemption at every user call, or nested inside another integrator's right-hand side, or repeating a run in another process, gives bit-for-bit the results of running each alone.",
 ["schedules", "histories", "configurations"],
 "for every interleaving of several integrators at step or user-call granularity",
 T + "no test runs two integrators together.",
 ODE + DP + RA + ["src/linalg/dec.rs", "src/linalg/sol.rs", "src/ode/jacobian.rs"], [("all working storage is owned by the integrator's cache", "src/dorm_prince/dp5/cache.rs, src/radau/cache.rs")],
 observe=["sequence of user calls and public state"])

prop("C10", "Event callbacks run once per step and take effect immediately",
 "The callback runs exactly once after each recorded step (and at most once more when a step ends the run with an error code), seeing the just recorded point as the current state and the point before as the previous one. Changes it makes to the state, the parameters, the step size, the tolerances or the final time, and direct changes to the state between calls (also after a caught panic), take effect from the very next step exactly as if a fresh integration started from the changed state; a stop it requests ends the run at once without further evaluations.",
 ["histories", "schedules", "fault_sequences"],
 "for every history of callback actions at arbitrary steps, combined with retries and faults",
 T + "one test flips a velocity in a callback and asserts nothing about what follows.",
 ODE + DP + RA, [("callback invocation", "src/ode/integrator.rs step"), ("derivative/matrices reused across steps", "src/dorm_prince/dp5 cache du; src/radau cache u0, scal, e1, e2")],
 observe=["callback's view of the integrator", "next recorded step"])

prop("C11", "The recorded history is well formed and moves strictly toward the end",
 "The recorded solution starts with the initial time and state, has as many times as states, is only ever appended to, and its times move strictly monotonically from the initial toward the final time in either direction without passing it; iterating the recorded solution yields exactly these pairs. Between calls the current time and state are the last recorded ones (before any callback change), and the previous time, previous state and previous step size are those of the step just recorded.",
 ["histories", "fault_sequences", "configurations"],
 "at every instant of every history, under faults, panics, events and any driving schedule",
 T + "no test looks at the recorded history or the previous-step fields of Radau5.",
 ODE + DP + RA, [("recording", "src/dorm_prince/dp5/algorithm.rs, src/radau/step_size_control.rs"), ("previous-step fields", "src/dorm_prince/dp5/prepare.rs, src/radau/step_size_control.rs")],
 observe=["sol", "t,u,tprev,uprev,dtprev"])

prop("C12", "Statistics agree with what the environment saw",
 "At every instant the counters never decrease; the accepted count equals the number of recorded points after the initial one; the function-evaluation counter equals the number of right-hand-side calls made while stepping, apart from those spent on finite-difference Jacobians; the Jacobian counter equals the number of Jacobians formed while stepping; for DormandPrince5 the step count equals the accepted count, each evaluation being attributable to an accepted or a rejected attempt; and for Radau5 the step count equals the number of trials, the linear-solve count the number of Newton iterations, and the rejected count the number of trials thrown away by the error test after the first accepted step.",
 ["histories", "fault_sequences", "configurations"],
 "for every fault and event history, comparing the counters with the simulated environment's own counts",
 T + "no test reads the statistics.",
 ["src/ode/statistics.rs"] + DP + RA, [("counter updates", "src/dorm_prince/dp5/stages.rs, prepare.rs, algorithm.rs; src/radau/newton.rs, step_size_control.rs, error_estimate.rs")],
 observe=["stats", "call counts of right-hand side and Jacobian"])

prop("C13", "Step sizes respect the configured limits",
 "The first trial uses the configured starting step in the direction of the final time; no recorded step is longer than dtmax, apart from the small stretch that lets the last step land on the final time (one percent, or 1/quot1 for Radau5) and step sizes set by hand; the proposed next step changes relative to the last one only within the configured ratio limits and never grows right after a retried step, and the last step lands on the final time to rounding.",
 ["configurations", "fault_sequences", "histories"],
 "for every option setting and fault-induced sequence of retries",
 T + "with default options only; the limits are never reached or asserted.",
 ["src/ode/options.rs", "src/ode/integrator.rs", "src/dorm_prince/dp5/prepare.rs", "src/dorm_prince/dp5/algorithm.rs", "src/radau/step_size_control.rs", "src/radau/algorithm.rs"],
 [("controller", "src/dorm_prince/dp5/prepare.rs, src/radau/step_size_control.rs"), ("builder", "src/ode/integrator.rs build")],
 observe=["dt, dtprev after each step", "time argument of right-hand-side calls"])

prop("C14", "A bad, stale or missing Jacobian costs work, never correctness",
 "For Radau5, if the supplied Jacobian returns NaN or infinite entries or values of an earlier point, or makes the iteration matrix singular, or is not supplied at all, then every recorded step is still the collocation step as accurately as the Newton convergence test demands; with a Jacobian that is wrong by a factor of up to two this is still so for the typical step; and in all cases, also with a zero Jacobian, the run either completes or stops with an honest error code. Not supplying the Jacobian costs at most a bounded factor of steps on well-posed problems, for states of either sign and over many orders of magnitude.",
 ["fault_sequences", "inputs", "configurations"],
 "for every sequence of Jacobian faults over the run",
 T + "the only Radau5 test supplies one correct Jacobian and asserts nothing.",
 ["src/ode/jacobian.rs", "src/linalg/dec.rs", "src/linalg/sol.rs"] + RA, [("Newton convergence control, Jacobian refresh", "src/radau/newton.rs"), ("factorisation failure handling", "src/radau/dec.rs"), ("finite differences", "src/ode/jacobian.rs")],
 observe=["sol", "sol.retcode", "step counts"])

prop("C15", "The result at the final time is accurate to tolerance despite faults and events",
 "When Success is reported for a stable problem, the state at the final time differs from the exact solution (with the same event changes applied at the same recorded times) by no more than a modest multiple of the accumulated tolerance weights, whatever transient faults, panics, event changes, option settings and driving schedule occurred on the way, in both time directions.",
 ["fault_sequences", "crash_points", "histories", "configurations", "inputs"],
 "for every fault, crash, event and driving history on stable problems with known solution",
 T + "one compares a harmonic oscillator with its solution, without faults, events or options.",
 DP + RA + ODE, [("whole integrator", "src/ode/integrator.rs, src/dorm_prince/dp5, src/radau")],
 observe=["sol at final time"])

prop("C16", "Linear-system kernels solve what they factor",
 "For every nonsingular dense, Hessenberg or banded, real or complex matrix the factor-and-solve kernels return the solution of the linear system up to rounding, and report a nonzero code for a singular matrix.",
 ["inputs"], "for every matrix and right-hand side", "Three fixed matrices are tested.",
 ["src/linalg/dec.rs", "src/linalg/sol.rs"], [("partial pivoting", "src/linalg/dec.rs")])
prop("C17", "Dense output interpolates the step",
 "Dense output evaluated inside the last step approximates the solution to the method's interpolation order and reproduces both step ends exactly.",
 ["inputs"], "for every step and interpolation point", "Nothing calls it.",
 ["src/dorm_prince/dp5/dense.rs", "src/radau/continuous_output.rs"], [("interpolation polynomial", "src/dorm_prince/dp5/dense.rs")])
prop("C18", "The methods converge with their nominal order",
 "As the tolerance is tightened the global error decreases and the work grows like the nominal order of the method.",
 ["inputs"], "for every smooth problem", "Tests use one tolerance.",
 DP + RA, [("coefficients", "src/dorm_prince/dp5/constants.rs, src/radau/constants.rs")])
prop("C19", "Finite-difference Jacobians approximate the true Jacobian",
 "The finite-difference Jacobian with respect to state or time approximates the derivative to about the square root of machine precision, for states of any sign and magnitude.",
 ["inputs"], "for every function and point", "Nothing tests it.",
 ["src/ode/jacobian.rs"], [("increment choice", "src/ode/jacobian.rs")])
prop("C20", "The Rodas algorithm integrates stiff problems",
 "Selecting the Rodas algorithm integrates the problem like the other methods do.",
 ["inputs"], "for every problem", "Nothing calls it.",
 ["src/rodas/algorithm.rs"], [("not implemented", "src/rodas/algorithm.rs")])

prop("C21", "Results do not depend on the units or on the direction of time",
 "Running the same problem with time or state measured in other units (a power of two, with abstol, dtstart and dtmax converted accordingly; state units for Radau5 with a supplied Jacobian) or with the direction of time reversed (t to -t, right-hand side and Jacobian negated) gives exactly the same run: bit for bit the same recorded points in those units, the same step sizes, retries, statistics, callbacks and return code, also under faults, panics and events.",
 ["histories", "fault_sequences", "configurations", "inputs"],
 "for every problem, unit change, fault and event history",
 T + "no test integrates backwards or in other units.",
 DP + RA + ODE, [("direction and scale dependent comparisons", "src/ode/integrator.rs, src/dorm_prince/dp5/algorithm.rs, prepare.rs, src/radau/algorithm.rs, step_size_control.rs")],
 observe=["sol", "everything visible after each step"])

prop("C22", "Acceptance and the next step size follow from the error estimate",
 "A trial step is thrown away only if its error estimate reaches the tolerance or an evaluation it used was bad. After every trial the next step size is the configured controller's value: for DormandPrince5 dt * clamp(safe * err^-(0.2 - 0.75 beta) * errold^beta, facl, facr) with errold the error of the last accepted step (at least 1e-4) when accepted, and dt * max(facl, safe * err^-(0.2 - 0.75 beta)) when rejected; for Radau5 dt / clamp(err^0.25 / fac, facr, facl) with fac reduced from safe according to the Newton iterations used, combined with Gustafsson's prediction from the last accepted step when modern_pred is set, a tenth after a rejected first step, and unchanged when the ratio lies between quot1 and quot2 and Newton's method converges well; at most dtmax, not larger than before after a retry. The first trial of a step uses the proposed step size unless the end is nearer.",
 ["histories", "fault_sequences", "configurations"],
 "for every history of accepted, rejected and failed trials, event and option setting (Radau5: linear problems, where the estimate is known exactly, and any problem and Jacobian by following Newton's method call by call)",
 T + "step sizes are never asserted.",
 ["src/dorm_prince/dp5/prepare.rs", "src/dorm_prince/dp5/error.rs", "src/dorm_prince/dp5/algorithm.rs", "src/radau/step_size_control.rs", "src/radau/error_estimate.rs"], [("PI controller", "src/dorm_prince/dp5/prepare.rs"), ("predictive controller", "src/radau/step_size_control.rs")],
 observe=["dt after each step", "times of the evaluations of each trial"])

prop("C23", "Newton's method sees the matrices of the current step",
 "When the right-hand side is linear in the state and the Jacobian handed out is exact, Radau5 needs at most two Newton iterations in every trial that no fault touches, whatever happened before: retries, faults, bad Jacobians, events, changes of step size, reused decompositions. With difference quotients the iterations per trial average at most four. With any Jacobian, every Newton correction is the solution of the real and the complex system formed from the Jacobian and the step size of that very trial.",
 ["histories", "fault_sequences", "inputs"],
 "for every history of faults, retries and events on linear problems up to dimension twelve",
 T + "the Radau5 test counts nothing.",
 ["src/linalg/dec.rs", "src/linalg/sol.rs"] + RA, [("reuse of decompositions", "src/radau/algorithm.rs, src/radau/step_size_control.rs"), ("complex and real solves", "src/radau/linear_solve.rs")],
 observe=["number and times of right-hand-side calls"])

prop("C24", "Every trial has a fixed price",
 "Apart from calls repeated because of a fault, a DormandPrince5 trial costs six right-hand-side calls, and one more is made per step only if a callback or the owner may have changed the state; a Radau5 trial costs three calls per Newton iteration, one per accepted step but the last, one more for the re-evaluated estimate of a retried or first step, at most one decomposition and at most one Jacobian (difference quotients: dimension plus one calls). On a linear problem with an exact Jacobian, Radau5 forms a new Jacobian only after a failed trial, and does not decompose again for a step of the same size as the last one.",
 ["histories", "fault_sequences", "configurations"],
 "for every history of faults, events and driving calls, also in the steps after the faults",
 T + "no test counts calls.",
 DP + RA, [("first-same-as-last reuse", "src/dorm_prince/dp5/algorithm.rs, prepare.rs"), ("evaluation counts", "src/radau/newton.rs, error_estimate.rs, step_size_control.rs")],
 observe=["number and times of right-hand-side and Jacobian calls", "stats.decompositions"])

prop("C25", "Options take effect however they are given",
 "An option has the same effect whether it is given by its setter (in any order, the last call counting), by assignment to the builder's public opts (dtstart: also its dt), or left at its default when the value is the default; the initial state, times and parameters may be assigned to the builder's public fields. After build the integrator's opts hold the values asked for (Radau5: reltol replaced by 0.1 reltol^(2/3), abstol in proportion, fnewt = 0 by max(10 eps / reltol, min(0.03, sqrt(reltol))) of the replaced reltol). Defaults: reltol 1e-3, abstol 1e-7, dense false, dtstart 1e-6, dtmax infinite, max_steps 100000, max_newt_iter 7, max_stiff 1000, modern_pred true, safe 0.9, use_ext_col true, hess false; DormandPrince5 facl 0.2, facr 10, beta 0.04; Radau5 facl 5, facr 1/8, quot1 1, quot2 1.2, theta 0.001, fnewt 0.",
 ["configurations", "histories", "fault_sequences"],
 "for every order and way of giving any subset of the options, under faults, events and driving schedules that make the options matter",
 T + "at most two options are set, by setters.",
 ["src/ode/integrator.rs", "src/ode/options.rs", "src/dorm_prince/dp5/algorithm.rs", "src/radau/algorithm.rs"], [("builder setters and build", "src/ode/integrator.rs"), ("defaults", "src/ode/options.rs and both algorithm.rs")],
 observe=["opts after build", "history, statistics, code and user calls of the run"])

prop("C26", "Every evaluation is made at the point the method prescribes",
 "Also in trials that are rejected, retried or interrupted: DormandPrince5 evaluates stage s at t + c_s dt in u + dt sum a_sj k_j with the values returned by the earlier calls of the same trial and the derivative at the step's start. Radau5 evaluates the stages at t + c_s dt; the first Newton iteration of a trial starts from the collocation polynomial of the last accepted step, extrapolated to the new stages (from the step's start itself before the first accepted step or without use_ext_col); each further iterate is the simplified Newton update with the Jacobian handed out last; the second error estimate is taken in the state plus the first estimate; derivatives at the start and end of a step are taken in exactly the state there; without a supplied Jacobian, difference quotients are formed from the state and from n points in which one component i is larger by sqrt(eps max(1e-5, |u_i|)).",
 ["histories", "fault_sequences", "configurations"],
 "for every history of faults, panics, bad Jacobians, retries, events and options, in accepted and rejected trials alike",
 T + "arguments of the right-hand side are never looked at.",
 DP + RA, [("stages", "src/dorm_prince/dp5/stages.rs"), ("starting values and iteration", "src/radau/newton.rs"), ("extrapolation coefficients", "src/radau/step_size_control.rs"), ("second estimate", "src/radau/error_estimate.rs")],
 observe=["time and state of every right-hand-side call", "Jacobians handed out"])

prop("C27", "Newton's method stops when it should, and what follows is as prescribed",
 "In every trial of Radau5 the iteration ends as converged exactly when the norm of the update times theta/(1 - theta) is at most fnewt, where theta is the contraction estimated in the trial (in its first iteration the factor left from the previous trial to the power 0.8, starting with 1). It fails exactly when theta reaches 0.99, when the error predicted for the last permitted iteration reaches fnewt, or when max_newt_iter iterations did not suffice. A failed trial is never recorded; the next trial is half as long, or shorter by 0.8 q^(-1/(3 + max_newt_iter - newt)) with q the predicted error over fnewt, limited to 1e-4..20. A retry after divergence or a rejection by the error test uses a Jacobian of the current state; after an accepted step a Jacobian is formed exactly when the contraction was worse than opts.theta.",
 ["histories", "fault_sequences", "configurations"],
 "for every history of right-hand-side and Jacobian faults (also finite but wrong or stale Jacobians), panics, events and options, on linear and nonlinear problems",
 T + "the Radau5 test looks at the result only.",
 RA, [("convergence control", "src/radau/newton.rs"), ("Jacobian reuse", "src/radau/step_size_control.rs")],
 observe=["time and state of every right-hand-side call", "Jacobians handed out", "step sizes of the trials"])

prop("C28", "Limits that do not bind and options that do not apply change nothing",
 "Two integrations that differ only in a final time neither has come near (up to there), a max_steps neither has used up, a dtmax larger than every step size proposed, the flags dense and hess, DormandPrince5's stiffness test interval max_stiff, options of the other method (DormandPrince5: max_newt_iter, modern_pred, use_ext_col, quot1, quot2, fnewt, theta and a supplied Jacobian; Radau5: beta), or for DormandPrince5 in a callback that only looks, record bit for bit the same points with the same proposed step sizes and (apart from the evaluations a callback causes) the same statistics and calls, also under faults, panics and events.",
 ["histories", "fault_sequences", "configurations"],
 "for every history of right-hand-side and Jacobian faults, panics and events, and every subset of the changes",
 T + "no test compares two runs.",
 DP + RA, [("step ends and limits", "src/dorm_prince/dp5/prepare.rs"), ("step ends and limits", "src/radau/step_size_control.rs"), ("options", "src/ode/options.rs")],
 observe=["recorded points", "step sizes after every call", "statistics", "calls of user code"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
