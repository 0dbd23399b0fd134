#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = "deterministic simulation with fault injection: seeded scenarios (%s) run against the real library"
C = {
 "C01": ("transient NaN/Inf evaluations, events", "each recorded step recomputed with an independent reference step"),
 "C02": ("faults aimed at the evaluations feeding the estimate", "embedded error recomputed for each recorded step"),
 "C03": ("transient and persistent NaN/Inf/overflow, walls, Jacobian faults", "finiteness and walls checked on every point and after every call"),
 "C04": ("hostile environments, persistent faults, extreme options", "evaluation budgets, hang monitor, step budget"),
 "C05": ("bursts of right-hand-side and Jacobian faults", "bounded liveness against the fault-free twin run"),
 "C06": ("hostile environments, events, horizon changes", "each return code compared with the facts seen by the environment"),
 "C07": ("random driving schedules, calls after the end", "bit-equality with the plain step loop under the same faults"),
 "C08": ("panics (clean or torn) at arbitrary user calls, resumed", "consistency after each panic, fidelity of the resumed run; plus every single call of small runs as crash point"),
 "C09": ("interleaved, preempted-thread and nested integrators", "bit-equality with each integrator run alone, in several processes"),
 "C10": ("event callbacks and direct changes between calls", "one callback per step, fidelity from the changed state"),
 "C11": ("faults, events, driving schedules", "history invariants after every call"),
 "C12": ("faults, events, panics, driving schedules", "counters compared with calls counted by the environment"),
 "C13": ("option swarm with fault-induced retries", "trial and recorded step sizes compared with the limits"),
 "C14": ("Jacobian faults, missing Jacobian", "recorded steps compared with exact collocation steps"),
 "C15": ("faults, panics, events, options, schedules", "final state compared with the closed-form solution through the same events"),
 "C21": ("faults, panics, events, hostile environments and unit changes", "bit-exact comparison with the same run in other units or reversed time"),
 "C22": ("transient faults, events, direct changes and controller options", "trial-by-trial comparison with a reference step-size controller"),
 "C23": ("transient and Jacobian faults, events on linear problems", "Newton iterations counted from the simulated right-hand side's calls"),
 "C24": ("faults, events, driving calls", "user calls per trial counted by the simulated environment"),
 "C25": ("options given in every order and way, with faults and events that make them matter", "stored options and bit-equality with the same options given in the standard way"),
 "C26": ("faults, panics, bad Jacobians, events", "every evaluation point recomputed from the values the environment returned before"),
 "C27": ("right-hand-side and Jacobian faults, panics, events", "Newton's method followed iteration by iteration by a reference model"),
 "C28": ("faults, panics, events; a second run with non-binding limits and foreign options changed", "bit-equality of the two runs as far as both go"),
}
NA = {
 "C16": "The kernels are pure functions of a matrix; there is no schedule, fault or history to simulate. The dense ones are exercised indirectly by C01, C02 and C14; the Hessenberg and banded ones are not reachable from the public API.",
 "C17": "Interpolation inside a step is a pure function of the step; moreover nothing in the public API evaluates dense output, so a simulation cannot observe it.",
 "C18": "An asymptotic statement about fault-free pure computation; order is a property of the formulas, not of any schedule or fault sequence. Wrong coefficients are caught by the reference steps of C01.",
 "C19": "A pure function of function and point and not public; only its effect on Radau5 can be observed, which C14 and C26 (its evaluation points) do. The time derivative is never called.",
 "C20": "The Rodas algorithm is unimplemented!() (building an integrator with it panics), so there is no behaviour to simulate.",
}
m = {"version": 1, "setup_cmd": "./run.sh setup",
 "checks": [{"property": k, "quick_cmd": "./run.sh check " + k, "thorough_cmd": "./run.sh check " + k,
   "evidence_file": "evidence/%s.json" % k,
   "technique": T % v[0], "level": "exploration",
   "level_note": v[1] + "; samples seeded scenarios, so absence of violations is evidence for the explored ones only"} for k, v in C.items()],
 "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
 "notes": "No hooks in the repository: every seam is in the public API (right-hand side, Jacobian, callback, driver calls). run.sh replay FILE re-executes a replay file. KNOWN_FINDINGS.txt lists the defects found and repaired."}
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json")
json.dump(m, open(out, "w"), indent=1)
open(out, "a").write("\n")
