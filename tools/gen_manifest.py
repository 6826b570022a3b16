#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the tables below."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection"
COMMON = (" Sampling, not proof: it covers the seeded runs executed. Trusts the simulator in /verif/sim "
          "(stand-in allocator, scheduler, object adapters), clang and AddressSanitizer.")
NOTES = {
 "C01": ("seeded histories of edits, switches, interrupted calls and questions on the real objects, compared with a newly built object (refinement against a fresh replica)", "exploration",
         "Every object kind is run through seeded edit/question histories; every answer is compared with that of a new object holding the current inputs."),
 "C02": ("two executions of one seeded history, one with extra questions and validations injected, compared answer by answer", "exploration",
         "The same history is executed with and without injected observations; all common answers must agree bit for bit."),
 "C03": ("seeded edit histories with rejected edits and failing allocations; invariant evaluated after every operation", "exploration",
         "The consistency invariant is evaluated from the public accessors after every operation of seeded edit histories."),
 "C04": ("seeded edit histories against an executable reference model of the line document", "exploration",
         "Each edit's verdict, index and resulting document are compared with a small reference model written from the documented rules."),
 "C05": ("seeded edit/question interleavings against a rebuilt line and an independent polyline model", "exploration",
         "All reported coordinates are compared with a line rebuilt from scratch and with an independent polyline computation."),
 "C06": ("seeded histories with copies taken at arbitrary points, sources edited, reused and destroyed", "exploration",
         "Copies are compared with the originals' answers; either side is then edited or destroyed under AddressSanitizer."),
 "C07": ("systematic allocation-failure injection at allocation points of seeded histories, retried and compared with the failure-free run", "fault_enumeration",
         "Within each seeded history allocation failures are injected at enumerated allocation points of the calls; survivors are compared with the failure-free execution."),
 "C08": ("seeded histories that inject bad inputs, ask, repair and ask again, compared with a fresh replica at every step", "exploration",
         "Bad inputs are injected and repaired at seeded points; answers during and after are compared with a new object's."),
 "C09": ("seeded scheduler preempting sessions at library control-flow edges inside calls, compared with solo executions", "exploration",
         "Sessions run as coroutines preempted at seeded library edges; each session's answers must equal its solo run."),
 "C10": ("seeded histories with hostile numeric inputs under a step budget counted on library edges", "exploration",
         "Every call is run under a deterministic step budget; exceeding it is a violation."),
 "C11": ("seeded histories with deep snapshots of all inputs before and after every call", "exploration",
         "All inputs are snapshotted through their public accessors around every call."),
 "C12": ("the same seeded history executed under different heap fills, stack garbage and allocation histories, compared bit for bit", "exploration",
         "Three executions of each history with different memory contents and placement must give identical logs."),
 "C13": ("seeded configuration orders with abandoned configurations and invalid values; validation at every stage", "exploration",
         "Validation is called after every configuration step, with and without list, and its verdicts are cross-checked."),
 "C14": ("simulated time: seeded durations, restarts and clock-boundary questions, histories compared with each other and with the steady state", "exploration",
         "Histories over many durations and restarts are compared point by point and against the steady solver."),
 "C15": ("seeded sagging histories: repeated, restarted and failing passes compared with each other", "exploration",
         "Line cables are sagged repeatedly from different starting limits; results are compared within the solver tolerance."),
 "C16": ("seeded histories of edits, bad and repaired inputs, copies and calls interrupted by failing allocations; the closed-form geometry is judged as an invariant of every history", "exploration",
         "After seeded points of each history every answer is recomputed with an independent closed-form reference."),
 "C17": ("seeded histories of edits, bad and repaired inputs, copies and calls interrupted by failing allocations; the mechanics are judged as invariants of every history", "exploration",
         "After seeded points of each history loads, strains, lengths, tensions and limits are recomputed independently or checked for consistency."),
 "C18": ("seeded histories of edits, bad and repaired inputs, copies and calls interrupted by failing allocations; the heat balance is judged as an invariant of every history", "exploration",
         "After seeded points of each history heat terms, balances, steps and the sun are recomputed with an independent reference."),
}


def main():
    props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
    checks = []
    for pid in sorted(NOTES):
        tech, level, note = NOTES[pid]
        checks.append({
            "property": pid,
            "quick_cmd": "python3 tools/check.py %s" % pid,
            "thorough_cmd": "python3 tools/check.py %s --tier thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": "%s: %s" % (T, tech),
            "level": level,
            "level_note": note + COMMON,
        })
    na = [{"property": p["id"],
           "reason": "Stateless free functions of their arguments: no object, history, scheduling, time, I/O, randomness or "
                     "fault takes part, so there is nothing for a simulator to control and injecting faults could not "
                     "decide it."}
          for p in props if p["id"] not in NOTES]
    m = {"version": 1, "setup_cmd": "python3 tools/check.py --build", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo are needed: allocation is seamed with replaced operator new/delete, "
                  "scheduling with compiler-inserted edge callbacks (-fsanitize-coverage=trace-pc-guard), stack and heap "
                  "contents by the simulator. See DESIGN.md."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
