#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("generated runs, operator histories and extreme adaptation runs against a spec-conformance oracle", "Every parameter set handed to the objective function (and the reported best) is checked key by key against an independent reading of the spec. Exploration of generated specs, guesses, schedules and objective behaviours; no absence proof."),
 "C02": ("generated runs with a scripted objective against a recomputed minimum/mean oracle", "The harness owns every returned value and the completion order, and recomputes the best-seen from its own log."),
 "C03": ("generated runs over budget x concurrency x outcomes x completion order, counting starts", "Starts are counted by the objective stand-in; the report's counts are compared to them."),
 "C04": ("generated runs with terminate/target events at chosen schedule points, real-thread and real-process runs, against an event-order oracle", "Deterministic scheduling of the async run plus wall-clock runs of the real binary with generous deadlines."),
 "C05": ("generated schedules with a start/finish log against the exact in-progress count", "The number in progress is known at every quiescent point."),
 "C06": ("generated runs with one or more injected failures against a first-failure oracle", "Failures injected at every kind of schedule point, also through the child-process interface."),
 "C07": ("fault-injection runs of the real binary with scripted process trees and a /proc scan", "The tool runs under a subreaper supervisor that lists every process left when it returns; wall-clock based with generous margins."),
 "C08": ("generated runs against id/seed/parameter-set bookkeeping", "Ids and seeds are inferred from the detailed records and the objective's log."),
 "C09": ("metamorphic: the same generated run twice, in one process and in fresh processes", "Both runs must agree in every start (parameters, id, seed) and in the final report."),
 "C10": ("grammar-based generation and mutation of spec documents against an independent reference parser", "Differential against a reference model plus a well-formedness predicate over everything accepted."),
 "C11": ("round-trip and differential guess generation against a conformance oracle, metamorphic runs", "Conforming values round-trip, each single defect is rejected, arbitrary JSON never crashes; run-level relations."),
 "C12": ("generated parents and recombinations against a provenance oracle", "Every position of the offspring is traced to a parent sharing that position."),
 "C13": ("generated mutation histories against a locality oracle", "Input and output are compared position by position, with key bookkeeping across a history."),
 "C14": ("generated runs against the recomputed counts, records and files", "Counts, records and files are recomputed from the objective's own log."),
 "C15": ("fuzzed objective values, child outputs and verbose settings; panic and hang detection", "Panics on any thread, endless polls and endless runs are detected; wall-clock deadlines only where processes are involved."),
 "C16": ("generated command lines and scripted child behaviour against a protocol model, real binary", "The real binary is run in scratch directories; argv, exit status, stdout and files are compared to a model."),
 "C17": ("statistical battery of known-optimum problems plus operator liveness, mixing and rank-frequency checks", "Deterministic seeds; limits derived from the reference tree with wide margins."),
}
NA = {}
import sys
built = sys.argv[1:] or list(T)
m = {"version": 1, "setup_cmd": "bash check.sh setup", "checks": [], "not_applicable": []}
for p, (tech, note) in T.items():
    if p not in built:
        m["not_applicable"].append({"property": p, "reason": "the check is not built yet"})
        continue
    m["checks"].append({"property": p, "quick_cmd": f"bash check.sh run {p} quick", "thorough_cmd": f"bash check.sh run {p} thorough",
        "technique": "property-based testing: " + tech, "level": "exploration", "level_note": note})
for p, r in NA.items():
    m["not_applicable"].append({"property": p, "reason": r})
json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(D, "MANIFEST.json"), "a").write("\n")
