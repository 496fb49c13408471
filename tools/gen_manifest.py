"""Writes MANIFEST.json."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
T = {
 "C17": "runtime monitoring: UTF-8 monitor on every string and on log output under hostile byte workloads, AddressSanitizer build, Miri",
 "C10": "runtime monitoring: constructor verdicts watched over random production graphs, offline graph oracle",
 "C11": "runtime monitoring: attempt counters at instrumented terminals, step bounds from a reference evaluator, crash and hang watchdog",
 "C15": "runtime monitoring: evaluation counters on memoized productions, differential against the unmemoized grammar",
 "C16": "runtime monitoring: offline checker over recorded call histories",
 "C21": "runtime monitoring: differential between logged and unlogged runs and between build profiles (debug assertions and overflow checks on)",
 "C22": "runtime monitoring: list-model monitor on every stream query",
 "C25": "runtime monitoring: captured standard output compared with the event log of probes around every production and lexeme",
 "C26": "runtime monitoring: captured output and formatted strings read back and compared with the tree, debug and release builds",
 "C23": "runtime monitoring: online checker over the recorded evaluations of every production",
}
D = "runtime monitoring: reference-model oracle over executions of random programs and inputs, debug (overflow and debug assertions on) and release builds"
NOTE = ("Held on the executions counted in the evidence file, made by generated programs and inputs; no claim beyond them. Trusts the reference "
        "model in /verif/harness/src and the regex crate.")
NOTES = {
 "C10": NOTE + " One open finding (recursion through non-structural and back into structural parsing) is listed in known_findings.txt.",
 "C11": NOTE + " An endless run is recognised by attempt budgets, and by a CPU-time limit far above the cost of a case.",
 "C17": NOTE + " AddressSanitizer and Miri see a part of the workload; red-zone misses apply.",
}
m = {
 "version": 1,
 "setup_cmd": "python3 check.py setup",
 "hooks": {"guard": "cfg(lang_pt_verif)", "enable": "RUSTFLAGS=\"--cfg lang_pt_verif\" (check.py sets it for the harness build)",
           "source_commits": ["177cdee"]},
 "checks": [{"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
             "evidence_file": "evidence/%s.json" % i, "technique": T.get(i, D), "level": "exploration", "level_note": NOTES.get(i, NOTE)}
            for i in ids],
 "not_applicable": [],
 "notes": "See DESIGN.md. Open and repaired defects: known_findings.txt.",
}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
