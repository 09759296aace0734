#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "sanitized executions of the real CLI under random coherent trees; online oracle (exhaustive truth-table minimal cut sets) over the report",
    "C02": "sanitized executions under random non-coherent trees; truth-table oracle over the report",
    "C03": "sanitized executions; truth-table prime-implicant oracle over the report",
    "C04": "sanitized executions; exact probability oracle (weighted truth table) over the report",
    "C05": "sanitized executions; self-consistency and definition monitor over every reported product figure",
    "C06": "sanitized executions; definition oracle recomputing every importance factor",
    "C07": "sanitized executions; reference CCF expansion compared with the report",
    "C08": "sanitized executions; statistical oracle against an independent simulation, consistency monitor over the report",
    "C09": "sanitized executions; curve and SIL oracle evaluated independently at every reported time",
    "C10": "sanitized executions under random event trees; reference path interpreter as oracle",
    "C11": "sanitized in-process probe of real expression objects under random expressions; independent evaluator as oracle",
    "C12": "per-trial sample trace of the real expression objects; distribution tests, sample-reuse and bound monitors",
    "C13": "mutation workload (one defect per model) against the sanitized CLI; rejection monitor over exit status, diagnostic and output",
    "C14": "sanitized executions over all analysis kinds; schema validation and cross-check of every report section against the input model",
    "C15": "round-trip executions (serialise, load, analyse, serialise); offline comparison of documents and reports",
    "C16": "differential executions under perturbed memory layout, verbosity, indentation and destination; report comparison",
    "C17": "sanitized executions with settings drawn for project file and command line; effective-settings monitor against a precedence model",
    "C18": "sanitized executions with alignments; per-phase reference analysis as oracle",
    "C19": "sanitized executions with substitutions; truth-table oracle on the constrained function and rewritten products",
    "C20": "sanitized executions; differential against the unlimited run and the truth-table oracle",
    "C21": "stress executions on large trees; cross-algorithm differential and an independent decision-diagram engine",
    "C22": "sanitized fuzzing of the real CLI (byte, token and structure mutation, hostile arguments) with memcheck on a sample; termination monitor",
    "C23": "sanitized GUI model driven by random command sequences; snapshot and notification monitors on every undo and redo",
    "C24": "sanitized GUI table models driven by random edits; online mirror of rows and cells fed only by the emitted signals",
    "C25": "sanitized GUI dialogs and main window driven offscreen; entered values against the model and the reloaded saved file",
    "C26": "executions of the generator under random factors; document monitor against the request and the real loader",
    "C27": "metamorphic executions (permute, split, rename, move); report comparison and name-resolution oracle",
    "C28": "output fault injection (full device at every offset, bad destinations) under the sanitized CLI; exit-status monitor",
    "C29": "executions with recording external libraries; call-log monitor and rejection monitor",
    "C30": "in-process sequences of analyses under sanitizers; comparison with fresh-process results and model snapshots",
    "C31": "real validators driven with generated and boundary strings; definition oracle",
    "C32": "sanitized diagram scenes open during random command histories; item, geometry, activation and export monitors against the specification's state",
    "C33": "scripted sessions of the real GUI program under sanitizers over shared user settings; session-state monitor over menus, preferences, files and rows",
}
NA = {}
pend = "no check has been built for it yet"
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "python3-vt run.py %s" % i, "thorough_cmd": "python3-vt run.py %s --thorough" % i,
                       "technique": TECH[i], "level": "exploration",
                       "level_note": "Observed executions of the real code under ASan/UBSan judged by an oracle; holds on the executions explored, not proved for all inputs."})
    else:
        na.append({"property": i, "reason": NA.get(i, pend)})
m = {"version": 1, "setup_cmd": "python3-vt run.py setup", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks;", len(na), "not claimed")
