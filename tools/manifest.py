#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a property is claimed when checks/<id>.py exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "exhaustive bounded enumeration on the real code"
INFO = {
 "C01": ("model_checking", T + ", compared with table-driven lexer models", "Complete over the stated token alphabets and lengths; texts whose classification the language leaves open (unclosed constructs, and the quirks listed in DESIGN.md) are left to C03."),
 "C02": ("model_checking", T + ", compared with a host/embedded document model", "Complete over the stated token alphabets and lengths for well-formed documents."),
 "C03": ("model_checking", T + " of byte and token strings with invariants on every report", "Complete over the stated strings; says nothing about longer ones."),
 "C04": ("model_checking", T + " of byte and token strings with invariants on every entity report", "Complete over the stated strings; says nothing about longer ones."),
 "C05": ("model_checking", T + ": all parse histories to a depth, differential against a fresh process", "Complete over the stated operation set and history length."),
 "C06": ("model_checking", T + " under address and undefined-behaviour sanitizers", "A memory error is found if the sanitizers can see it on an enumerated input."),
 "C07": ("model_checking", T + " of all pairs of small texts against a dynamic-programming reference", "Complete over the stated line alphabets and counts."),
 "C08": ("model_checking", "explicit-state exploration of operation sequences on the real lists against an ordered map", "Complete to the stated depths; deeper states only through one representative history each."),
 "C09": ("model_checking", T + " of keys, near-keys and short strings against the documented tables", "Complete over the stated strings."),
 "C10": ("model_checking", T + " of file-name shapes, contents and sniffer answers against a precedence model", "The magic database is replaced by an enumerated environment; the real database is not judged."),
 "C11": ("model_checking", T + " of marker strings and companion names against per-rule models", "Complete over the stated marker alphabets and lengths."),
 "C12": ("model_checking", T + " of accessor histories against a reference object", "Complete over the stated files and history length."),
 "C13": ("fault_enumeration", "exhaustive fault injection at every I/O call of recorded runs", "Faults are those of the intercepted libc calls."),
 "C14": ("model_checking", T + " of directory trees and listing orders against a reference walk", "Complete over the stated trees."),
 "C15": ("model_checking", T + " of file sets and argument lists on the built program, reports cross-checked", "Complete over the stated pools."),
 "C16": ("model_checking", T + " of phrase combinations against a reference matcher", "Complete over the stated phrase pool and sizes."),
 "C17": ("model_checking", T + " of document pairs against a reference diff", "Complete over the stated documents."),
 "C18": ("model_checking", T + " of constructor options and accessor orders through the Ruby binding, differential against the library", "Complete over the stated pools."),
 "C19": ("model_checking", T + " of rule trees and file sets and orders against a reference evaluator", "Complete over the stated pools."),
}
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    i = json.loads(l)["id"]
    if os.path.exists(V + "/checks/%s.py" % i):
        lev, tech, note = INFO[i]
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick ./check " + i,
                       "thorough_cmd": "VERIF_TIER=thorough ./check " + i,
                       "technique": tech, "level": lev, "level_note": note})
    else:
        na.append({"property": i, "reason": "its check is not built yet"})
m = {"version": 1, "setup_cmd": "python3 lib/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Every check rebuilds the library from /repo's working tree (parsers and hash tables regenerated by the project's own scripts) under /verif/.build. No hooks are needed in /repo."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
