"""Regenerates MANIFEST.json from properties.jsonl and the checks present in mc/props."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "exhaustive bounded enumeration of source databases (all presence combinations, all <=k-deviation databases), real merge against a reference union/sum model",
 "C02": "exhaustive enumeration of source sets x orders x merge trees on the real merger",
 "C03": "exhaustive enumeration of operation histories (merge/hit/create/modify) of real databases in lockstep with a model",
 "C04": "exhaustive enumeration of databases, real report builder against exact rational arithmetic",
 "C05": "exhaustive enumeration of databases, real report compared item by item with the model",
 "C06": "exhaustive enumeration of databases x formatter settings, report text parsed against the model",
 "C07": "exhaustive enumeration of databases, JSON report parsed against the model",
 "C08": "exhaustive enumeration of databases, source locations and histories; output judged by a pristine copy of the schema",
 "C09": "exhaustive enumeration of databases through the real XML write/read pair against a round-trip model",
 "C10": "exhaustive enumeration of history trees, field values and time zones through the real XML write/read pair",
 "C11": "exhaustive enumeration of documents and of their lexical variants through the real reader against a document model",
 "C12": "exhaustive enumeration of structural mutations and truncation points of documents; verdict of the real reader against the schema",
 "C13": "exhaustive enumeration of YAML documents and notations through the real reader against a model",
 "C14": "exhaustive enumeration of structural mutations of YAML documents against an independent validator",
 "C15": "exhaustive enumeration of API call sequences, real database in lockstep with a tree model",
 "C16": "exhaustive enumeration of property/API call sequences, real objects in lockstep with a model; C-style against object API",
 "C17": "exhaustive enumeration of operation histories with shared and fresh objects against fresh-process baselines",
 "C18": "exhaustive enumeration of command pipelines over enumerated inputs through the real command line",
 "C19": "fault injection at every point of every command (inputs, formats, outputs, exceptions at every call) with file-state oracle",
 "C20": "exhaustive enumeration of call sequences and argument values against a recording UCIS C library",
 "C21": "exhaustive enumeration of hit/merge histories, invariants checked after every step",
 "C22": "systematic exploration of thread interleavings of the real code under a controlled scheduler (every stop position, at most two switches)",
 "C23": "exhaustive enumeration of registration sequences in lockstep with a map model, and of commands over recording formats",
}
NOTE = ("Bounded exhaustive: every choice vector of the spaces listed in the evidence is executed on the real code and compared with an "
        "independent reference model; nothing is sampled. Assumes the bounds (widths, alphabets, depth, number of simultaneous "
        "deviations) stated per space in the evidence, CPython and the installed libraries.")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "mc/props/%s.py" % i.lower())):
        checks.append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "./check %s --tier thorough" % i,
                       "technique": "model checking: " + TECH[i],
                       "level": "fault_enumeration" if i == "C19" else "model_checking", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "no hooks in /repo are needed; checks import /repo/src directly", "source_commits": []},
     "notes": "All commits in /repo are fix: commits, recorded in known_findings.json. Replay a violation: ./check <id> --replay <file>."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
