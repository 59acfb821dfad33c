#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {
    "C01": ("crash, CPU and tree well-formedness monitor over generated and hostile texts in worker processes", "texts up to 64 kB; no claim beyond the explored texts"),
    "C02": ("differential run against a reference grammar interpreter, incl. all short token sequences", "trusts the reference grammar kept in the harness as the intended language"),
    "C03": ("planted-value monitor: literals and names read back from the tree", "valid UTF-8 strings"),
    "C04": ("metamorphic monitor over layout and spelling variants of one query", "variants are generated by the harness's renderer"),
    "C05": ("round-trip monitor: parse, print, parse, print", "trees come from accepted texts"),
    "C06": ("planted-conjunct monitor on joined queries", "members are accepted queries"),
    "C07": ("trace checker: recorded handler calls against the harness's own walk", "handlers set before initialisation"),
    "C08": ("step monitor: the compiler's execution counters and allocated bytes under growing families of texts", "growth judged up to n=256 (1024 in the thorough tier)"),
    "C09": ("history checker: first answers and snapshots of shared values over long random histories", "one process per core, 80 operations per history"),
    "C10": ("race detector plus history checker on goroutine rounds, cold starts included", "schedules the Go scheduler produces with yields and changing GOMAXPROCS"),
    "C11": ("reference-model check: rows from a real database against an independently written statement", "SQLite with one seeded table"),
    "C12": ("reference-model check: rows through joins against correlated subqueries", "SQLite with seeded tables"),
    "C13": ("recording connection and paired runs with exchanged literals", "SQLite and a numbered-placeholder dialect"),
    "C14": ("reference-model check of random filter combinations against their intersection", "SQLite with seeded tables"),
    "C15": ("fault injection with a recording connection that must see no statement", "fault kinds listed in the check"),
    "C16": ("probe of every name of random model types against one row of distinguishable columns", "names two fields could claim equally are left out"),
    "C17": ("reference-model check: rows of ent statements on a real database against an independently written statement", "SQLite with seeded tables"),
    "C18": ("reference-model check: rows of edge conditions against correlated EXISTS", "SQLite, foreign keys consistent"),
    "C19": ("text monitor: placeholders, numbering, casts, names and arguments read back from the statement, paired runs with exchanged literals", "three dialects, text and arguments only"),
    "C20": ("fault injection: planted unsupported constructs must surface as errors without text", "fault kinds listed in the check"),
    "C21": ("reference-model check: structure of the predicate, and rows of its evaluation on a real database", "rows only for predicates with a column on the left"),
    "C22": ("fault injection with a recording target", "fault kinds listed in the check"),
    "C23": ("metamorphic monitor: descriptions of pairs of trees that are equal or differ in one detail", "string literals whose text shows their type"),
}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
            "technique": T[i][0], "level": "exploration",
            "level_note": "The property held on every execution observed in this run. " + T[i][1][0].upper() + T[i][1][1:] + ".",
            "evidence_file": f"evidence/{i}.json",
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Runtime monitors; no hooks in /repo. Every check builds the code under test from /repo's working tree through a module replace."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(na), "not applicable")
