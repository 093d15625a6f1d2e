#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SYN = ("TLA+ model of the SELECT dialect and its layout (SqlText, Dialect, Syntax, Query), explored by TLC breadth first "
       "and by seeded random walks; every state is replayed through the real formatter")
TRUST = " Assumes the model's dialect and layout rules, TLC and the replay; queries outside the modelled dialect or beyond the explored depth are not decided."
LEVEL = {
    "C01": ("model_checking", SYN, "Output is read as exactly the state's token sequence for every reached query in three spellings." + TRUST),
    "C02": ("model_checking", SYN, "format(format(q)) = format(q) for every reached query." + TRUST),
    "C03": ("model_checking", SYN, "Random spacing/case, tightest spacing and one-token-per-line spellings of every reached query format alike." + TRUST),
    "C04": ("model_checking", SYN, "Every name and literal of every reached query appears verbatim in its place." + TRUST),
    "C05": ("model_checking", SYN, "Output equals the layout the model computes, character for character." + TRUST),
    "C07": ("model_checking", SYN, "Every keyword-like token of every reached query is upper case in the output." + TRUST),
}
VER = ("TLA+ semantics of the dialect (Semantics: scopes, fields, types, errors) on the same TLC-explored graph of queries; "
       "every state is replayed through the real validator and the error lists compared")
LEVEL["C06"] = ("model_checking", SYN.replace("Query)", "Wide)"), "Every condition/call of every reached query, at every length from 86 to 90, is broken exactly as the model says." + TRUST)
for p, what in {
    "C08": "No query the model holds valid is rejected.",
    "C09": "The errors of queries that use missing columns are exactly the model's.",
    "C10": "The messages about names (missing, not in alias, ambiguous) are exactly the model's.",
    "C11": "The messages about GROUP BY and ORDER BY positions are exactly the model's.",
    "C12": "The messages about LIMIT and OFFSET are exactly the model's.",
    "C13": "The messages about boolean operands are exactly the model's.",
    "C14": "The messages about join conditions are exactly the model's.",
    "C15": "Errors are equal for plain, randomly spaced/cased, tight and one-token-per-line spellings and the formatted text.",
}.items():
    LEVEL[p] = ("model_checking", VER, what + TRUST)
FILES = ("TLA+ model of Python files and string literals (PyLit, PyFile, Files), explored by TLC breadth first and by seeded random "
         "walks; every state is written to disk and the real command line is run on it")
FTRUST = (" Assumes the model of Python's literals and of the rewriting rules; what a SQL text formats to or which errors it has is asked of "
          "the code itself (decided by C01-C15).")
for p, what in {
    "C17": "Everything outside the SELECT literals of every reached file is byte for byte the same after --format, in three encodings and three line end conventions.",
    "C18": "Every rewritten literal is read back by Python as exactly the formatted SQL; none is rewritten that cannot be.",
    "C19": "Exactly the eligible strings of every reached file are rewritten and reported.",
    "C20": "--check-format and --format name the same files in every mode; runs that only look write nothing.",
    "C21": "A second --format changes nothing and --check-format is content.",
    "C22": "The report, the locations, the totals and the exit status are exactly the model's in all modes.",
    "C24": "A file that cannot be analysed is reported, left alone, and nothing else changes.",
}.items():
    LEVEL[p] = ("model_checking", FILES, what + FTRUST)
HISTORIES = FILES.replace("(PyLit, PyFile, Files)", "and of histories of runs and edits over a tree of files (PyLit, PyFile, Files, Cli)")
for p in ("C20", "C21", "C22", "C24"):
    LEVEL[p] = ("model_checking", HISTORIES, LEVEL[p][2])
LEVEL["C23"] = ("model_checking", HISTORIES.replace("PyLit, PyFile, Files, Cli", "PyFile, Cli"),
                "In every reached history each Python file of the inputs is analysed, reported, counted and written exactly once, and no other file is." + FTRUST)
LEVEL["C16"] = ("model_checking", "TLA+ model of query objects and histories of calls on them (QueryObject), explored by TLC; each history is replayed on the real objects "
                "with queries reached in Semantics/Verdict, every answer compared with a fresh process's; damaged queries (Damage) are never valid if they cannot be formatted",
                "Every answer in every replayed history is the one a fresh process gives for the text alone. Assumes TLC and the replay; other texts and longer histories are not decided.")
DMG = " For texts outside the dialect: queries the model damages token by token (Damage) are judged by what holds for any text."
for p in ("C01", "C02", "C03", "C15"):
    LEVEL[p] = LEVEL[p][:2] + (LEVEL[p][2] + DMG,)
for p in ("C01", "C02", "C03", "C04", "C07"):
    LEVEL[p] = (LEVEL[p][0], LEVEL[p][1].replace("Syntax, Query)", "Syntax, Query, Wide, Literal)"), LEVEL[p][2])
LEVEL["C15"] = (LEVEL["C15"][0], LEVEL["C15"][1].replace("graph of queries", "graph of queries and literals (Literal)"), LEVEL["C15"][2])
VOC = " Every word of the dialect's vocabulary is placed in every role it has, and as a name where it has none (Words)."
for p in ("C01", "C02", "C03", "C04", "C05", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15"):
    LEVEL[p] = LEVEL[p][:2] + (LEVEL[p][2] + VOC,)
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    if p in LEVEL:
        level, technique, note = LEVEL[p]
        checks.append({
            "property": p,
            "quick_cmd": "/opt/venv/bin/python harness/check.py " + p,
            "thorough_cmd": "VERIF_TIER=thorough /opt/venv/bin/python harness/check.py " + p,
            "technique": technique,
            "level": level,
            "level_note": note,
        })
manifest = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -c 'import json' && java -version",
    "checks": checks,
    "not_applicable": [{"property": p, "reason": "check under construction"} for p in props if p not in LEVEL],
    "notes": "Nothing is built from /repo: the checks import the package from /repo's working tree. No hooks: the public API and the command line expose the states the specification speaks about.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
