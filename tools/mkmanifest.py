#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per checks/cNN.py, the rest under not_applicable."""
import glob, json, os, sys
sys.path.insert(0, "/verif")
V = "/verif"
NA = {
 "C28": "Reproducing the committed files byte for byte means running the generators; statically only their effect on the tables can be compared (C04, C05, C06, C20 do), not their text.",
 "C29": "Running time is not decided: no sound static cost bound for the scanner's backtracking (yyless) and for string copies is in reach of this analysis.",
}
LATER = "no static rule has been built for it yet in this tree"
TECH = {
    "C25": "abstract interpretation of MIR: partitions of the operator rule against the prescribed cut points, over all bounded operator runs",
 "C04": "table semantics: LALR automaton of gram.y computed independently, compared cell by cell with the tables read through the summarised lookup functions (abstract interpretation of MIR)",
 "C05": "constant propagation through the conversion functions, compared entry by entry",
 "C06": "automata product of MIR-extracted scan tables with flex automata; loop summary of the matcher",
 "C07": "abstract interpretation of MIR per scanner rule against prescribed effects",
 "C08": "constant propagation of the keyword map; summary of the lookup; rule partitions",
 "C01": "loop summaries of the driver and tree emission (abstract interpretation of MIR) plus span obligations of the scanner",
 "C02": "panic-freedom: every panicking partition of the MIR summaries contradicted by facts from the automata, decoded LR tables and loop summaries",
 "C23": "both copies summarised separately (automata product, abstract interpretation of MIR per rule) and compared obligation by obligation",
 "C03": "termination analysis: reduce-chain graph of the decoded LR tables, per-rule progress measure of the scanner from MIR summaries",
 "C09": "summary of the token filter compared with base_yylex's table, partition by partition",
 "C10": "loop summaries of the driver and tree emission (abstract interpretation of MIR)",
 "C11": "loop summary of the driver: error-returning partitions",
 "C16": "loop summaries of the tree emission in both feature configurations",
 "C12": "abstract interpretation of MIR per scanner rule: error partitions",
 "C19": "abstract interpretation of one arbitrary pass of the conflict loop (MIR), compared with bison's precedence rules partition by partition",
  "C20": "abstract interpretation of one arbitrary pass of each compression loop (MIR); lookup partitions evaluated on every code; template text flow",
 "C13": "effect analysis over the call graph (MIR): external callees classified, statics and address casts enumerated",
 "C14": "query over typed HIR (unsafe constructs, statics), auto-trait queries of rustc, abstract interpretation of the one raw conversion",
 "C17": "strongly connected components of the call graph and of the type ownership graph",
 "C24": "abstract interpretation of the entry point's MIR, panicking outcomes included",
 "C15": "pattern strings as automata over bytes (relations of match lengths compared), scanner functions of both feature configurations compared by abstract interpretation of MIR",
 "C22": "summaries of the compiler's functions (MIR dataflow, loops as transfer functions) instantiated per operator and construct; regular languages compared",
 "C21": "whole-program taint of hash order over MIR (types, fields, closures, returns) and effect classification of external calls",
 "C18": "abstract interpretation of MIR per numeric rule",
 "C26": "abstract interpretation of MIR: span composition of parse_token and lex",
 "C27": "abstract interpretation of MIR with interval constraints on the escape value",
}
NOTE = {}
try:
    exec(open(os.path.join(V, "tools/manifest_extra.py")).read())
except FileNotFoundError:
    pass
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
have = {os.path.basename(p)[:-3].upper() for p in glob.glob(os.path.join(V, "checks/c[0-9]*.py"))}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have and i not in NA:
        checks.append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "./check " + i + " thorough",
                       "technique": TECH.get(i, "static analysis of MIR"), "level": LEVEL.get(i, "proof") if "LEVEL" in globals() else "proof",
                       "level_note": NOTE.get(i, "Every obligation is decided from the MIR of the current tree; trusted: rustc's MIR, driver/dump.rs, the abstract interpreter and its models of std in vlib/, and the prescribed effects transcribed from PostgreSQL. Constructs outside what the rule understands are listed as undecided in the evidence and raise no alarm.")})
    else:
        na.append({"property": i, "reason": NA.get(i, LATER)})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Static analysis only: each check compiles /repo's current tree with a rustc driver that dumps MIR and decides its property on the dump. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
