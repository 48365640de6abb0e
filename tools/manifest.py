"""Writes MANIFEST.json from the rule modules that exist (TECH below) and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "value-flow analysis of the reduction: symbolic summaries of its loops compared with the documented construction",
 "C02": "value-flow summaries of the reduction's masks and search calls; syntax-tree analysis of the native searches",
 "C03": "value-flow analysis of subsystem extraction: every entry written is compared with the documented one",
 "C04": "value-flow analysis: element-wise normal forms of the Farkas systems and of the check's predicate",
 "C05": "value-flow analysis of certificate generation: dominance of the check over the returned value, LP terms",
 "C06": "value-flow analysis: the constructed program as a term (constraints, groups, objective) per mode and label",
 "C07": "guard analysis: path conditions of every success report and every use of a solver result",
 "C08": "option-flow analysis: each option followed from the public operation to the call that takes it",
 "C09": "points-to and effect analysis: abstract objects through every public operation, in-place writes to objects that existed before the call",
 "C10": "relational abstract interpretation of the label mapping: operations as formulas over an arbitrary relation",
 "C11": "value-flow analysis of writers and readers: the written texts as sequences of converted values, substituted for the places the reader takes lines apart at",
 "C12": "value-flow analysis of the command line program: declared option tables, documented texts propagated as constants, stored results followed from writer to reader",
 "C13": "name, attribute and arity resolution over the whole package",
 "C14": "signature and return-shape comparison of sibling implementations",
 "C15": "ownership analysis: abstract execution of every way through the native functions with inferred per-function contracts",
 "C16": "index-bound analysis over the Cython syntax tree",
 "C17": "flow analysis of nondeterminism: abstract objects through every public operation with tokens for time, randomness, addresses and the order of string sets; seed-before-draw on every path of compiled code",
 "C18": "who-may-call analysis of external effects",
 "C19": "assertion summaries of constructors and entry points",
 "C20": "divisor guard analysis of the heuristic's weights",
 "C21": "loop progress and recursion depth analysis",
 "C22": "value-flow analysis of both solver backends: variables, constraints, statuses as tables",
 "C23": "value-flow analysis: linear programs as terms compared with the documented ones",
}
NA = {
 "C16": "the indices are bounded by invariants over runtime content (keys stored in a treap are state numbers, a treap's size field is its number of keys, component numbers stay below their count, the stored neighbour counts are the lengths of the arrays): proving them needs inductive shape and arithmetic invariants over heap data, and without them a bound check would be a guess about every access; the one part that is a static question, that numbers given by Python callers are validated before use, is decided in C19.R3",
 "C30": "minimality over all subsystems of the optimum an external MILP solver returns is a numerical fact about each instance; no static argument bounds it (the program handed to the solver is decided by C06)",
 "C31": "that the numerical solution of each instance meets the threshold depends on solver output values; statically only the provenance of the vector (C05, C07) and the extraction (C03) can be decided",
 "C32": "equality of least fixed points of two models is a semantic fact about all runtime matrices; the construction that implies it on paper is decided by C01/C02",
 "C33": "that the native decomposition computes the maximal end components needs an inductive proof over graph state (treaps, queues, Tarjan numbering), out of reach of the static analyses here",
 "C34": "numerical/geometric optimality of the tree-decomposition search; its native module cannot even be built here (no graph_tool)",
}
UNDONE = "no rule implemented"

def main():
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if os.path.exists(os.path.join(V, "sa/rules/%s.py" % i.lower())):
            cmd = "/opt/venv/bin/python check.py %s" % i
            checks.append({"property": i, "quick_cmd": cmd, "thorough_cmd": cmd + " --tier thorough", "technique": "static analysis: " + TECH[i], "level": "other",
                           "level_note": "Decided from /repo's current source without running it; obligations, functions analysed and anything left undecided are listed in the evidence file. See DESIGN.md, section " + i + "."})
        else:
            na.append({"property": i, "reason": NA.get(i, UNDONE)})
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import ast, Cython'", "checks": checks, "not_applicable": na,
         "notes": "Static analysis only. No hooks in /repo. fix: commits are listed in known-findings.txt."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks", len(na), "n/a")
main()
