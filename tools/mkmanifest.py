"""Writes MANIFEST.json from the checks that exist (checks/cNN.py) and the property list."""
import ast, json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "runtime monitor: effective configuration vs independent model of the documented precedence, over random source combinations",
    "C02": "runtime monitor: union/partition conservation of reports over random directory trees and argument lists",
    "C03": "runtime monitor: attribution of every reported problem vs model of the sources that enable it",
    "C04": "runtime monitor: EDL001 reports and effective configuration vs an independent scanner of suppression comments",
    "C05": "runtime monitor: conservation between recorded raw linter output and the report",
    "C06": "runtime monitor: differential check of text, JSON, exit status and API output of the real CLI, with injected failures",
    "C07": "stress workload with internal-error monitor over random programs of the full grammar, hostile layouts and encodings",
    "C08": "runtime monitor: differential replay of random histories of checks in one process vs fresh processes and hash seeds",
    "C09": "runtime monitor: execution of original and suggested program on value grids (differential oracle)",
    "C10": "runtime monitor: instrumented execution of the checked program contradicting the claimed message",
    "C11": "runtime monitor: traced executions checked online against the control-flow graph",
    "C12": "runtime monitor: traced data flows checked against recorded def-use relations",
    "C13": "runtime monitor: recorded variable events vs Python's own symbol tables",
    "C14": "runtime monitor: instrumented execution of loops contradicting the claimed message; differential run of rewrites",
    "C15": "runtime monitor: evaluation of original and rewritten code on operand grids",
    "C16": "runtime monitor: reported duplication vs independent comparison of the code, differential execution of merges",
    "C17": "runtime monitor: translated vs untranslated reports under generated translation tables",
    "C18": "fault injection at every file/network operation with a history checker over the recorded fetch log",
    "C19": "fault injection and history checker over update, explanation and notice behaviour",
    "C20": "runtime monitor: metamorphic comparison of reports under structure-preserving edits",
    "C21": "runtime monitor: analysis answers checked against evaluation in Python",
    "C22": "runtime monitor: reports vs an independent detector over Python's ast on random programs",
}
NOTE = {}
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    id = p["id"]
    src = os.path.join(HERE, "checks", id.lower() + ".py")
    if not os.path.exists(src):
        na.append({"property": id, "reason": "check not built yet"})
        continue
    tree = ast.parse(open(src).read())
    ass = [ast.literal_eval(n.value) for n in tree.body if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "ASSUMPTIONS"]
    rule = [ast.literal_eval(n.value) for n in tree.body if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "RULE"]
    note = "Seeded workloads observed by an oracle independent of the checked code; held on everything explored, no proof."
    if rule:
        note += " Workload: " + rule[0] + "."
    if ass and ass[0]:
        note += " Assumes: " + "; ".join(ass[0]) + "."
    checks.append({
        "property": id, "quick_cmd": f"python3 check.py {id} --tier quick", "thorough_cmd": f"python3 check.py {id} --tier thorough",
        "evidence_file": f"evidence/{id}.json", "technique": TECH[id], "level": "exploration", "level_note": note,
    })
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: the monitors attach from outside (public API, command line, monkey-patching in the check's own process)."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks", len(na), "na")
