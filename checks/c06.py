"""C06: text, JSON, exit status and API agree."""
import json
import os
import shutil
import subprocess
import sys

from vlib import core, edu
from vlib.core import Result, rng_for

LEVEL = "exploration"
RULE = ("random trees of files (names and contents with quotes, spaces, non-ASCII, control characters), argument lists and options; each runs through the real "
        "command line in text and JSON mode and through the API; some with injected failures (missing paths, rejected linter arguments, dangling links, "
        "invalid command lines); distinct = the whole scenario")
ASSUMPTIONS = ["standard output is UTF-8", "options that make a linter print its own help or version are not used"]
MINIMUM = {"evaluations": 50, "text_runs": 50, "json_runs": 50, "problems": 300, "status_0": 5, "status_1": 25, "status_2": 10, "headers": 30, "round_trips": 300,
           "configs_compared": 30}
FLAGS = ["--disable-version-check", "--disable-explanations-update"]

BODIES = [
    "def f(x):\n    if x:\n        return True\n    else:\n        return False\n", "y = 1 \nprint( y)\n", "", "def broken(:\n", "x = 1\n",
    "def g(a):\n    for i in range(len(a)):\n        print(a[i])\n    a == a\n", "s = 'ř\u2028\u200b'; l=1\nif s == \"it's\": pass\n",
    "import os\ndef ř(l):\n\tl = l + ['\"', '\\\\']\n\treturn l\n", "def h(a):\n    x = a == 'a\\tb\"'\n    if a == 'q\"' and a == 'q\"':\n        return 1\n",
    "class Ž:\n    pass\nž = Ž() \n", "# edulint: config-file=empty\nimport os\n", "# edulint: config-file=full\nimport os\n", "print('\x0c', \"\x7f\")\n",
    "def k(n):\n    if n > 3 and n > 2:\n        return 'a' + '\\n\\r'\n    else:\n        return ''\n", "x = '%s {}' % 1; l = 'percent % sign'\nl = l + '{'\n", "a = 1\r\nb = 2 \r\n",
]
NAMES = ["a.py", "b.py", "d/c.py", "d/e/f.py", "my file.py", "it's.py", 'q"uote.py', "řeřicha.py", "d/日本.py", "tab\there.py", "new\nline.py", "-dash.py", "%s.py", "{x}.py",
         "semi;colon.py", "notes.txt", "x:3:1.py", "d/[bracket].py", "back\\slash.py", "d2/a.py", "d/a.py", "d/e/a.py", "d/c/a.py"]
OPTS = ["pylint=--enable=C0114,C0116", "config-file=full", "config-file=default", "config-file=empty", "set-groups=enhancement,complexity", "no-flake8",
        "flake8=--extend-select=W,E", "ignore-infile-config-for=all", "allowed-onechar-names=", "pylint=--enable=simplifiable-if-return", "set-groups=nonexistent",
        "no-such-option=1", "pylint"]
BAD = ["pylint=--no-such-argument", "pylint=--max-line-length=abc", "flake8=--no-such-argument", "flake8=--max-line-length=x", "flake8=--select=nonsense!"]


def scenario(r):
    files = {n: r.choice(BODIES) for n in r.sample(NAMES, r.randint(1, 5))}
    pool = list(files) + ["d", "."]
    args = [r.choice(pool) for _ in range(r.choice([1, 1, 1, 2, 3]))]
    fail = None
    k = r.random()
    if k < 0.1:
        fail = "missing"
        args.insert(r.randint(0, len(args)), r.choice(["nowhere.py", "d/nowhere", "dangling.py"]))
    elif k < 0.2:
        fail = r.choice(BAD)
    elif k < 0.23:
        fail = "usage"
    opts = r.sample(OPTS, r.choice([0, 1, 1, 2]))
    if fail in BAD:
        opts.insert(r.randint(0, len(opts)), fail)
    return {"files": files, "args": args, "opts": opts, "fail": fail, "absolute": r.random() < 0.2, "cwd": r.choice([".", ".", "d"])}


def cli(args, extra, cwd):
    """the real command line; file names starting with a dash stand after --"""
    env = dict(os.environ, PYTHONIOENCODING="utf-8")
    p = subprocess.run([sys.executable, "-B", "-m", "edulint", "check", *FLAGS, *extra, "--", *args], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    return p.returncode, p.stdout.decode("utf-8"), p.stderr.decode("utf-8", "replace")


def fields(p):
    return (p.source.to_name(), p.enabled_by, p.path, p.line, p.column, p.code, p.text, p.end_line, p.end_column, p.symbol)


def evaluate(sc, res, base):
    from edulint.linting.problem import Problem

    root = os.path.join(base, "sc")
    here = os.getcwd()
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    root = os.path.realpath(root)
    try:
        for n, t in sc["files"].items():
            edu.write(os.path.join(root, n), t)
        os.symlink("/nonexistent-target", os.path.join(root, "dangling.py")) if sc["fail"] == "missing" else None
        os.makedirs(os.path.join(root, "d"), exist_ok=True)
        cwd = os.path.join(root, sc["cwd"])
        os.chdir(cwd)
        args = [os.path.join(root, a) if sc["absolute"] else os.path.relpath(os.path.join(root, a)) for a in sc["args"]]
        extra = [x for o in sc["opts"] for x in ("-o", o)]
        expect_fail = sc["fail"] in ("missing", "usage")
        any_py = [f for a in args for f in pys(a)]
        if sc["fail"] in BAD:
            # a linter runs only when there is something to lint (directories count)
            expect_fail = bool(any_py) and not (sc["fail"].startswith("flake8") and any(o == "no-flake8" for o in sc["opts"]))
        if sc["fail"] == "usage":
            extra = ["--no-such-flag"] + extra
        api, log = (None, None) if sc["fail"] == "usage" else edu.check(args, sc["opts"])
        code, out, err = cli(args, extra, cwd)
        jcode, jout, jerr = cli(args, extra + ["--json"], cwd)
        res.count("text_runs")
        res.count("json_runs")
        res.count(f"status_{code}")
        res.case(sc, nontrivial=bool(api and api[1]) or expect_fail)
        if "Traceback (most recent call last)" in err + jerr:
            res.violation("traceback", f"args {args} opts {sc['opts']}: {err[-800:]}", scenario=sc)
        if code != jcode:
            res.violation("status-differs", f"text mode {code}, JSON mode {jcode}: {args} {sc['opts']} {err[-300:]} {jerr[-300:]}", scenario=sc)
        if expect_fail:
            if code != 2:
                res.violation("failure-status", f"{sc['fail']}: exit status {code} for {args} {sc['opts']}; stderr {err[-300:]}", scenario=sc)
            if api is not None:
                res.violation("failure-api", f"{sc['fail']}: the API returned a result", scenario=sc)
            if out.strip() or jout.strip():
                res.violation("failure-output", f"{sc['fail']}: printed {out[:200]!r} {jout[:200]!r}", scenario=sc)
            if not err.strip():
                res.violation("failure-silent", f"{sc['fail']}: nothing on stderr", scenario=sc)
            return
        if sc["fail"] in BAD and any_py == [] and api is None:
            return  # directories without python files: either is fine
        if api is None:
            res.violation("api-none", f"{args} {sc['opts']}: {log}", scenario=sc)
            return
        configs, problems = api
        res.count("problems", len(problems))
        if code != (1 if problems else 0):
            res.violation("status", f"exit status {code} with {len(problems)} problems: {args} {sc['opts']}", scenario=sc)
        # order
        order = []
        for p in problems:
            pos = [i for i, a in enumerate(args) if covers(a, p.path)]
            order.append((pos[0] if pos else -1, p.path, p.line, p.column))
        if order != sorted(order):
            res.violation("order", f"{[o for o, s in zip(order, sorted(order)) if o != s][:4]} for {args}", scenario=sc)
        # text
        lines, prev = [], None
        single = len(args) == 1 and os.path.isfile(args[0])
        for p in problems:
            if not single and p.path != prev:
                lines.append("****************** " + p.path.rsplit("/", 1)[-1])
                res.count("headers")
                prev = p.path
            lines.append(f"{p.path}:{p.line}:{p.column}: {p.code} {p.text}" + (f" [{p.enabled_by}]" if p.enabled_by is not None else ""))
        want = "".join(ln + "\n" for ln in lines)
        if out != want:
            res.violation("text", f"{args} {sc['opts']}: printed {out[:600]!r}, the API's problems give {want[:600]!r}", scenario=sc)
        # JSON
        try:
            js = json.loads(jout)
        except ValueError as e:
            res.violation("json-invalid", f"{e}: {jout[:300]!r}", scenario=sc)
            return
        names = ("source", "enabled_by", "path", "line", "column", "code", "text", "end_line", "end_column", "symbol")
        got = [tuple(p.get(n) for n in names) for p in js["problems"]]
        if got != [fields(p) for p in problems]:
            res.violation("json-problems", f"{[g for g in got if g not in list(map(fields, problems))][:2]} vs {[g for g in map(fields, problems) if g not in got][:2]}", scenario=sc)
        if any(set(p) != set(names) for p in js["problems"]):
            res.violation("json-fields", f"{set(js['problems'][0]) ^ set(names)}", scenario=sc)
        cj = [{a.option.to_name(): (list(a.val) if isinstance(a.val, tuple) else a.val) for a in c.config} for _f, c, _t in configs]
        res.count("configs_compared", len(cj))
        if js["configs"] != cj:
            res.violation("json-configs", f"{js['configs']} vs {cj}"[:800], scenario=sc)
        for p, raw in zip(problems, js["problems"]):
            res.count("round_trips")
            back = Problem.from_json(json.dumps(raw))
            if fields(back) != fields(p) or json.loads(back.to_json()) != raw:
                res.violation("round-trip", f"{raw} -> {back}", scenario=sc)
        res.sample({"args": args, "opts": sc["opts"], "status": code, "text": out[:200]})
    finally:
        os.chdir(here)


def pys(a):
    if os.path.isdir(a):
        return [os.path.join(d, f) for d, _s, fs in os.walk(a) for f in fs if f.endswith(".py")]
    return [a] if a.endswith(".py") else []


def covers(a, path):
    a, path = os.path.abspath(a), os.path.abspath(path)
    return path == a or path.startswith(a.rstrip("/") + "/")


def task(arg):
    seed, lo, hi = arg
    res = Result()
    for i in range(lo, hi):
        evaluate(scenario(rng_for("C06", seed, i)), res, os.getcwd())
    return res


DIRECTED = [
    {"files": {"p/a.py": BODIES[0], "q/a.py": BODIES[1], "q/b.py": BODIES[1]}, "args": ["p", "q"], "opts": [], "fail": None, "absolute": False, "cwd": "."},
    {"files": {"a.py": BODIES[0], "d/c.py": BODIES[3]}, "args": ["d", "a.py"], "opts": [], "fail": None, "absolute": False, "cwd": "."},
    {"files": {"new\nline.py": BODIES[1], "ř.py": BODIES[6]}, "args": ["."], "opts": ["config-file=full"], "fail": None, "absolute": True, "cwd": "."},
    {"files": {"a.py": BODIES[0]}, "args": ["a.py"], "opts": [BAD[0]], "fail": BAD[0], "absolute": False, "cwd": "."},
    {"files": {"a.py": BODIES[0]}, "args": ["a.py"], "opts": [BAD[2]], "fail": BAD[2], "absolute": False, "cwd": "."},
    {"files": {"a.py": ""}, "args": ["a.py", "nowhere.py"], "opts": [], "fail": "missing", "absolute": False, "cwd": "."},
]


def run(ctx):
    res = Result()
    if ctx.replay:
        evaluate(ctx.replay["scenario"], res, core.SCRATCH)
        return res
    for sc in DIRECTED:
        evaluate(sc, res, core.SCRATCH)
    n = ctx.n(112, 1600)
    step = 7 if not ctx.thorough else 25
    res.merge(core.pmerge(task, [(ctx.seed, i, i + step) for i in range(0, n, step)]))
    return res
