"""C05: problems are conserved between the linters' output and the report."""
import io
import json
import os
import re
import shutil
import sys
from collections import Counter

from vlib import core, edu
from vlib.core import Result, rng_for

LEVEL = "exploration"
RULE = ("files whose lines carry dense mixtures of problems, from real code and from a pylint plugin emitting requested messages, under random "
        "configurations; non-trivial = at least one problem is overridden, filtered or reworded; distinct = file texts and options")
ASSUMPTIONS = ["pylint and flake8 run on their own with the effective arguments give the raw output",
               "the override table and the documented message filters are transcribed in the check"]
MINIMUM = {"evaluations": 60, "raw_pylint": 2000, "raw_flake8": 500, "overridden": 150, "filtered": 100, "reworded": 40,
           "overrider_overridden": 5, "kept": 2000, "suppression_reports": 20}

OVERRIDERS = {
    "C0104": {"R6307", "R6609", "F841", "W0613"}, "C0103": {"R6307", "R6609", "F841", "W0613"}, "E225": {"R6609"},
    "R1705": {"R1703", "R6201"}, "R6610": {"R6608"}, "W0107": {"W0101"}, "C0201": {"C0206"},
    "R6216": {"R6211", "R6212", "R6214", "R6215"}, "R6213": {"R6216"}, "R6221": {"R6222"}, "R6218": {"R6222"},
}
NAMES = ["x", "l", "foo", "value", "I", "ř", "i"]
BUILTINS = ["sum", "len", "list", "print", "max"]
EXPRS = ["x * x", "x * x * x", "a.b * a.b * a.b", "a.b * a.b", "1.5 * x * x", "x + x + x", "x", "f(*a) + f(*a)"]
GROUPS = ["enhancement", "python-specific", "complexity", "unknown"]


def nargs(fmt):
    return [c for c in re.findall(r"%(?:\.\d+)?([sdrif%])", fmt) if c != "%"]


def request(r, fmts, code):
    kinds = nargs(fmts[code])
    args = []
    for i, k in enumerate(kinds):
        if code == "W0622":
            args.append(r.choice(BUILTINS))
        elif code == "C0325":
            args.append(r.choice(["not", "if", "=", "while", "return"]))
        elif code == "C0104":
            args.append(r.choice(NAMES))
        elif code == "R6607":
            args.append(["power", "multiplication", r.choice(EXPRS)][i])
        elif k in "di":
            args.append(r.randint(0, 99))
        elif k == "f":
            args.append(1.5)
        else:
            args.append(r.choice(["name", "a b", "x + 1", "it's \"q\"", "%s", "ž", "f(x)", ""]))
    return f"#! {code} {json.dumps([r.randint(0, 9)] + args)}!"


TEMPLATES = {}
CODE = ["x{n}=1", "def f{n}(l, unused=[]):\n    v=l\n    l = l+1\n    return None", "import os, sys", "from ib111 import week_0{n}", "import ib111",
        "if x == None: pass", "def g{n}(a):\n    if a:\n        return True\n    else:\n        return False", "sum = 3 ", "while not(x): x = x+ 1",
        "def h{n}(d):\n    for k in d.keys():\n        print(d[k], k)\n    for i in range(len(d)):\n        d.append(i*1)", "if x == True and x ==False : pass",
        "class A{n}:\n  def m(this): return this; pass", "y = x if x else False", "def q{n}(a):\n    return a\n    pass", "z{n} = [[]]*3+0", "print('a' * 90, \"%d\" % 3, {n}, 'aaaaaaaaaaaaaaaaaaaaaaaaa')",
        "l=[1]; l = l+[2]; I = 0", "def t{n}(a, b):\n    x = a * a\n    y = a*a*a+b*b*b*b\n    if a > 3 and a > 2:\n        return x\n    return y + 0",
        "x = (1 == True)"]
REAL = [["R6201", "R1703", "R1705"], ["R6307", "C0104", "C0103", "F841"], ["R6609", "C0103", "C0104"], ["W0107", "W0101"], ["C0201", "C0206"],
        ["R6213", "R6216", "R6211"], ["R6216", "R6215"], ["R6213", "R6216"], ["R6221", "R6222", "R6218"], ["R6610", "R6608"], ["W0622", "W0622"],
        ["R6607", "R6607"], ["C0325", "C0325"], ["C0104", "W0613"], ["C0103", "W0613"], ["R6216", "R6212"], ["R6216", "R6214"]]


def program(r, fmts, pool):
    out = []
    for n in range(r.randint(2, 9)):
        line = r.choice(CODE).format(n=n)
        if r.random() < 0.7:
            first, _nl, rest = line.partition("\n")
            req = []
            for _ in range(r.randint(1, 5)):
                k = r.random()
                codes = r.choice(REAL) if k < 0.6 else [r.choice(pool)]
                req += [request(r, fmts, c) for c in codes if r.random() < 0.8 and c in fmts]
            r.shuffle(req)
            line = first + "  " + " ".join(req) + ("\n" + rest if rest else "")
        elif r.random() < 0.3:
            out.append(r.choice(["# noqa", "# pylint: disable=C0114", "# pylint: enable=C0115"]))
        out.append(line)
    return "\n".join(out) + "\n"


def scenario(r, fmts, pool):
    opts = []
    k = r.random()
    opts.append("config-file=" + ("full" if k < 0.5 else "default" if k < 0.8 else "cs1"))
    if r.random() < 0.4:
        opts.append("set-groups=" + ",".join(r.sample(GROUPS, r.randint(1, 2))))
    if r.random() < 0.4:
        opts.append("allowed-onechar-names=" + r.choice(["xyz", "l", "", "iř"]))
    if r.random() < 0.4:
        opts.append("disallowed-builtin-names=" + r.choice(["sum,len", "list", "", "max,print"]))
    if r.random() < 0.15:
        opts.append("no-flake8")
    if r.random() < 0.3:
        opts.append("ignore-infile-config-for=" + r.choice(["pylint,flake8", "all"]))
    if r.random() < 0.3:
        opts.append("pylint=--disable=" + ",".join(r.sample(["R6201", "R6609", "C0103", "W0622", "R6222", "W0101"], 2)))
    opts.append("pylint=--enable=W9901," + ",".join(r.sample(sorted(fmts), 12) + [c for cs in REAL for c in cs if c in fmts]))
    opts.append("pylint=--load-plugins=verif_emit")
    if r.random() < 0.3:
        opts.append("flake8=--extend-select=E,W,F")
    return {"files": [program(r, fmts, pool) for _ in range(r.choice([1, 2, 2, 3]))], "opts": opts, "same_name": r.random() < 0.7}


# ------------------------------------------------------------------- the raw output


def raw_pylint(files, args):
    from pylint.lint import Run
    from pylint.reporters import CollectingReporter

    rep = CollectingReporter()
    old = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        Run([*args, *files], reporter=rep, exit=False)
    finally:
        sys.stdout, sys.stderr = old
    return [("pylint", os.path.abspath(m.path), m.line, m.column, m.msg_id, m.msg, m.end_line, m.end_column, m.symbol) for m in rep.messages]


def raw_flake8(files, args):
    from flake8.main.application import Application

    out = os.path.abspath("flake8.out")
    if os.path.exists(out):
        os.unlink(out)
    try:
        Application().run([*args, "--format=%(path)s\x1f%(row)d\x1f%(col)d\x1f%(code)s\x1f%(text)s", "--output-file=" + out, *files])
    except SystemExit:
        pass
    res = []
    if os.path.exists(out):
        for line in open(out, encoding="utf-8").read().split("\n"):
            if line:
                p, row, col, code, text = line.split("\x1f")
                res.append(("flake8", os.path.abspath(p), int(row), int(col), code, text, None, None, None))
        os.unlink(out)
    return res


def filtered(raw, groups, onechar, builtins):
    """the documented message filters -> (dropped, text)"""
    src, _p, _l, _c, code, text = raw[:6]
    if (src, code) == ("pylint", "C0104"):
        name = text[len('Disallowed name "'):-1]
        if len(name) == 1:
            return name in onechar, f'Disallowed single-character variable name "{name}", choose a more descriptive name'
    elif (src, code) == ("flake8", "F401"):
        return text.startswith("'ib111"), text
    elif (src, code) == ("pylint", "R6607"):
        expr = text.split(" in ", 1)[1]
        return not groups and expr.count("*") <= 1, text
    elif (src, code) == ("pylint", "C0325"):
        return "after 'not' keyword" in text, text
    elif (src, code) == ("pylint", "W0622"):
        return bool(builtins) and text[len("Redefining built-in '"):-1] not in builtins, text
    elif (src, code) == ("flake8", "E712"):
        return False, re.sub(r"'if cond is (not )?(True|False):' or ", "", text)
    return False, text


def suppressions(text, path, linters):
    out = []
    for i, line in enumerate(text.split("\n"), 1):
        if line.strip() == "# noqa" and "flake8" in linters:
            out.append((i, "noqa"))
        m = re.match(r"# pylint: (disable|enable)=", line)
        if m and "pylint" in linters:
            out.append((i, "pylint: " + m.group(1)))
    return [("edulint", path, i, 0, "EDL001", f"Forbidden magic comment '{k}'", i, None, None) for i, k in out]


def evaluate(sc, res, tag):
    from edulint.options import Option

    names = []
    for i, t in enumerate(sc["files"]):
        names.append(edu.write(os.path.abspath(f"c5_{tag}_d{i}/m.py" if sc.get("same_name") else f"c5_{tag}_{i}.py"), t))
    try:
        with edu.captured_log("WARNING") as log:
            got = edu.check(names, sc["opts"])[0]
        if got is None:
            res.violation("no-result", f"{log}", scenario=sc)
            return
        configs, problems = got
        expected = Counter()
        nontrivial = False
        for files, conf, _t in configs:
            raws = raw_pylint(files, list(conf[Option.PYLINT]))
            res.count("raw_pylint", len(raws))
            if not conf[Option.NO_FLAKE8]:
                f8 = raw_flake8(files, list(conf[Option.FLAKE8]))
                res.count("raw_flake8", len(f8))
                raws += f8
            ign = set(conf[Option.IGNORE_INFILE_CONFIG_FOR])
            for f in files:
                sup = suppressions(open(f, encoding="utf-8").read(), f, {"pylint", "flake8"} if "all" in ign else ign)
                res.count("suppression_reports", len(sup))
                raws += sup
            by_line = {}
            for x in raws:
                by_line.setdefault(x[1:3], set()).add(x[4])
            for x in raws:
                over = OVERRIDERS.get(x[4], set()) & by_line[x[1:3]]
                if over:
                    res.count("overridden")
                    nontrivial = True
                    if any(OVERRIDERS.get(o, set()) & by_line[x[1:3]] for o in over):
                        res.count("overrider_overridden")
                    continue
                drop, text = filtered(x, conf[Option.SET_GROUPS], conf[Option.ALLOWED_ONECHAR_NAMES] or "", conf[Option.DISALLOWED_BUILTIN_NAMES])
                if drop:
                    res.count("filtered")
                    nontrivial = True
                    continue
                if text != x[5]:
                    res.count("reworded")
                    nontrivial = True
                res.count("kept")
                expected[x[:5] + (text,) + (x[6:] if x[0] != "edulint" else ())] += 1
        actual = Counter()
        for p in problems:
            t = (p.source.to_name(), os.path.abspath(p.path), p.line, p.column, p.code, p.text, p.end_line, p.end_column, p.symbol)
            actual[t[:6] + (t[6:] if t[0] != "edulint" else ())] += 1
        if actual != expected:
            lost, extra = list((expected - actual)), list((actual - expected))
            c = sorted({x[4] for x in lost} | {x[4] for x in extra})
            res.violation("lost" if lost and not extra else "invented" if extra and not lost else "altered",
                          f"codes {c[:6]}: lost {[x[2:6] for x in lost][:3]}, extra {[x[2:6] for x in extra][:3]} options {sc['opts'][:6]}", scenario=sc)
        res.case(sc, nontrivial)
        res.sample({"opts": [o for o in sc["opts"] if "enable" not in o], "file": sc["files"][0][:300], "problems": len(problems)})
    finally:
        for n in names:
            os.unlink(n)


def formats():
    from pylint.lint import PyLinter
    from edulint.options import Option

    edu.check([edu.write(os.path.abspath("empty_.py"), "")], [])
    ln = PyLinter()
    ln.load_default_plugins()
    for m in ("basic_checker", "local_defects", "unsuited_loop", "simplifiable_if", "python_ta_checkers", "duplication.checker"):
        ln.load_plugin_modules(["edulint.linting.checkers." + m])
    out = {}
    for d in ln.msgs_store.messages:
        if d.msgid[0] in "CRW" and not re.search(r"%\(|%[^sdrif.%]", d.msg) and d.msgid not in ("W9901", "R0801", "C0209") and not d.msgid.startswith(("I", "F")):
            if d.msgid in OVERRIDERS or d.msgid[0] in "CRW":
                out[d.msgid] = d.msg
    return out


def task(arg):
    seed, lo, hi = arg
    res = Result()
    fmts = formats()
    pool = sorted(fmts)
    for i in range(lo, hi):
        evaluate(scenario(rng_for("C05", seed, i), fmts, pool), res, f"{seed}_{i}")
    return res


def run(ctx):
    sys.path.insert(0, os.path.join(core.VERIF, "plugins"))
    os.environ["PYTHONPATH"] = os.environ.get("PYTHONPATH", "") + os.pathsep + os.path.join(core.VERIF, "plugins")
    res = Result()
    if ctx.replay:
        os.chdir(core.SCRATCH)
        evaluate(ctx.replay["scenario"], res, "replay")
        return res
    n = ctx.n(320, 6400)
    step = n // 16 if not ctx.thorough else n // 64
    res.merge(core.pmerge(task, [(ctx.seed, i, i + step) for i in range(0, n, step)]))
    return res
