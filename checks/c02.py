"""C02: every requested .py file linted exactly once, under its own settings."""
import os
import re
import shutil
from collections import Counter

from vlib import core, edu
from vlib.core import Result, rng_for

LEVEL = "exploration"
RULE = ("random directory trees (packages, plain directories, odd names), per-file in-file configuration, per-directory implicit "
        "configuration files and argument lists mixing files and directories, relative and absolute, overlapping and in odd "
        "spellings; non-trivial = at least two files; distinct = the whole scenario")
ASSUMPTIONS = ["names pylint/flake8 exclude by default (.git, CVS, __pycache__...) are not generated",
               "only messages that concern a single file are enabled"]
MINIMUM = {"evaluations": 30, "files": 150, "problems": 400, "directory_arguments": 30, "overlapping_arguments": 5,
           "absolute_arguments": 10, "distinct_configurations": 30}

BODIES = [
    "def f{n}(x):\n    if x:\n        return True\n    else:\n        return False\n",
    "y{n} = 1 \nprint(y{n})\n",
    "def g{n}(a):\n    for i in range(len(a)):\n        print(a[i])\n    a == a\n",
    "def h{n}(a):\n    a = a + 1\n    return a\n\n\ndef dup(l):\n    pass\n    return l\n",
    "class A{n}:\n    def m(self):\n        l = 1\n        return l\n",
    "def broken{n}(:\n",
    "",
    "x = {n}\nwhile True:\n    if x:\n        break\n    x += 1\n",
]
INFILE = ["", "", "", "# edulint: config-file=empty\n", "# edulint: pylint=--disable=R6201\n", "# edulint: flake8=--extend-ignore=W291\n",
          "# edulint: config-file=cs1 set-groups=enhancement\n", "# edulint: allowed-onechar-names=xl\n", "# edulint: no-flake8\n",
          "# edulint: config-file=full\n", "# edulint: ignore-infile-config-for=flake8\n# noqa: W291\n"]
IMPLICIT = ["[pylint]\ndisable = 'R6201'\n", "config-file = 'default'\n", "config-file = 'full'\n[flake8]\nextend-ignore = 'W291'\n",
            "config-file = 'default'\nallowed-onechar-names = 'l'\n"]
CMD = [[], [], [], ["pylint=--enable=R6201"], ["config-file=full"], ["no-flake8"], ["ignore-infile-config-for=all"], ["set-groups=enhancement"]]


def scenario(r):
    dirs = [""]
    for i in range(r.randint(1, 5)):
        parent = r.choice(dirs)
        name = r.choice(["d", "pkg", "my dir", "Ž", "xx.yy", "d2", "sub", ".hid", "_u"]) + (str(i) if r.random() < 0.6 else "")
        p = os.path.join(parent, name)
        if p not in dirs:
            dirs.append(p)
    files, implicit = {}, {}
    n = 0
    for d in dirs:
        if d and r.random() < 0.35:
            files[os.path.join(d, "__init__.py")] = r.choice(["", BODIES[0].format(n=99)])
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            n += 1
            name = r.choice(["a", "b", "m{n}", "test-{n}", "tt", "edulint", "ř{n}", "with space", ".hid{n}", "_p{n}", "UP{n}", "x.y{n}", "__main__"]).format(n=n) + ".py"
            files[os.path.join(d, name)] = r.choice(INFILE) + r.choice(BODIES).format(n=n)
        if r.random() < 0.2:
            files[os.path.join(d, r.choice(["notes.txt", "c.pyx", "data", "py"]))] = "not python ("
        if r.random() < 0.15:
            implicit[os.path.join(d, r.choice(["edulint.toml", ".edulint.toml"]))] = r.choice(IMPLICIT)
    pys = [f for f in files if f.endswith(".py")]
    args = []
    for _ in range(r.randint(1, 4)):
        a = r.choice(pys + dirs + dirs) if pys else r.choice(dirs)
        a = a or "."
        k = r.random()
        if k < 0.25:
            a = "@ABS@/" + a
        elif k < 0.32:
            a = "./" + a
        elif k < 0.38:
            a = os.path.join(r.choice(dirs), "..", a) if False else a
        if r.random() < 0.1 and not a.endswith(".py"):
            a += "/"
        args.append(a)
    if r.random() < 0.5:
        args = list(dict.fromkeys(args))
    return {"files": files, "implicit": implicit, "args": args, "cmd": r.choice(CMD), "cwd": r.choice(["."] * 4 + dirs)}


def key(p, root):
    text = p.text
    if p.code == "E0001":  # pylint names the module, whose name depends on how it was reached
        text = re.sub(r"\([^()]*, line (\d+)\)", r"(line \1)", text)
    return (os.path.relpath(os.path.abspath(p.path), root), p.source.to_name(), p.code, p.line, p.column, text, p.enabled_by, p.symbol)


def evaluate(sc, res, base):
    from edulint.options import Option

    root = os.path.join(base, "sc")
    os.chdir(base)
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    root = os.path.realpath(root)
    try:
        for p, t in {**sc["files"], **sc["implicit"]}.items():
            edu.write(os.path.join(root, p), t)
        os.makedirs(os.path.join(root, sc["cwd"]), exist_ok=True)
        os.chdir(os.path.join(root, sc["cwd"]))
        conv = []
        for a in sc["args"]:
            if a.startswith("@ABS@/"):
                conv.append(os.path.join(root, a[6:]) if a[6:] != "." else root)
                res.count("absolute_arguments")
            else:
                rel = os.path.relpath(os.path.join(root, a))
                if a.startswith("./") and not rel.startswith(".."):
                    rel = "./" + rel
                conv.append(rel + ("/" if a.endswith("/") else ""))
        args = [a for a in conv if os.path.exists(a)]
        if not args:
            return
        # what must be linted, and in what style
        style = {}
        overlap = False
        for a in args:
            found = []
            if os.path.isdir(a):
                res.count("directory_arguments")
                for d, _ds, fs in os.walk(a):
                    found += [os.path.abspath(os.path.join(d, f)) for f in fs if f.endswith(".py")]
            else:
                found = [os.path.abspath(a)]
            for f in found:
                overlap |= f in style
                style.setdefault(f, set()).add(os.path.isabs(a))
        if overlap:
            res.count("overlapping_arguments")
        with edu.captured_log("ERROR") as log:
            got = edu.check(args, sc["cmd"])[0]
        res.case(sc, nontrivial=len(style) >= 2)
        if got is None:
            res.violation("no-result", f"check of {args} gave no result: {log}", scenario=sc)
            return
        configs, problems = got
        actual = Counter(key(p, root) for p in problems)
        res.count("problems", len(problems))
        # grouping covers exactly those files
        grouped = Counter()
        group_of = {}
        for gi, (fds, conf, tr) in enumerate(configs):
            for fd in fds:
                if os.path.isdir(fd):
                    for d, _ds, fs in os.walk(fd):
                        for f in fs:
                            if f.endswith(".py"):
                                q = os.path.abspath(os.path.join(d, f))
                                grouped[q] += 1
                                group_of[q] = conf
                elif fd.endswith(".py"):
                    q = os.path.abspath(fd)
                    grouped[q] += 1
                    group_of[q] = conf
        if set(grouped) != set(style):
            res.violation("grouping", f"groups cover {sorted(set(grouped) ^ set(style))} wrongly, args {args}", scenario=sc)
        elif max(grouped.values(), default=1) > 1:
            res.violation("grouped-twice", f"{[f for f, c in grouped.items() if c > 1]} in several groups", scenario=sc)
        # path style
        for p in problems:
            q = os.path.abspath(p.path)
            want = {q} if style.get(q) == {True} else {os.path.relpath(q)} if style.get(q) == {False} else {q, os.path.relpath(q)}
            if p.path not in want:
                res.violation("path-style", f"{p.path} reported for arguments {args} (cwd {os.getcwd()})", scenario=sc)
        # each file on its own
        expected = Counter()
        confs = set()
        for f in style:
            res.count("files")
            one = edu.check([f], sc["cmd"])[0]
            if one is None:
                res.violation("no-result-single", f"check of {f} alone gave no result", scenario=sc)
                continue
            cs, ps = one
            expected.update(key(p, root) for p in ps)
            if cs and f in group_of:
                a, b = group_of[f], cs[0][1]
                confs.add(str(b))
                da = {x.option: x.val for x in a if x.option != Option.CONFIG_FILE}
                db = {x.option: x.val for x in b if x.option != Option.CONFIG_FILE}
                if da != db or dict(a.enablers) != dict(b.enablers):
                    diff = {str(o): (db[o], da[o]) for o in db if db[o] != da[o]}
                    res.violation("own-settings", f"{f}: (alone, in the group) {diff} enablers {set(dict(a.enablers).items()) ^ set(dict(b.enablers).items())}", scenario=sc)
        res.count("distinct_configurations", len(confs))
        if actual != expected:
            res.violation("union", f"args {args}: lost {list((expected - actual).items())[:4]}, extra {list((actual - expected).items())[:4]}",
                          scenario=sc)
        res.sample({"args": args, "files": sorted(os.path.relpath(f, root) for f in style), "problems": len(problems), "groups": len(configs)})
    finally:
        os.chdir(base)


def task(arg):
    seed, lo, hi = arg
    res = Result()
    for i in range(lo, hi):
        evaluate(scenario(rng_for("C02", seed, i)), res, os.getcwd())
    return res


B = BODIES[0].format(n=1)
DIRECTED = [
    {"files": {"pkg/__init__.py": "", "pkg/sub/x.py": B, "pkg/sub/deep/y.py": B}, "implicit": {}, "args": ["."], "cmd": [], "cwd": "."},
    {"files": {"a.py": B + "# noqa\n", "d/b.py": BODIES[1].format(n=1)}, "implicit": {}, "args": ["a.py", "./a.py", "d", "d/b.py"],
     "cmd": ["ignore-infile-config-for=all"], "cwd": "."},
    {"files": {"a.py": B, "d/b.py": B}, "implicit": {}, "args": ["a.py", "@ABS@/d"], "cmd": [], "cwd": "d"},
    {"files": {"d/a.py": B, "d/b.py": INFILE[4] + B, "d/e/c.py": B}, "implicit": {}, "args": ["d"], "cmd": [], "cwd": "."},
    {"files": {"hw1/__init__.py": "", "hw1/a.py": B, "hw10/b.py": B, "hw10/x/c.py": B}, "implicit": {}, "args": ["."], "cmd": [], "cwd": "."},
    {"files": {"a.py": B, "old/b.py": B, "old/p/__init__.py": B}, "implicit": {}, "args": ["a.py", "old"], "cmd": ["pylint=--disable=C0114"], "cwd": "."},
    {"files": {"d/a.py": "# edulint: disallowed-builtin-names=\n" + B, "d/b.py": B},
     "implicit": {"d/edulint.toml": "config-file='full'\ndisallowed-builtin-names='sum'\n"}, "args": ["d"], "cmd": [], "cwd": "."},
]


def run(ctx):
    res = Result()
    if ctx.replay:
        evaluate(ctx.replay["scenario"], res, core.SCRATCH)
        return res
    for sc in DIRECTED:
        evaluate(sc, res, core.SCRATCH)
    n = ctx.n(160, 4800)
    step = n // 16 if not ctx.thorough else n // 64
    res.merge(core.pmerge(task, [(ctx.seed, i, i + step) for i in range(0, n, step)]))
    return res
