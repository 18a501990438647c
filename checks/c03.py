"""C03: every problem names the source that enabled it."""
import os
import shutil

import tomli

from vlib import core, edu
from vlib.core import Result, rng_for

LEVEL = "exploration"
RULE = ("random assignments of message codes and symbols (any spelling) to command line, in-file lines, chains of configuration files, "
        "custom enabler names and set or unset option groups over files producing some 30 kinds of problems; non-trivial = a problem "
        "is listed by at least one source; distinct = the whole scenario")
ASSUMPTIONS = ["sources disable only messages that no lower source lists, so that a listing source is an enabling one",
               "packaged TOML files are read as data by the model"]
MINIMUM = {"evaluations": 100, "attributed": 500, "unattributed": 200, "several_sources": 100, "by_group": 20, "infile_suppressions": 10,
           "code_and_symbol": 20, "from_inherited": 50, "from_cmd": 100, "from_infile": 50}

PKG = "/repo/edulint/config/files"
BODY = '''import os
import sys, re


def f(x, l=[]):
    if x == None:
        return True
    else:
        return False


def g(a, b):
    for i in range(len(a)):
        print(a[i])
    a == a
    c = a + 1
    c = c + 1
    while True:
        if b:
            break
    return c
    print("no")


class A:
    def m(this):
        sum = 1 
        self = 2
        if not (this):
            pass
        else:
            sum += 1
        return sum


def h(n):
    if n > 3 and n > 2:
        return 1
    elif n:
        return 2


lst = [1, 2]
for el in lst:
    lst.append(el)
x=  f(1)
'''
# messages the body may trigger: (code, symbol)
PY = [("W0102", "dangerous-default-value"), ("W0104", "pointless-statement"), ("R0124", "comparison-with-itself"),
      ("C0121", "singleton-comparison"), ("R6201", "simplifiable-if-return"), ("R1705", "no-else-return"), ("W0611", "unused-import"),
      ("C0410", "multiple-imports"), ("W0622", "redefined-builtin"), ("W0101", "unreachable"), ("E0213", "no-self-argument"),
      ("C0325", "superfluous-parens"), ("W0107", "unnecessary-pass"), ("C0200", "consider-using-enumerate"), ("R6601", "use-append"),
      ("C0103", "invalid-name"), ("C0114", "missing-module-docstring"), ("C0116", "missing-function-docstring"), ("R1710", "inconsistent-return-statements"),
      ("R6602", "use-augmented-assign"), ("W4701", "modified-iterating-list"), ("C0303", "trailing-whitespace"), ("R0903", "too-few-public-methods"),
      ("W0612", "unused-variable"), ("R6302", "no-while-true"), ("W0613", "unused-argument"), ("R6211", "redundant-condition-part"), ("R6305", "use-foreach")]
F8 = ["E501", "W291", "F401", "E711", "E225", "E401", "E222", "F841", "N805", "E241"]
FILES = ["one.toml", "two.toml", "three.toml", "extra.toml"]


def spell(r, cs):
    code, sym = cs
    return r.choice([code, sym, sym, code, code.lower()])


def listing(r, pool, f):
    return [f(r.choice(pool)) for _ in range(r.randint(1, 4))]


def words(r):
    """command-line/in-file settings that list messages"""
    out = []
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        k = r.random()
        if k < 0.6:
            out.append("pylint=--enable=" + ",".join(listing(r, PY, lambda c: spell(r, c))))
        elif k < 0.9:
            out.append("flake8=" + r.choice(["--extend-select=", "--select="]) + ",".join(listing(r, F8, str)))
        else:
            out.append("ignore-infile-config-for=" + r.choice(["pylint", "flake8", "pylint,flake8"]))
    return out


def toml_file(r, inherits, groups):
    t = []
    if inherits:
        t.append(f"config-file = '{inherits}'")
    if r.random() < 0.25:
        t.append(f"default-enabler-name = '{r.choice(['My name', 'cmd2', 'školní'])}'")
    if r.random() < 0.15:
        t.append("ignore-infile-config-for = 'flake8'")
    if r.random() < 0.2:
        t.append(f"set-groups = {r.sample(['mine', 'extra', 'enhancement', 'nope'], 2)}")
    k = r.random()
    if k < 0.45:
        t.append("[pylint]\nenable = %r" % listing(r, PY, lambda c: spell(r, c)))
    elif k < 0.65:
        t.append("[pylint]\nenable = '%s'" % r.choice([",", ", "]).join(listing(r, PY, lambda c: spell(r, c))))
    elif k < 0.8:
        t.insert(0, "pylint = '--enable=%s'" % ",".join(listing(r, PY, lambda c: spell(r, c))))
    if r.random() < 0.5:
        t.append("[flake8]\n%s = %r" % (r.choice(["extend-select", "select"]), listing(r, F8, str)))
    if groups and r.random() < 0.6:
        g = r.choice(["mine", "extra", "allowed-onechar-names", "disallowed-builtin-names"])
        t.append(f"[translations.{g}.pylint]\nenable = %r" % listing(r, PY, lambda c: spell(r, c)))
        if r.random() < 0.4:
            t.append(f"[translations.{g}.flake8]\nextend-select = %r" % listing(r, F8, str))
    return "\n".join(t) + "\n"


def scenario(r):
    files = {}
    chain = r.sample(FILES, r.randint(0, 3))
    base = r.choice([None, "default", "full", "cs1", "empty"])
    for i, f in enumerate(chain):
        files[f] = toml_file(r, chain[i - 1] if i else base, True)
    top = chain[-1] if chain else None
    n = r.choice([1, 1, 2, 3])
    pys = []
    cfg_by_cmd = r.random() < 0.5
    for i in range(n):
        w = words(r)
        if top and not cfg_by_cmd and r.random() < 0.8:
            w.append("config-file=" + top)
        if r.random() < 0.25:
            w.append("set-groups=" + ",".join(r.sample(["mine", "extra", "python-specific", "complexity"], 2)))
        if r.random() < 0.2:
            w.append(r.choice(["allowed-onechar-names=l", "disallowed-builtin-names=len"]))
        if r.random() < 0.2:
            w.insert(0, "pylint=--enable=all")
        pys.append({"words": w, "suppress": r.random() < 0.4})
    cmd = words(r)
    if cfg_by_cmd and top:
        cmd.append("config-file=" + top)
    elif r.random() < 0.15:
        cmd.append("config-file=" + r.choice(["default", "full", "cs1"]))
    if r.random() < 0.2:
        cmd.append("set-groups=" + ",".join(r.sample(["mine", "extra", "enhancement", "complexity"], 2)))
    if r.random() < 0.2:
        cmd.append(r.choice(["allowed-onechar-names=l", "disallowed-builtin-names=len"]))
    if r.random() < 0.12:
        cmd.append("ignore-infile-config-for=" + r.choice(["all", "edulint"]))
    return {"tomls": files, "pys": pys, "cmd": cmd}


# ----------------------------------------------------------------- the model


def norm(s):
    s = s.strip()
    return s.upper() if s[1:].isdigit() and s[:1].isalpha() else s


def listed(linter, arg):
    for pre in {"pylint": ("--enable=",), "flake8": ("--select=", "--extend-select=")}[linter]:
        if arg.startswith(pre):
            return {norm(s) for s in arg[len(pre):].split(",")}
    return set()


def csv(v):
    return ",".join(v) if isinstance(v, list) else v


def read_file(name, root, memo):
    """-> [(enabler name, settings)] lowest first, groups in order of definition"""
    path = os.path.join(root, name) if name.endswith(".toml") else os.path.join(PKG, name + ".toml")
    d = tomli.load(open(path, "rb"))
    if name == "empty":
        below, groups = [], {}
    else:
        below, groups = read_file(d.get("config-file", "empty"), root, memo)
    sets = []
    for k, v in d.items():
        if k in ("pylint", "flake8"):
            sets += [(k, f"--{o}={csv(x)}") for o, x in v.items()] if isinstance(v, dict) else [(k, csv(v))]
        elif k == "translations":
            for g, ls in v.items():
                groups = {**groups, g: [(l, f"--{o}={csv(x)}") for l, t in ls.items() for o, x in t.items()]}
        elif k not in ("config-file", "default-enabler-name"):
            sets.append((k, csv(v)))
    stem = os.path.splitext(os.path.basename(name))[0]
    return below + [(d.get("default-enabler-name", stem), sets)], groups


def split(ws):
    return [tuple(w.split("=", 1)) if "=" in w else (w, None) for w in ws]


def last(sources, opt):
    v = None
    for _n, sets in sources:
        for o, x in sets:
            if o == opt:
                v = x
    return v


def blocks(v):
    return v is not None and bool({"all", "edulint"} & set(v.split(",")))


def sources_of(py, cmd_words, root):
    cmd = ("cmd", split(cmd_words))
    infile = ("in-file", [] if blocks(last([cmd], "ignore-infile-config-for")) else split(py["words"]))
    chosen_cmd = last([cmd], "config-file")
    chosen = chosen_cmd or last([infile], "config-file") or "default"
    fs, groups = read_file(chosen, root, {})
    if blocks(last(fs, "ignore-infile-config-for")):
        seq = fs + [cmd]
    else:
        seq = fs + [infile, cmd]
    setg = last(seq, "set-groups")
    applied = set(setg.split(",")) if setg else set()
    applied |= {o for _n, s in seq for o, _v in s}
    gs = [(g, t) for g, t in groups.items() if g in applied]
    return gs, seq


def expected(gs, seq, code, symbol):
    """the names that may be shown, and how many sources list the message, and by which spellings"""
    keys = {code, symbol} - {None}
    hits = []
    spelled = set()
    for n, sets in seq:
        got = set()
        for o, v in sets:
            if o in ("pylint", "flake8") and v:
                got |= listed(o, v) & keys
        if code == "EDL001" and any(o == "ignore-infile-config-for" for o, _ in sets):
            got.add("EDL001")
        if got:
            hits.append(n)
            spelled |= {(n, s) for s in got}
    ghits = [g for g, t in gs if any(listed(l, a) & keys for l, a in t)]
    if code == "EDL001":
        # replaced occurrences of the option attribute to the one in force
        owner = [n for n, sets in seq if any(o == "ignore-infile-config-for" for o, _ in sets)]
        return set(owner[-1:]), len(owner), spelled, False
    if hits:
        return {hits[-1]}, len(hits) + len(ghits), spelled, False
    return set(ghits), len(ghits), spelled, True


def evaluate(sc, res, base):
    root = os.path.join(base, "sc")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    here = os.getcwd()
    os.chdir(root)
    try:
        for p, t in sc["tomls"].items():
            edu.write(os.path.join(root, p), t)
        names = []
        for i, py in enumerate(sc["pys"]):
            # in-file lines stand at the end of the file not to move anything
            text = BODY + "".join(f"# edulint: {w!r}\n" if " " in w else f"# edulint: {w}\n" for w in py["words"])
            if py["suppress"]:
                text += "y = 1  # noqa\nz = 2  # pylint: disable=C0103\n"
            names.append(edu.write(os.path.join(root, f"m{i}.py"), text))
        got = edu.check([os.path.basename(n) for n in names], sc["cmd"])[0]
        if got is None:
            res.violation("no-result", f"no result for {sc}", scenario=sc)
            return
        _configs, problems = got
        nontrivial = False
        model = [sources_of(py, sc["cmd"], root) for py in sc["pys"]]
        for p in problems:
            if not p.path.startswith("m"):
                continue
            gs, seq = model[int(p.path[1:-3])]
            want, nsrc, spelled, by_group = expected(gs, seq, p.code, p.symbol)
            res.count("problems")
            shown = str(p)
            if want:
                nontrivial = True
                res.count("attributed")
                if nsrc > 1:
                    res.count("several_sources")
                    if len({s for _n, s in spelled}) > 1:
                        res.count("code_and_symbol")
                if by_group:
                    res.count("by_group")
                w = next(iter(want))
                res.count("from_cmd" if w == "cmd" else "from_infile" if w == "in-file" else "from_inherited")
            else:
                res.count("unattributed")
            if p.code == "EDL001":
                res.count("infile_suppressions")
            if p.enabled_by not in (want or {None}):
                res.violation(f"attribution:{p.source.to_name()}",
                              f"{p.code}/{p.symbol} in {p.path} attributed to {p.enabled_by!r}, expected {sorted(want) or None}; sources {[(n, [s for s in ss if s[0] in ('pylint', 'flake8')]) for n, ss in seq][-3:]}"[:900],
                              scenario=sc)
            elif not shown.endswith(f" [{p.enabled_by}]" if p.enabled_by is not None else p.text):
                res.violation("printed", f"{shown!r} does not show {p.enabled_by!r}", scenario=sc)
        res.case(sc, nontrivial)
        res.sample({"cmd": sc["cmd"], "infile": [p["words"] for p in sc["pys"]], "files": list(sc["tomls"]), "problems": len(problems)})
    finally:
        os.chdir(here)


def task(arg):
    seed, lo, hi = arg
    res = Result()
    for i in range(lo, hi):
        evaluate(scenario(rng_for("C03", seed, i)), res, os.getcwd())
    return res


E = {"words": [], "suppress": False}
DIRECTED = [
    {"tomls": {"one.toml": "config-file='empty'\n[pylint]\nenable=['R6201']\n"}, "pys": [E], "cmd": ["config-file=one.toml", "pylint=--enable=simplifiable-if-return"]},
    {"tomls": {"one.toml": "config-file='empty'\n[translations.mine.pylint]\nenable=['C0114']\n"}, "pys": [E], "cmd": ["config-file=one.toml", "pylint=--enable=all"]},
    {"tomls": {"one.toml": "config-file='empty'\n[translations.mine.pylint]\nenable=['C0114']\n"}, "pys": [E], "cmd": ["config-file=one.toml", "set-groups=mine"]},
    {"tomls": {}, "pys": [{"words": ["pylint=--enable=c0114"], "suppress": True}, E], "cmd": ["ignore-infile-config-for=pylint"]},
    {"tomls": {"one.toml": "config-file='default'\nignore-infile-config-for='flake8'\n[pylint]\nenable=['W0102']\n",
               "two.toml": "config-file='one.toml'\ndefault-enabler-name='Two'\n[pylint]\nenable='dangerous-default-value'\n"},
     "pys": [{"words": ["config-file=two.toml"], "suppress": True}], "cmd": []},
]


def run(ctx):
    res = Result()
    if ctx.replay:
        evaluate(ctx.replay["scenario"], res, core.SCRATCH)
        return res
    for sc in DIRECTED:
        evaluate(sc, res, core.SCRATCH)
    n = ctx.n(320, 8000)
    step = n // 16 if not ctx.thorough else n // 64
    res.merge(core.pmerge(task, [(ctx.seed, i, i + step) for i in range(0, n, step)]))
    return res
