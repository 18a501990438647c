"""C04: forbidden in-file suppressions are reported and in-file configuration has no effect."""
import io
import os
import re
import shutil
import tokenize
from collections import Counter

from vlib import core, edu
from vlib.core import Result, rng_for

LEVEL = "exploration"
RULE = ("random python files with suppression comments in every placement, spelling, case and spacing (and near misses), checked with every "
        "set of ignored linters given by command line, in-file line or configuration file; non-trivial = at least one effective suppression; distinct = the scenario")
ASSUMPTIONS = ["which comments take effect is decided by pylint's own pragma parser and flake8's own noqa patterns on Python's tokens",
               "text that only looks like a suppression (other case, inside a string) may or may not be reported"]
MINIMUM = {"evaluations": 150, "effective": 400, "reported": 400, "effective:noqa": 60, "effective:noqa-file": 20, "effective:disable": 100,
           "effective:enable": 40, "effective:skip-file": 20, "outside_set": 50, "config_invariance": 60}

CODE = ["x = {n}", "def f{n}(l):", "    return l", "if x == None:", "    y{n} = 1 ", "class A{n}:", "    def m(this):", "        pass",
        "import os", "while True:", "    break", "print('a')", "s{n} = 'abc'", "from ib111 import weeks"]
COMMENTS = [
    "# noqa", "#noqa", "#  noqa", "# NoQA", "# noqa: E501", "# noqa:E501,W291", "#noqa:F401", "# foo # noqa", "# foo noqa", "# noqax", "## noqa",
    "# flake8: noqa", "# flake8:noqa", "# flake8=noqa", "# flake8: NOQA", "# flake8:\tnoqa", "# FLAKE8: noqa", "# flake8 noqa", "#flake8: noqa", "# flake8: noqa: E501",
    "# pylint: disable=C0114", "#pylint:disable=all", "# pylint:   disable=W0611,C0103", "# pylint: disable-next=C0103", "# pylint: skip-file",
    "# pylint:skip-file", "# pylint: disable-all", "# pylint: disable-msg=C0103", "# pylint: enable=C0114", "# pylint: enable-msg=C0103", "#pylint: enable=all",
    "# todo pylint: disable=C0103", "# pylint: foo disable=C0114", "# pylint: enable=C0114, disable=C0103", "# a # pylint: disable=C0103", "# pylint: disable=C0103 # pylint: enable=W0611",
    "# pylint: disable=C0103; noqa", "# pylint disable=C0103", "# PyLint: Disable=C0103", "# pylint: max-line-length=10", "# xpylint: disable=C0103",
    "# noqa # pylint: disable=C0103", "# pylint: disable=C0103 # noqa", "# ř pylint: disable=C0103", "# pylint: enable=C0103 disable=W0611", "# nothing", "# edulint is fine",
    "#\tpylint:\tdisable = C0103", "# pylint : disable=C0103", "# pylint:disable", "# type: ignore # noqa",
]
STRINGS = ["'# noqa'", '"""\n# pylint: disable=all\n"""', "'#pylint: enable=x'", '"""# flake8: noqa"""']
CONFIG_LINES = ["# edulint: config-file=full", "# edulint: pylint=--disable=R6201", "#edulint: no-flake8", "# EDULINT: set-groups=enhancement",
                "# edulint: allowed-onechar-names=x", "   # edulint: pylint=--enable=C0114", "# # edulint: flake8=--extend-ignore=W291",
                "# edulint: config-file=empty pylint=--enable=C0103", "# edulint: disallowed-builtin-names=print",
                "# edulint: ignore-infile-config-for=", "# edulint: ignore-infile-config-for=flake8", "# edulint: language-file=x.toml"]
SETS = ["pylint", "flake8", "edulint", "all", "pylint,flake8", "flake8,edulint", "pylint,edulint", "pylint,flake8,edulint", "", "all,pylint"]


def program(r, config_lines):
    lines = []
    for _ in range(r.randint(2, 12)):
        k = r.random()
        n = len(lines)
        if k < 0.15:
            lines.append(f"t{n} = " + r.choice(STRINGS))
        elif k < 0.45:
            lines.append(" " * r.choice([0, 0, 4]) + r.choice(COMMENTS))
        else:
            c = r.choice(CODE).format(n=n)
            lines.append(c + ("  " + r.choice(COMMENTS) if r.random() < 0.6 else ""))
            if c.endswith(":"):
                lines.append("    " * (1 + (len(c) - len(c.lstrip())) // 4) + "pass" + (" " + r.choice(COMMENTS) if r.random() < 0.3 else ""))
    # code lines may be wrongly indented: that is fine, suppressions matter even then
    fixed = []
    for ln in lines:
        if not ln.lstrip().startswith("#") and "\n" not in ln and ln.startswith(" ") and not ln.lstrip().startswith("pass"):
            ln = ln.lstrip()
            if ln.startswith(("return", "break")):
                ln = "z = 1" + ln[ln.index("#") - 2:] if "#" in ln else "z = 1"
        fixed.append(ln)
        if re.match(r"\s*(def|class|if|while).*:\s*(#.*)?$", ln):
            pass
    if config_lines:
        for _ in range(r.randint(1, 3)):
            fixed.insert(r.randint(0, len(fixed)), r.choice(CONFIG_LINES))
    nl = r.choice(["\n", "\n", "\n", "\r\n"])
    return nl.join(fixed) + (nl if r.random() < 0.8 else "")


def scenario(r):
    how = r.choice(["cmd", "cmd", "infile", "file", "file-infile", "implicit"])
    val = r.choice(SETS)
    names = r.sample(["a.py", "d/b.py", "d/e/c.py", "z.py"], r.randint(1, 3))
    files = {n: program(r, r.random() < 0.6) for n in names}
    return {"how": how, "set": val, "files": files, "args": ["."] if r.random() < 0.4 else names, "absolute": r.random() < 0.2}


# ----------------------------------------------------------------- the oracle


def effective_kinds(text):
    """line -> kinds that take effect; or None when the text cannot be tokenized"""
    from flake8 import defaults
    from pylint.utils.pragma_parser import OPTION_PO, PragmaParserError, parse_pragma

    out = Counter()
    lines = io.StringIO(text, newline=None).read().split("\n")
    for i, line in enumerate(lines, 1):
        if defaults.NOQA_INLINE_REGEXP.search(line) and not re.search(r"from\s+ib111\s+import", line, re.I):
            out[(i, "noqa")] += 1
        if defaults.NOQA_FILE.match(line):
            out[(i, "noqa-file")] += 1
    try:
        toks = list(tokenize.generate_tokens(io.StringIO(text, newline=None).readline))
    except (tokenize.TokenError, SyntaxError, IndentationError):
        return out, True
    for t in toks:
        if t.type != tokenize.COMMENT:
            continue
        m = OPTION_PO.search(t.string)
        if not m:
            continue
        try:
            for p in parse_pragma(m.group(2)):
                kind = "skip-file" if p.action == "skip-file" else "enable" if p.action.startswith("enable") else "disable"
                out[(t.start[0], kind)] = 1
        except PragmaParserError:
            pass
    return out, False


def looks_like(line):
    kinds = set()
    low = line.lower()
    if "#" not in low:
        return kinds
    low = low[low.index("#"):]
    if "noqa" in low:
        kinds |= {"noqa"}
        if "flake8" in low:
            kinds |= {"noqa-file"}
    if "pylint" in low:
        kinds |= {k for k in ("disable", "enable", "skip-file") if k in low}
    return kinds


def kind_of(p):
    t = p.text.lower()
    t = t[t.index("'"):]
    if "flake8" in t:
        return "noqa-file"
    if "noqa" in t and "pylint" not in t:
        return "noqa"
    for k in ("skip-file", "enable", "disable"):
        if t.rstrip("'").endswith(k):
            return k
    return "?"


LINTER = {"noqa": "flake8", "noqa-file": "flake8", "disable": "pylint", "enable": "pylint", "skip-file": "pylint"}


def write_all(root, sc, neutral):
    """with neutral, configuration lines are replaced by comments of the same length"""
    how, val = sc["how"], sc["set"]
    for n, t in sc["files"].items():
        if neutral:
            t = re.sub(r"edulint:", "xdulint:", t, flags=re.I)
        if how == "infile":
            t += ("" if t.endswith("\n") or not t else "\n") + f"# edulint: ignore-infile-config-for={val}\n"
        elif how == "file-infile":
            up = "../" * n.count("/")
            t += ("" if t.endswith("\n") or not t else "\n") + f"# edulint: config-file={up}./conf.toml\n"
        edu.write(os.path.join(root, n), t)
    if how in ("file", "file-infile", "implicit"):
        edu.write(os.path.join(root, "conf.toml" if how != "implicit" else "edulint.toml"),
                  f"config-file = 'default'\nignore-infile-config-for = '{val}'\n[pylint]\ndisable = 'R6302'\n")


def options(sc):
    return {"cmd": ["ignore-infile-config-for=" + sc["set"]], "file": ["config-file=conf.toml"]}.get(sc["how"], [])


def pkey(p):
    return (os.path.normpath(p.path), p.code, p.line, p.column, p.text, p.enabled_by)


def evaluate(sc, res, base):
    root = os.path.join(base, "sc")
    here = os.getcwd()
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    root = os.path.realpath(root)
    os.chdir(root)
    try:
        write_all(root, sc, False)
        args = [os.path.join(root, a) if sc["absolute"] else a for a in sc["args"]]
        got = edu.check(args, options(sc))[0]
        if got is None:
            res.violation("no-result", f"{sc}", scenario=sc)
            return
        configs, problems = got
        edl = [p for p in problems if p.code == "EDL001"]
        nontrivial = False
        # which linters' suppressions each file must not use
        for n, t in sc["files"].items():
            text = open(os.path.join(root, n), encoding="utf-8", newline="").read()
            conf = next((c for fs, c, _t in configs if any(_covers(f, n) for f in fs)), None)
            if conf is None:
                res.violation("unconfigured", f"{n} has no configuration", scenario=sc)
                continue
            ignored = want_set(sc, text)
            if ignored is None:
                continue
            linters = {"pylint", "flake8"} if "all" in ignored else ignored & {"pylint", "flake8"}
            eff, broken = effective_kinds(text)
            lines = io.StringIO(text, newline=None).read().split("\n")
            mine = [p for p in edl if os.path.normpath(os.path.relpath(os.path.abspath(p.path), root)) == n]
            seen = Counter((p.line, kind_of(p)) for p in mine)
            for (ln, kind), _c in eff.items():
                res.count("effective")
                res.count("effective:" + kind)
                nontrivial = True
                have = seen[(ln, kind)]
                if LINTER[kind] in linters:
                    if have == 0:
                        res.violation(f"unreported:{kind}", f"{n}:{ln}: {lines[ln - 1]!r} suppresses {LINTER[kind]} (ignored: {sorted(ignored)}) but is not reported", scenario=sc)
                else:
                    res.count("outside_set")
            for (ln, kind), c in seen.items():
                res.count("reported", c)
                if c > 1:
                    res.violation("repeated", f"{n}:{ln} reported {c}x as {kind}", scenario=sc)
                if kind == "?" or LINTER[kind] not in linters:
                    res.violation("outside-set", f"{n}:{ln} reported as {kind} though ignored are only {sorted(ignored)}", scenario=sc)
                elif kind not in looks_like(lines[ln - 1]) and not (kind == "noqa" and "noqa" in lines[ln - 1].lower()):
                    res.violation("invented", f"{n}:{ln}: {lines[ln - 1]!r} reported as {kind}", scenario=sc)
            for p in mine:
                if p.source.to_name() != "edulint" or lines[p.line - 1][p.column:p.column + 1] != "#":
                    res.violation("place", f"{p} does not point at a comment of {lines[p.line - 1]!r}", scenario=sc)
        # in-file configuration lines have no effect
        if sc["how"] != "infile" and {"all", "edulint"} & set(sc["set"].split(",")) or sc["how"] == "infile" and sc["set"] in ("all", "edulint"):
            if sc["how"] in ("file-infile", "infile", "implicit") and any("config-file" in t or "ignore-infile" in t for t in sc["files"].values()):
                pass  # which of several lines is in force is C01's concern
            else:
                res.count("config_invariance")
                a = sorted(map(pkey, problems))
                write_all(root, sc, True)
                got2 = edu.check(args, options(sc))[0]
                b = sorted(map(pkey, got2[1]))
                if a != b:
                    res.violation("config-lines-effective", f"{sc['how']} {sc['set']}: only with {[x for x in a if x not in b][:3]}, only without {[x for x in b if x not in a][:3]}", scenario=sc)
                ca = [[(x.option, x.val) for x in c if x.option.to_name() != "config-file"] for _f, c, _t in configs]
                cb = [[(x.option, x.val) for x in c if x.option.to_name() != "config-file"] for _f, c, _t in got2[0]]
                if any(x != cb[0] for x in ca + cb):
                    res.violation("config-lines-configure", f"{sc['how']} {sc['set']}: configurations differ: {[x for x in ca if x != cb[0]][:1]} / {cb[0]}"[:900], scenario=sc)
        res.case(sc, nontrivial)
        res.sample({"how": sc["how"], "set": sc["set"], "reported": [f"{p.path}:{p.line} {p.text}" for p in edl][:5]})
    finally:
        os.chdir(here)


def _covers(f, n):
    f = os.path.normpath(os.path.relpath(os.path.abspath(f)))
    return f in (".", n) or n.startswith(f + "/")


def want_set(sc, text):
    """the set in force: command line over in-file over configuration file"""
    val = None
    m = re.findall(r"^\s*#[\s#]*edulint:(.*)$", io.StringIO(text, newline=None).read(), re.I | re.M)
    infile = [w for x in m for w in x.split()]
    iv = [w.split("=", 1)[1] for w in infile if w.startswith("ignore-infile-config-for=")]
    how = sc["how"]
    full = lambda s: set(s.split(","))
    if how == "cmd":
        return full(sc["set"])
    if how == "file":
        if full(sc["set"]) & {"all", "edulint"}:
            return full(sc["set"])
        return full(iv[-1]) if iv else full(sc["set"])
    # the configuration file in force depends on the last config-file line
    if iv and full(iv[-1]) & {"all", "edulint"}:
        return full(iv[-1])
    if how == "infile":
        return full(iv[-1])
    cf = [w.split("=", 1)[1] for w in infile if w.startswith("config-file=")]
    if (how == "file-infile" and "conf.toml" in cf[-1]) or (how == "implicit" and not cf):
        if full(sc["set"]) & {"all", "edulint"}:
            return full(sc["set"])
        return full(iv[-1]) if iv else full(sc["set"])
    return full(iv[-1]) if iv else set()


def task(arg):
    seed, lo, hi = arg
    res = Result()
    for i in range(lo, hi):
        evaluate(scenario(rng_for("C04", seed, i)), res, os.getcwd())
    return res


DIRECTED = [
    {"how": h, "set": s, "files": {"a.py": f"x = 1  {c}\n{c}\n", "d/b.py": "# edulint: pylint=--enable=C0114\nx = 1\n"}, "args": ["a.py", "d"], "absolute": False}
    for h, s in (("cmd", "all"), ("file", "pylint,flake8"), ("implicit", "all")) for c in ("# noqa", "# flake8=noqa", "# pylint: skip-file", "# why pylint: disable=all", "# pylint: enable=C0114, disable=C0103")
]


def run(ctx):
    res = Result()
    if ctx.replay:
        evaluate(ctx.replay["scenario"], res, core.SCRATCH)
        return res
    for sc in DIRECTED:
        evaluate(sc, res, core.SCRATCH)
    n = ctx.n(480, 12800)
    step = n // 16 if not ctx.thorough else n // 64
    res.merge(core.pmerge(task, [(ctx.seed, i, i + step) for i in range(0, n, step)]))
    return res
