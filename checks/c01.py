"""C01: effective configuration vs. an independent model of the documented rules."""
import json
import os
import shlex

import tomli

from vlib import core, edu
from vlib.core import Result, rng_for

LEVEL = "exploration"
RULE = ("random directory trees with python files carrying in-file lines, explicit/inherited/implicit TOML files and "
        "command lines (valid and malformed); non-trivial = at least two sources set something; distinct = the whole scenario")
ASSUMPTIONS = ["TOML parsing by tomli and word splitting by shlex are trusted",
               "the packaged TOML files are read as data by the model"]
MINIMUM = {"evaluations": 200, "files_compared": 200, "inherited": 30, "implicit": 10, "groups_expanded": 20,
           "malformed": 20, "disable_all": 20}

# ------------------------------------------------------------------ the model

PKG = "/repo/edulint/config/files"
KINDS = {  # option: (takes value, kind, accumulates, default)
    "config-file": (True, "str", False, "default"),
    "pylint": (True, "arg", True, ()),
    "flake8": (True, "arg", True, ()),
    "allowed-onechar-names": (True, "str", False, None),
    "no-flake8": (False, "bool", False, False),
    "ignore-infile-config-for": (True, "csv", False, ()),
    "export-groups": (True, "csv", False, ()),
    "set-groups": (True, "csv", False, ()),
    "disallowed-builtin-names": (True, "csv", False, ()),
    "language-file": (True, "str", False, None),
}
PKG_CHARS = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_")


def conv(opt, raw):
    kind = KINDS[opt][1]
    if kind == "arg":
        return (raw,)
    if kind == "csv":
        return tuple(raw.split(",")) if raw else ()
    if kind == "bool":
        return True
    return raw


def words_to_settings(words, bad):
    out = []
    for w in words:
        name, eq, val = w.partition("=")
        val = val if eq else None
        name = name.lower()
        name = "config-file" if name == "config" else name
        if name not in KINDS:
            bad.append(w)
        elif KINDS[name][0] and val is None:
            bad.append(w)
        elif not KINDS[name][0] and val is not None:
            bad.append(w)
        else:
            out.append((name, conv(name, val)))
    return out


def rel(path, base_file):
    if path.startswith(("http://", "https://")) or set(path) <= PKG_CHARS or os.path.isabs(path):
        return path
    return os.path.abspath(os.path.join(os.path.dirname(base_file), path))


def scalar(v):
    if isinstance(v, bool) or isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return v
    if isinstance(v, list):
        return ",".join(x for x in map(scalar, v) if x is not None)
    return None


class Missing(Exception):
    pass


def load_file(path, bad, chain=()):
    """-> (settings in order, option groups)"""
    if path in chain:
        raise Missing(path)
    if set(path) <= PKG_CHARS:
        real = os.path.join(PKG, path + ".toml")
    else:
        real = path
    if not os.path.isfile(real):
        raise Missing(path)
    with open(real, "rb") as f:
        try:
            d = tomli.load(f)
        except tomli.TOMLDecodeError:
            raise Missing(path)
    if path == "empty":
        base, groups = [], {}
    else:
        parent = d.get("config-file", "empty")
        if not isinstance(parent, str):
            bad.append("config-file")
            parent = "empty"
        base, groups = load_file(rel(parent, path), bad, chain + (path,))
    own = []
    for name, v in d.items():
        if name in ("language-translations", "default-enabler-name"):
            continue
        if name == "translations" and not isinstance(v, dict):
            bad.append("option sets")
            continue
        if name == "translations":
            for g, linters in v.items():
                if isinstance(linters, dict):
                    gs = {}
                    for l, t in linters.items():
                        if l in ("pylint", "flake8"):
                            gs[l] = (tuple(f"--{k}={scalar(x)}" for k, x in t.items()) if isinstance(t, dict)
                                     else (scalar(t),))
                    if gs:
                        groups = {**groups, g: gs}
            continue
        low = "config-file" if name.lower() == "config" else name.lower()
        if low not in KINDS:
            bad.append(name)
            continue
        if low == "config-file":
            continue
        if not KINDS[low][0]:
            bad.append(name)
            continue
        if isinstance(v, dict):
            if low not in ("pylint", "flake8"):
                bad.append(name)
                continue
            for k, x in v.items():
                if scalar(x) is None:
                    bad.append(name)
                else:
                    own.append((low, (f"--{k}={scalar(x)}",)))
            continue
        s = scalar(v)
        if s is None:
            bad.append(name)
            continue
        if low == "language-file":
            s = rel(s, path)
        own.append((low, conv(low, s)))
    return base + own, groups


def last(settings, opt):
    for o, v in reversed(settings):
        if o == opt:
            return v
    return None


def blocks_infile(v):
    return v is not None and ("edulint" in v or "all" in v)


def infile_words(text, path, bad):
    import re

    words = []
    for line in text.splitlines():
        s = line.strip()
        m = re.match(r"#[\s#]*edulint:(.*)", s, re.I)
        if m:
            try:
                words += shlex.split(m.group(1))
            except ValueError:
                bad.append("invalid in-file configuration")
        if re.match(r".*from\s+ib111\s+import.+week_\d+", s, re.I):
            words.append("config-file=ib111.toml")
    return words


def implicit(path):
    d = os.path.dirname(os.path.abspath(path))
    while True:
        found = {os.path.join(d, n) for n in ("edulint.toml", ".edulint.toml") if os.path.exists(os.path.join(d, n))}
        if found:
            return found
        if os.path.dirname(d) == d:
            return set()
        d = os.path.dirname(d)


def effective(path, text, cmd_words, bad):
    """-> dict option -> value, or None when the file cannot be configured"""
    cmd = words_to_settings(cmd_words, bad)
    infile = []
    if not blocks_infile(last(cmd, "ignore-infile-config-for")):
        imp = sorted(implicit(path))
        infile = [("config-file", p) for p in imp[:1]] + words_to_settings(infile_words(text, path, bad), bad)
        infile = [(o, rel(v, path) if o in ("config-file", "language-file") and os.path.exists(v) is not None and not (o == "config-file" and v in imp) else v)
                  for o, v in infile]
        ig = last(infile, "ignore-infile-config-for")
        if blocks_infile(ig):
            infile = [("ignore-infile-config-for", ig)]
    src = last(cmd, "config-file")
    from_cmd = src is not None
    if src is None:
        src = last(infile, "config-file")
    try:
        fsettings, groups = load_file(src if src is not None else "default", bad)
    except Missing:
        return None
    if blocks_infile(last(fsettings, "ignore-infile-config-for")):
        seq = fsettings + cmd
    else:
        seq = fsettings + infile + cmd
    # the winning occurrence of a replaced option stands where it was written last
    final = []
    for i, (o, v) in enumerate(seq):
        if not KINDS[o][2] and any(o2 == o for o2, _ in seq[i + 1:]):
            continue
        final.append((o, v))
        names = [g for g in v if g in groups] if o == "set-groups" else []
        if o in groups:
            names = names + [o]
        for g in names:
            for l, args in groups[g].items():
                final.extend((l, (a,)) for a in args)
    out = {o: k[3] for o, k in KINDS.items()}
    for o, v in final:
        out[o] = (out[o] + v) if KINDS[o][2] else v
    return out


def message_state(args):
    """what a sequence of --enable/--disable leaves: (baseline, {msg: on}) and the other arguments"""
    base, st, other = None, {}, []
    for a in args:
        low = a.lower()
        for pre, on in (("--enable=", True), ("--disable=", False)):
            if low.startswith(pre):
                vals = low[len(pre):].split(",")
                for v in vals:
                    if v == "all":
                        base, st = on, {}
                    elif v != "noop":
                        st[v] = on
                break
        else:
            other.append(a)
    st = {k: v for k, v in st.items() if v != base}
    return base, st, other


# ------------------------------------------------------------- the generator

SYMS = ["use-foreach", "no-self-use", "R6201", "c0114", "unused-import", "invalid-name", "duplicate-key"]
F8 = ["E501", "W291", "F401", "E225", "E"]
GROUPS = ["enhancement", "python-specific", "complexity", "mine", "extra", "unknown-group"]


def rsyms(r, pool):
    return ",".join(r.sample(pool, r.randint(1, 3)))


def pylint_arg(r):
    k = r.random()
    if k < 0.35:
        return "--enable=" + rsyms(r, SYMS)
    if k < 0.6:
        return "--disable=" + rsyms(r, SYMS)
    if k < 0.72:
        return r.choice(["--disable=all", "--enable=all"])
    return r.choice(["--max-line-length=%d" % r.randint(60, 120), "--good-names=i,J,K", "--bad-names-rgxs=^[A-Z]$",
                     "--max-args=%d" % r.randint(1, 9)])


def flake8_arg(r):
    return r.choice(["--select=", "--extend-select=", "--ignore=", "--extend-ignore="]) + rsyms(r, F8) \
        if r.random() < 0.8 else "--max-line-length=%d" % r.randint(60, 120)


def word(r, allow_config=()):
    k = r.random()
    if k < 0.3:
        return "pylint=" + pylint_arg(r)
    if k < 0.45:
        return "flake8=" + flake8_arg(r)
    if k < 0.55:
        return "set-groups=" + rsyms(r, GROUPS)
    if k < 0.62:
        return "allowed-onechar-names=" + r.choice(["ijk", "xy", "", "n"])
    if k < 0.68:
        return "disallowed-builtin-names=" + r.choice(["sum,len", "", "max"])
    if k < 0.72:
        return "export-groups=" + rsyms(r, GROUPS)
    if k < 0.76:
        return "no-flake8"
    if k < 0.80:
        return "ignore-infile-config-for=" + r.choice(["pylint", "flake8", "pylint,flake8", "all", "edulint"])
    if k < 0.84:
        return "language-file=" + r.choice(["lang.toml", "sub/l.toml"])
    if k < 0.92 and allow_config:
        return r.choice(["config-file=", "config="]) + r.choice(allow_config)
    if k < 0.97:
        return r.choice(["nonsense", "nonsense=1", "pylint", "no-flake8=true", "set-groups", "Set-Groups=enhancement",
                         "NO-FLAKE8", "pylint=--x=a=b" if False else "allowed-onechar-names=a=b"])
    return "pylint=" + pylint_arg(r)


def toml_str(v):
    if isinstance(v, list):
        return "[" + ", ".join(json.dumps(x) for x in v) + "]"
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, (int, float)):
        return repr(v)
    return json.dumps(v)


def config_text(r, parents):
    top, tables = [], []
    if parents and r.random() < 0.6:
        top.append(("config-file", r.choice(parents)))
    elif r.random() < 0.06:
        top.append(("config-file", 3))
    for _ in range(r.randint(0, 3)):
        o = r.choice(["allowed-onechar-names", "disallowed-builtin-names", "export-groups", "set-groups",
                      "ignore-infile-config-for", "language-file", "bogus-option", "export-groups"])
        if o == "allowed-onechar-names":
            v = r.choice(["ab", "", 5])
        elif o == "language-file":
            v = "x/lang.toml"
        elif o == "ignore-infile-config-for":
            v = r.choice([["pylint"], "flake8", ["pylint", "flake8"], "all"] if r.random() < 0.3 else ["pylint", "flake8"])
        elif o == "bogus-option":
            v = r.choice(["a", 3, ["q"], ["q", 4]])
        else:
            v = r.choice([r.sample(GROUPS, 2), rsyms(r, GROUPS), 2.5, ["mine", 3]])
        if o not in [t[0] for t in top]:
            top.append((o, v))
    lines = []
    for l, mk, pool in (("pylint", pylint_arg, SYMS), ("flake8", flake8_arg, F8)):
        k = r.random()
        if k < 0.25:
            top.append((l, mk(r)))
        elif k < 0.75:
            t = [f"[{l}]"]
            keys = r.sample(["enable", "disable", "max-line-length", "bad-names-rgxs"] if l == "pylint"
                            else ["select", "ignore", "extend-select", "max-line-length"], r.randint(1, 3))
            for kk in keys:
                if kk == "max-line-length":
                    v = r.choice([80, "90"])
                elif kk == "bad-names-rgxs":
                    v = "^[A-Z]$"
                else:
                    v = r.sample(pool, r.randint(1, 3))
                    if l == "pylint" and r.random() < 0.25:
                        v = "all"
                    elif r.random() < 0.4:
                        v = ",".join(v)
                t.append(f"{kk} = {toml_str(v)}")
            tables.append("\n".join(t))
    for g in ("mine", "extra", "allowed-onechar-names", "enhancement"):
        if r.random() < 0.25:
            l = r.choice(["pylint", "flake8"])
            t = [f"[translations.{g}.{l}]"]
            if l == "pylint":
                t.append(f"{r.choice(['enable', 'disable'])} = {toml_str(r.sample(SYMS, 2))}")
                if r.random() < 0.3:
                    t.append('max-args = 3')
            else:
                t.append(f"extend-select = {toml_str(r.sample(F8, 2))}")
            tables.append("\n".join(t))
    lines = [f"{k} = {toml_str(v)}" for k, v in top]
    return "\n".join(lines + tables) + "\n"


def infile_text(r, allow_config):
    lines = []
    for _ in range(r.randint(0, 4)):
        k = r.random()
        if k < 0.7:
            pre = r.choice(["# edulint: ", "#edulint:", "## EduLint:  ", "    # edulint: ", "# # edulint: ", "#\tEDULINT: "])
            ws = [word(r, allow_config) for _ in range(r.randint(1, 2))]
            if r.random() < 0.04:
                ws.append('allowed-onechar-names="ab')
            elif r.random() < 0.2:
                ws = [w.split("=", 1)[0] + "=" + json.dumps(w.split("=", 1)[1]) if "=" in w else w for w in ws]
            lines.append(pre + " ".join(ws))
        elif k < 0.8:
            lines.append("x = 1  # edulint: set-groups=mine")
        elif k < 0.9:
            lines.append("# edulint set-groups=mine")
        else:
            lines.append("y = 2")
    if r.random() < 0.03:
        lines.append("from ib111 import week_02")
    return "\n".join(lines) + "\n"


def scenario(r):
    dirs = ["", "a", "a/b", "c"]
    configs = {}
    names = []
    for i in range(r.randint(0, 4)):
        d = r.choice(dirs)
        path = (d + "/" if d else "") + f"c{i}.toml"
        parents = ["empty", "default", "cs0", "cs1", "full", "webtiger"]
        for q in names:
            parents.append(os.path.relpath(q, d or "."))
            parents.append("@ABS@/" + q)
        if r.random() < 0.04:
            parents = ["missing.toml", "missing-packaged"]
        if r.random() < 0.5 and names:
            parents = [p for p in parents if p.endswith(".toml")] or parents
        configs[path] = config_text(r, [p if p.endswith(".toml") or "/" in p else p for p in parents])
        if not configs[path].strip():
            configs[path] = "# nothing\n"
        names.append(path)
    if r.random() < 0.35:
        for d in r.sample(dirs, r.randint(1, 2)):
            p = (d + "/" if d else "") + r.choice(["edulint.toml", ".edulint.toml"])
            configs[p] = config_text(r, ["default", "cs1"] + [os.path.relpath(q, d or ".") for q in names])
    files = {}
    for i in range(r.randint(1, 4)):
        d = r.choice(dirs)
        path = (d + "/" if d else "") + f"f{i}.py"
        allow = ["empty", "default", "cs1"] + [os.path.relpath(q, d or ".") for q in names] + ["@ABS@/" + q for q in names]
        if r.random() < 0.3:
            allow = allow[3:] or allow
        files[path] = infile_text(r, allow)
    if any("ib111" in t for t in files.values()):
        configs.setdefault("ib111.toml", config_text(r, []))
    cmd = []
    for _ in range(r.randint(0, 3)):
        cmd.append(" ".join(word(r, ["empty", "default"] + names) for _ in range(r.randint(1, 2))))
    if r.random() < 0.5:
        cmd = [c for c in cmd if "config" not in c or "ignore-infile" in c]
    return {"configs": configs, "files": files, "cmd": cmd}


# ---------------------------------------------------------------- execution


def evaluate(sc, res: Result, base):
    """materialises the scenario, runs the real resolution, compares"""
    import shutil

    from edulint.config.config import get_cmd_args, get_config_many
    from edulint.option_parses import get_option_parses

    old = os.getcwd()
    root = os.path.join(base, "sc")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    os.chdir(root)
    root = os.getcwd()
    try:
        for p, t in list(sc["configs"].items()) + list(sc["files"].items()):
            edu.write(os.path.join(root, p), t.replace("@ABS@", root))
        cmd_opts = [c.replace("@ABS@", root) for c in sc["cmd"]]
        files = list(sc["files"])
        with edu.captured_log("WARNING") as log:
            try:
                got = get_config_many(files, get_cmd_args(cmd_opts), get_option_parses())
            except Exception as e:
                res.violation(f"crash:{type(e).__name__}", f"configuration resolution raised {e!r}", scenario=sc)
                return
        cmd_words = [w for c in cmd_opts for w in shlex.split(c)]
        bad = []
        expected = {f: effective(f, sc["files"][f].replace("@ABS@", root), cmd_words, bad) for f in files}
        actual = {}
        for fs, conf, _tr in got:
            for f in fs:
                if f in actual:
                    res.violation("file-listed-twice", f"{f} is in two groups", scenario=sc)
                actual[f] = {a.option.to_name(): a.val for a in conf}
        nsources = bool(sc["cmd"]) + bool(sc["configs"]) + any("edulint:" in t for t in sc["files"].values())
        res.case(sc, nontrivial=nsources >= 2)
        if bad:
            res.count("malformed")
            text = "\n".join(m for _l, m in log)
            for b in set(bad):
                name = b.partition("=")[0]
                if name.lower() not in text.lower():
                    res.violation("malformed-not-logged", f"{b!r} dropped without a log message", scenario=sc)
        for f in files:
            e, a = expected[f], actual.get(f)
            res.count("files_compared")
            if e is None:
                res.count("unconfigurable")
                if a is not None:
                    res.violation("missing-config-used", f"{f}: configuration file missing, but configured as {a}", scenario=sc)
                continue
            if a is None:
                res.violation("file-not-configured", f"{f}: no configuration; log {log}", scenario=sc)
                continue
            if "@ABS" in str(sc["configs"]) or "config-file" in str(sc["configs"]):
                res.count("inherited")
            if implicit(f):
                res.count("implicit")
            if e["set-groups"]:
                res.count("groups_expanded")
            for o in KINDS:
                ev, av = e[o], a[o]
                if o == "pylint":
                    ev, av = message_state(ev), message_state(av)
                    if "--disable=all" in a[o]:
                        res.count("disable_all")
                elif o == "config-file" and implicit(f) and len(implicit(f)) > 1:
                    continue
                if ev != av:
                    which = ""
                    if o == "pylint":
                        which = ":other" if ev[2] != av[2] else ":messages"
                    res.violation(f"option:{o}{which}", f"{f}: {o} is {av!r}, documented rules give {ev!r}", scenario=sc, file=f)
        res.sample({"scenario": sc, "effective": {f: (str(v)[:300] if v else None) for f, v in expected.items()}})
    finally:
        os.chdir(old)


def task(arg):
    seed, lo, hi = arg
    res = Result()
    for i in range(lo, hi):
        evaluate(scenario(rng_for("C01", seed, i)), res, os.getcwd())
    return res


DIRECTED = [
    # implicit configuration in the file's own directory and in a parent
    {"configs": {"edulint.toml": "[pylint]\nenable = 'use-foreach'\n"}, "files": {"a/b/f.py": "x = 1\n"}, "cmd": []},
    {"configs": {".edulint.toml": "allowed-onechar-names = 'q'\n"}, "files": {"f.py": "x = 1\n", "a/g.py": "# edulint: config-file=empty\n"}, "cmd": []},
    {"configs": {"edulint.toml": "allowed-onechar-names = 'q'\n", "a/.edulint.toml": "allowed-onechar-names = 'w'\n"},
     "files": {"a/b/f.py": "x = 1\n"}, "cmd": ["allowed-onechar-names=e"]},
    # letter case of arguments is significant
    {"configs": {"c.toml": "[pylint]\nbad-names-rgxs = '^[A-Z]$'\n"}, "files": {"f.py": "x = 1\n"}, "cmd": ["config-file=c.toml", "pylint=--good-names=I,J"]},
    # malformed values
    {"configs": {"c.toml": "translations = 3\nset-groups = ['mine']\n"}, "files": {"f.py": ""}, "cmd": ["config-file=c.toml"]},
    {"configs": {"c.toml": "language-translations = 3\nset-groups = ['mine']\n"}, "files": {"f.py": ""}, "cmd": ["config-file=c.toml"]},
    {"configs": {"c.toml": "disallowed-builtin-names = [3, 'sum']\nlanguage-file = 7\n"}, "files": {"f.py": ""}, "cmd": ["config-file=c.toml"]},
    {"configs": {}, "files": {"f.py": "# edulint: allowed-onechar-names=\"ab\n# edulint: export-groups=mine\n"}, "cmd": []},
    # inheritance cycles
    {"configs": {"c.toml": "config-file = 'c.toml'\n"}, "files": {"f.py": ""}, "cmd": ["config-file=c.toml"]},
    {"configs": {"c.toml": "config-file = 'a/d.toml'\n", "a/d.toml": "config-file = '../c.toml'\n"},
     "files": {"f.py": "# edulint: config-file=c.toml\n", "a/g.py": "x = 1\n"}, "cmd": []},
]


def run(ctx):
    res = Result()
    if ctx.replay:
        evaluate(ctx.replay["scenario"], res, core.SCRATCH)
        return res
    for sc in DIRECTED:
        evaluate(sc, res, core.SCRATCH)
    n = ctx.n(1600, 40000)
    step = n // 32
    res.merge(core.pmerge(task, [(ctx.seed, i, i + step) for i in range(0, n, step)]))
    return res
