"""C17: translations reword exactly the messages they name."""
import json
import os
import re
import shutil
import sys
from collections import Counter

from vlib import core, edu
from vlib.core import Result, rng_for

LEVEL = "exploration"
RULE = ("random translation tables over all pylint, flake8 and edulint messages (codes and symbols, any placeholder order, word tables, invalid entries) set by "
        "configuration files, inherited ones and language files, over several files with different configurations; messages come from real code and from a "
        "plugin emitting any message with known arguments; non-trivial = a message is translated; distinct = the scenario")
ASSUMPTIONS = ["snippets do not contain the fixed words around placeholders of their message", "a message is named by code or by symbol, not both in different tables"]
MINIMUM = {"evaluations": 50, "translated": 600, "with_snippets": 400, "words_translated": 20, "untouched": 600, "flake8_translated": 100, "by_symbol": 100,
           "language_file": 15, "inherited_table": 15, "distinct_codes": 150, "several_configurations": 15}

F8 = {
    "F401": r"(.*) imported but unused", "F841": r"local variable (.*) is assigned to but never used", "E501": r"line too long \((.*) > (.*) characters\)",
    "E302": r"expected (.*) blank lines, found (.*)", "F811": r"redefinition of unused (.*) from line (.*)", "E741": r"ambiguous variable name '(.*)'",
    "E201": r"whitespace after '(.*)'", "F405": r"(.*) may be undefined, or defined from star imports: (.*)", "E111": r"indentation is not a multiple of (.*)",
    "F507": r"'\.\.\.' % \.\.\. has (.*) placeholder\(s\) but (.*) substitution\(s\)", "F821": r"undefined name (.*)", "E712": r"comparison to (.*) should be 'if(.*) cond:'",
    "E303": r"too many blank lines \((.*)\)", "F403": r"'from (.*) import \*' used; unable to detect undefined names", "E225": "", "W291": "", "E401": "", "E722": "", "F901": "",
}
CODE = '''import os, sys


def f(a):
    x=1
    unknown(y)
    l = [1, 2]
    print( l )
    if a == True:
        pass
    if a == False:
        pass
    return "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"
def f(b):
   "%d %d" % (1,)
   c = 1 



   a.b.c = 3


try:
    from foo import *
except:
    raise NotImplemented
def g(x):
    sum = x * x * x
    for i in range(len(x)):
        print(x[i])
    if x > 3 and x > 2:
        return True
    else:
        return False
'''
WORDS = ["alpha", "be-ta", "x1", "Ž", "power", "br{a}ce", "per%cent", "multi-word", "1"]


def specs(fmt):
    return re.findall(r"%(?:\((\w+)\))?(#?\d*[srdix%])", fmt)


def build(r, fmts, symbols):
    """one scenario"""
    codes = r.sample(sorted(fmts), 14) + [c for c in ("C0104", "R6607", "R6601") if c in fmts and r.random() < 0.5]
    reqs = []
    for c in codes:
        kinds = [k for _n, k in specs(fmts[c]) if k != "%"]
        args = []
        for k in kinds:
            args.append(r.randint(0, 40) if k[-1] in "dix" else r.choice(WORDS))
        if c == "C0104":
            args = [r.choice(["foo", "l", "bar"])]
        elif c == "W0622":
            args = ["max"]
        elif c == "C0325":
            args = [r.choice(["if", "while"])]
        elif c == "R6607":
            args = ["power", "multiplication", "x * x * x"]
        reqs.append([c, args])

    def table(pool_codes):
        t, words = {}, {}
        for c in pool_codes:
            kinds = [1 for _n, k in specs(fmts[c]) if k != "%"] if c in fmts else [1] * F8[c].count("(.*)")
            name = symbols[c] if c in symbols and r.random() < 0.5 else c
            n = len(kinds)
            k = r.random()
            if k < 0.06:
                t[name] = r.choice([5, ["x"], {"a": "b"}])
                continue
            if n == 0:
                t[name] = r.choice(["Překlad ", "T:"]) + c
            elif k < 0.12:
                t[name] = "bad " + r.choice(["{9}", "{", "}", "{0", "{x}", "{0.foo}", "{0:d}", "{a[0]}"])
            else:
                order = [f"{{{i}}}" for i in range(n)]
                if r.random() < 0.5:
                    r.shuffle(order)
                elif r.random() < 0.3:
                    order = ["{}"] * n
                elif r.random() < 0.3:
                    order = order + order[:1] + ["{{x}}"]
                t[name] = f"T {c}: " + r.choice([" <", "|"]).join(order) + r.choice(["", " ř."])
            if n and r.random() < 0.5:
                words[name] = {str(r.randint(1, n)): {w: r.choice(["SLOVO", "W" + w.replace("{", "").replace("}", "")]) for w in r.sample(WORDS, 5)}}
                if r.random() < 0.15:
                    words[name]["x"] = {"a": "b"}
                if r.random() < 0.15:
                    words[name]["1"] = r.choice([3, {"alpha": 3, "1": "jedna"}])
        return {"t": t, "w": words}

    allc = codes + sorted(F8)
    tables = [table(r.sample(allc, r.randint(3, 16))) for _ in range(4)]
    nfiles = r.choice([1, 2, 2, 3])
    files = []
    for i in range(nfiles):
        files.append({"conf": r.choice(["A", "B", None, None]), "lang": r.choice(["L", "M", None, None]),
                      "reqs": r.sample(reqs, r.randint(4, len(reqs)))})
    return {"tables": tables, "files": files, "cmd_conf": r.choice([None, None, "A", "B"]), "cmd_lang": r.choice([None, None, None, "L"]),
            "conf_lang": r.choice([None, None, "M"]), "codes": codes}


def q(s):
    return json.dumps(s, ensure_ascii=False)


def toml_val(v):
    if isinstance(v, dict):
        return "{" + ", ".join(f"{q(k)} = {toml_val(x)}" for k, x in v.items()) + "}"
    if isinstance(v, list):
        return "[" + ", ".join(map(toml_val, v)) + "]"
    return q(v) if isinstance(v, str) else str(v)


def toml_table(tb, prefix):
    out = [f"[{prefix}]" if prefix else ""]
    out += [f"{q(k)} = {toml_val(v)}" for k, v in tb["t"].items()]
    ids = {k: v for k, v in tb["w"].items()}
    if ids:
        out.append(f"[{prefix + '.' if prefix else ''}translated_extracts]")
        out += [f"{q(k)} = {toml_val(v)}" for k, v in ids.items()]
    return "\n".join(out) + "\n"


def entries(tb):
    return {k: (v, tb["w"].get(k, {})) for k, v in tb["t"].items() if isinstance(v, str)}


def chosen(sc, f):
    """the translations in force for a file: name -> (template, words); a language file over the configuration file over the inherited"""
    conf = sc["cmd_conf"] or f["conf"]
    tr = {}
    if conf in ("A", "B"):
        tr = {**entries(sc["tables"][0])}
        if conf == "B":
            tr = {**tr, **entries(sc["tables"][1])}
    lang = sc["cmd_lang"] or f["lang"] or (sc["conf_lang"] if conf == "B" else None)
    if lang:
        tr = {**tr, **entries(sc["tables"][2 if lang == "L" else 3])}
    return tr, conf, lang


def snippets(p, fmts, req_args):
    """-> list of snippets as shown, or None when the message has no known form"""
    if p.code in F8 and p.source.to_name() == "flake8":
        m = re.fullmatch(F8[p.code], p.text, re.S) if F8[p.code] else None
        return list(m.groups()) if m else []
    return req_args


def shown(fmt, args):
    out = []
    for (name, k), a in zip([s for s in specs(fmt) if s[1] != "%"], args):
        out.append(("%" + k) % (a,))
    return out


def translate(template, words, snips):
    if not snips:
        return template
    vals = []
    for i, s in enumerate(snips, 1):
        m = words.get(str(i))
        v = m.get(s) if isinstance(m, dict) else None
        vals.append(v if isinstance(v, str) else s)
    try:
        return template.format(*vals)
    except (IndexError, KeyError, ValueError, AttributeError):
        return None  # invalid template: the original message stays


def evaluate(sc, res, base, fmts, symbols):
    root = os.path.join(base, "sc")
    here = os.getcwd()
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(os.path.join(root, "conf"))
    os.chdir(root)
    common = "[pylint]\nload-plugins = 'verif_emit'\nenable = %s\n[flake8]\nselect = %s\n" % (json.dumps(sc["codes"] + ["W9901", "R6607", "R6305", "R6201"]), json.dumps(sorted(F8)))
    try:
        tb = sc["tables"]
        edu.write("conf/A.toml", "config-file = 'empty'\n" + common + toml_table(tb[0], "language-translations"))
        edu.write("conf/B.toml", "config-file = './A.toml'\n" + ("language-file = './M.toml'\n" if sc["conf_lang"] else "") + toml_table(tb[1], "language-translations"))
        edu.write("conf/P.toml", "config-file = 'empty'\n" + common)
        edu.write("conf/L.toml", toml_table(tb[2], ""))
        edu.write("conf/M.toml", toml_table(tb[3], ""))
        names = []
        for i, f in enumerate(sc["files"]):
            head = f"# edulint: config-file=conf/{f['conf'] or 'P'}.toml\n"
            if f["lang"]:
                head += f"# edulint: language-file=conf/{f['lang']}.toml\n"
            text = head + "".join(f"#! {c} {json.dumps([n % 7] + a)}!\n" for n, (c, a) in enumerate(f["reqs"])) + CODE
            names.append(edu.write(f"t{i}.py", text))
        opts = []
        if sc["cmd_conf"]:
            opts.append(f"config-file=conf/{sc['cmd_conf']}.toml")
        got, log = edu.check(names, opts + ([f"language-file=conf/{sc['cmd_lang']}.toml"] if sc["cmd_lang"] else []))
        # the same without any translation
        plain = []
        for i, f in enumerate(sc["files"]):
            n = edu.write(f"plain/t{i}.py", open(f"t{i}.py", encoding="utf-8").read().replace("# edulint: ", "# xdulint: "))
            r, _ = edu.check([n], ["config-file=conf/P.toml"])
            plain.append(r)
        if got is None or any(p is None for p in plain):
            res.violation("no-result", f"{log}", scenario=sc)
            return
        nontrivial = False
        used = set()
        if any(p.code == "F0002" for p in got[1]):
            res.count("crashed:" + str(sc["files"][0]["reqs"]))
        for i, f in enumerate(sc["files"]):
            tr, conf, lang = chosen(sc, f)
            used.add((conf, lang))
            if lang:
                res.count("language_file")
            if conf == "B":
                res.count("inherited_table")
            mine = [p for p in got[1] if p.path == f"t{i}.py"]
            base_ps = plain[i][1]
            if Counter((p.code, p.line, p.column) for p in mine) != Counter((p.code, p.line, p.column) for p in base_ps):
                res.violation("problems-differ", f"translation changed the set of problems: {[(p.code, p.line) for p in mine][:8]} vs {[(p.code, p.line) for p in base_ps][:8]}", scenario=sc)
                continue
            want = Counter()
            for p in base_ps:
                name = p.code if p.code in tr else p.symbol if p.symbol in tr else None
                text = p.text
                if name is not None:
                    template, words = tr[name]
                    req = None
                    if p.source.to_name() == "pylint" and p.code in fmts and p.line >= 2:
                        req = next((shown(fmts[c], a) for k, (c, a) in enumerate(f["reqs"]) if c == p.code and p.line == k + 2 + bool(f["lang"])), None)
                        if req is None and specs(fmts[p.code]):
                            # reported for the real code: compare by its own text
                            req = real_snippets(p, fmts)
                    sn = snippets(p, fmts, req if req is not None else [])
                    t = translate(template, words, sn)
                    if t is not None:
                        text = t
                    nontrivial = True
                    res.count("translated")
                    res.count("distinct:" + p.code)
                    if sn:
                        res.count("with_snippets")
                    if any(isinstance(words.get(str(j)), dict) and s in words[str(j)] for j, s in enumerate(sn, 1)):
                        res.count("words_translated")
                    if p.source.to_name() == "flake8":
                        res.count("flake8_translated")
                    if name == p.symbol:
                        res.count("by_symbol")
                else:
                    res.count("untouched")
                want[(p.code, p.line, p.column, text)] += 1
            have = Counter((p.code, p.line, p.column, p.text) for p in mine)
            if have != want:
                res.violation("text", f"conf {conf} lang {lang}: shown {list((have - want))[:3]}, expected {list((want - have))[:3]}", scenario=sc)
        if len(used) > 1:
            res.count("several_configurations")
        res.case(sc, nontrivial)
        res.sample({"files": [(f["conf"], f["lang"]) for f in sc["files"]], "cmd": [sc["cmd_conf"], sc["cmd_lang"]], "table": dict(list(tb[0]["t"].items())[:2])})
    finally:
        os.chdir(here)


REAL = {"R6607": r"Use (.*) instead of repeated (.*) in (.*)\.", "R6305": None}


def real_snippets(p, fmts):
    pat = re.sub(r"%s|%r|%d", "(.*)", re.escape(fmts[p.code]).replace(r"%s", "%s"))
    m = re.fullmatch(pat, p.text, re.S)
    return list(m.groups()) if m else []


def formats():
    """message templates known to pylint itself, of pylint's own and edulint's checkers"""
    from pylint.lint import PyLinter

    edu.check([edu.write(os.path.abspath("empty_.py"), "")], [])
    ln = PyLinter()
    ln.load_default_plugins()
    for m in ("basic_checker", "local_defects", "unsuited_loop", "simplifiable_if", "python_ta_checkers", "duplication.checker"):
        ln.load_plugin_modules(["edulint.linting.checkers." + m])
    fmts, symbols = {}, {}
    for d in ln.msgs_store.messages:
        if d.msgid[0] in "CRWE" and d.msgid not in ("R0801", "W9901", "W0213") and not d.checker_name.startswith("verif") and not re.search(r"%[^srdix(#%\d]", d.msg) and "%(" not in d.msg:
            if re.search(r"\.(extensions)\.", ln_module(ln, d)):
                continue
            fmts[d.msgid] = d.msg
            symbols[d.msgid] = d.symbol
    return fmts, symbols


def ln_module(ln, d):
    return next((c.__class__.__module__ for c in ln.get_checkers() if d.msgid in c.msgs), ".extensions.")


def task(arg):
    seed, lo, hi = arg
    res = Result()
    fmts, symbols = formats()
    for i in range(lo, hi):
        evaluate(build(rng_for("C17", seed, i), fmts, symbols), res, os.getcwd(), fmts, symbols)
    return res


def run(ctx):
    sys.path.insert(0, os.path.join(core.VERIF, "plugins"))
    os.environ["PYTHONPATH"] = os.environ.get("PYTHONPATH", "") + os.pathsep + os.path.join(core.VERIF, "plugins")
    res = Result()
    if ctx.replay:
        os.chdir(core.SCRATCH)
        fmts, symbols = formats()
        evaluate(ctx.replay["scenario"], res, core.SCRATCH, fmts, symbols)
        return res
    n = ctx.n(320, 6400)
    step = n // 16 if not ctx.thorough else n // 64
    res.merge(core.pmerge(task, [(ctx.seed, i, i + step) for i in range(0, n, step)]))
    codes = [k for k in res.counts if k.startswith("distinct:")]
    res.count("distinct_codes", len(codes))
    for k in codes:
        del res.counts[k]
    return res
