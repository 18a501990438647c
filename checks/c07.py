"""C07: linting any file ends with a report, never with an internal error."""
import ast
import glob
import os
import pickle
import re
import sys
import sysconfig
import threading
import time
import traceback
import warnings

from vlib import core, edu
from vlib.core import Result, rng_for
from vlib.grammar import Gen, relayout

LEVEL = "exploration"
RULE = ("random programs over the whole grammar mixed with the idioms the checks look for, definitions of the standard library, hostile layouts, encodings and line endings, "
        "deep nestings, and damaged texts; non-trivial = every file; distinct = the file's bytes and the configuration")
ASSUMPTIONS = ["a crash that pylint or flake8 alone, without edulint, shows on the same file is theirs and only counted",
               "a check that uses 120 s of processor time on one small file counts as one that does not finish",
               "nesting stays below the depth at which pylint itself exhausts Python's recursion limit"]
MINIMUM = {"evaluations": 500, "programs": 300, "invalid_texts": 60, "stdlib_definitions": 40, "own_findings": 1500, "own_codes": 38, "canaries_reported": 100, "layouts": 60,
           "deep": 10, "analysed_functions": 500}
CPU_LIMIT = 120

CANARY = "\n\ndef canary_of_the_monitor(flag):\n    if flag:\n        return True\n    else:\n        return False\n"


LAYOUTS = ["plain", "plain", "plain", "crlf", "cr", "bom", "nonl", "cp1250", "relayout", "relayout", "relayout", "tabs", "formfeed", "coding"]
OPTS = ["own", "own", "own", "own", "default", "all", "own+ignore"]


def stdlib_files():
    d = sysconfig.get_paths()["stdlib"]
    fs = sorted(glob.glob(d + "/*.py") + glob.glob(d + "/*/*.py"))
    return [f for f in fs if "/site-packages/" not in f and "/idlelib/" not in f]


def stdlib_text(r):
    fs = stdlib_files()
    for _ in range(30):
        try:
            src = open(r.choice(fs), encoding="utf-8").read()
            tree = ast.parse(src)
        except (SyntaxError, ValueError, OSError):
            continue
        lines = src.split("\n")
        segs = []
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and 3 <= n.end_lineno - n.lineno <= 80:
                segs.append(n)
        if not segs:
            continue
        out = []
        for n in r.sample(segs, min(len(segs), r.choice([1, 1, 2, 3]))):
            start = min([n.lineno] + [d.lineno for d in n.decorator_list])
            t = lines[start - 1:n.end_lineno]
            ind = len(t[0]) - len(t[0].lstrip())
            t = "\n".join(ln[ind:] if ln[:ind].strip() == "" else ln for ln in t)
            try:
                ast.parse(t)
            except (SyntaxError, ValueError):
                continue
            out.append(t)
        if out:
            return "\n\n\n".join(out) + "\n"
    return "x = 1\n"


def deep_text(r):
    n = r.choice([5, 10, 20, 40])
    k = r.choice(["paren", "binop", "ifs", "elif", "not", "list", "attr", "and", "for", "func", "class", "lambda", "ifexp", "call", "str", "longif", "many", "compound"])
    if k == "paren":
        return "x = " + "(" * n + "1" + ")" * n + "\n"
    if k == "binop":
        return "def f(x):\n    return " + " + ".join(["x"] * n * 2) + "\n"
    if k in ("ifs", "for"):
        n = min(n, 18)
        h = ["if x > %d:", "if x == %d:"] if k == "ifs" else ["for i%d in range(x):", "while x > %d:"]
        return "def f(x):\n" + "".join("    " * (i + 1) + r.choice(h) % i + "\n" for i in range(n)) + "    " * (n + 1) + "return 1\n"
    if k == "elif":
        return "def f(x):\n    if x == 0:\n        return 0\n" + "".join(f"    elif x == {i}:\n        return {r.choice([i, 1])}\n" for i in range(n))
    if k == "longif":
        return "def f(x):\n" + "".join(f"    if x == {i}:\n        return {i}\n" for i in range(n))
    if k == "not":
        return "def f(x):\n    return " + "not " * n + "x\n"
    if k == "list":
        return "x = " + "[" * n + "]" * n + "\n"
    if k == "attr":
        return "def f(x):\n    return x" + ".a" * n + "\n"
    if k == "and":
        return "def f(x, y):\n    if " + r.choice([" and ", " or "]).join(r.choice([f"x > {i}", f"y < {i}", "x", f"x + y == {i}"]) for i in range(min(n, 12))) + ":\n        return x\n"
    if k == "func":
        n = min(n, 15)
        return "".join("    " * i + f"def f{i}(x{i}):\n" for i in range(n)) + "    " * n + "return x0 + x1\n"
    if k == "class":
        n = min(n, 15)
        return "".join("    " * i + f"class A{i}:\n" for i in range(n)) + "    " * n + "x = 1\n"
    if k == "lambda":
        return "x = " + "lambda y: " * n + "y\n"
    if k == "ifexp":
        return "def f(x):\n    return " + "".join(f"{i} if x == {i} else " for i in range(n)) + "0\n"
    if k == "call":
        return "def f(x):\n    return " + "f(" * n + "x" + ")" * n + "\n"
    if k == "str":
        return "x = " + " ".join(["'a'"] * n) + "\n"
    if k == "many":
        n = min(n, 10)
        return "".join(f"x{i} = {i}\n" for i in range(n * 5)) + "def f():\n" + "".join(f"    y{i} = x{i} + {i}\n    print(y{i})\n" for i in range(n * 2))
    return "def f(x, y):\n    while x:\n" + "".join(f"        if x == y + {i}: x -= {i}; break\n" for i in range(n)) + "        try: pass\n        finally: x = 1\n"


def damage(text, r):
    for _ in range(r.choice([1, 1, 2, 4])):
        if not text:
            text = "x"
        i = r.randrange(len(text))
        k = r.random()
        if k < 0.3:
            text = text[:i] + text[i + r.choice([1, 1, 2, 5]):]
        elif k < 0.6:
            text = text[:i] + r.choice(["(", ")", ":", "'", '"""', "\\", "\x00", "    ", "\t", "\n", "=", "if", "?", "$", "é", "\u2028", "\x0c", "{", "}", "0x", "1_", "f'", "def", "#"]) + text[i:]
        elif k < 0.8:
            ls = text.split("\n")
            j = r.randrange(len(ls))
            r.choice([lambda: ls.pop(j), lambda: ls.insert(j, ls[r.randrange(len(ls))]), lambda: ls.__setitem__(j, " " + ls[j])])()
            text = "\n".join(ls)
        else:
            text = text[:i]
    return text


def scenario(r):
    kind = r.choice(["program"] * 10 + ["stdlib"] * 2 + ["deep"] + ["damaged"] * 3 + ["odd"])
    if kind == "program":
        small = r.random() < 0.3
        g = Gen(r, ["x", "y", "z"] if small else None)
        text = g.program(r.choice([3, 8, 15, 25]), r.choice([1, 2, 3]))
    elif kind == "stdlib":
        text = stdlib_text(r)
    elif kind == "deep":
        text = deep_text(r)
    elif kind == "damaged":
        text = damage(Gen(r).program(r.choice([2, 6]), 2), r)
    else:
        text = r.choice(["", "\n", "#", "# x", "pass", "   ", "\f", "\\\n", "'''doc'''", "return 1\n", "break\n", "yield 1\n", "await x\n", "nonlocal x\nx = 1\n", "global x\nx = 1\n",
                         "x: int\n", "def f():\n    nonlocal x\n    x = 1\n", "class A:\n    nonlocal y\n    y = 2\n", "continue\n", "*a = 1,\n", "def f(a, a): pass\n", "x = 1\nglobal x\n",
                         "def f(x):\n    global x\n", "from __future__ import annotations\nx: y = 1\n", "def f():\n    from os import *\n", "[x := 1 for x in y]\n", "print(__name__)\n",
                         "del x\n", "import x\nx = 1\n", "def f(): yield\n", "async def f(): return [x async for x in y]\n", ";\n", "if x:\n", "x = \n", "def f(:\n", 
                         "lambda: (yield)\n", "@x\n", "type X = int\n", "f'{x!r:{y}}'\n", "def f[T](x: T): return T\n", "class A[T]: y: T\n", "None = 1\n", "x, = 1,\n", "(x) = 1\n", "x = y = z = 1\n"])
    s = {"kind": kind, "text": text, "layout": r.choice(LAYOUTS), "opt": r.choice(OPTS), "canary": r.random() < 0.5, "name": r.choice(["m.py"] * 6 + ["č.py", "a b.py", "__init__.py", "x-y.py"])}
    if s["layout"] == "relayout":
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                s["text"] = relayout(text, r)
        except (SyntaxError, ValueError, RecursionError):
            s["layout"] = "plain"
    return s


def encode(s):
    text = s["text"]
    if s["canary"] and s["kind"] != "damaged":
        text += CANARY
    k = s["layout"]
    enc = "utf-8"
    if k == "crlf":
        text = text.replace("\n", "\r\n")
    elif k == "cr":
        text = text.replace("\n", "\r")
    elif k == "bom":
        text = "\ufeff" + text
    elif k == "nonl":
        text = text.rstrip("\n")
    elif k == "cp1250":
        text = "# -*- coding: cp1250 -*-\n" + text
        enc = "cp1250"
    elif k == "coding":
        text = "#!/usr/bin/python\n# vim: set fileencoding=utf-8 :\n" + text
    elif k == "formfeed":
        text = text.replace("\ndef ", "\n\f\ndef ")
    elif k == "tabs":
        text = re.sub(r"^( +)", lambda m: "\t" * (len(m.group(1)) // 4) + " " * (len(m.group(1)) % 4), text, flags=re.M)
    try:
        return text.encode(enc)
    except UnicodeEncodeError:
        return text.encode("utf-8", "surrogatepass")


def parses(data):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            ast.parse(data)
            return True
        except (SyntaxError, ValueError):
            return False
        except (RecursionError, MemoryError):
            return None


def decodes(data):
    import io
    import tokenize

    try:
        enc, _ = tokenize.detect_encoding(io.BytesIO(data).readline)
        data.decode(enc)
        return True
    except (SyntaxError, UnicodeDecodeError, LookupError):
        return False


def compiles(data):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            compile(data, "m", "exec", dont_inherit=True)
            return True
        except Exception:
            return False


def options(s, own):
    if s["opt"] == "default":
        return []
    if s["opt"] == "all":
        return ["pylint=--enable=all", "flake8=--extend-select=E,W,F,C,N"]
    o = ["pylint=--enable=E0001,F0001,F0002,F0010,F0011," + ",".join(own)]
    if s["opt"] == "own+ignore":
        o.append("ignore-infile-config-for=pylint,flake8")
    return o


def foreign_failure(path, what, timeout=300):
    """does the linter fail alone, without edulint, on the file"""
    import subprocess

    try:
        return _foreign_failure(path, what, timeout)
    except subprocess.TimeoutExpired:
        return True


def _foreign_failure(path, what, timeout):
    import subprocess

    env = dict(os.environ)
    env.pop("PYTHONPATH", None)
    if what == "pylint":
        out = subprocess.run([sys.executable, "-m", "pylint", "--enable=all", "--output-format=json", "--persistent=n", path], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return b'"fatal"' in out.stdout or b"Traceback" in out.stderr
    out = subprocess.run([sys.executable, "-m", "flake8", "--isolated", path], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    return out.returncode not in (0, 1) or b"Traceback" in out.stderr


def evaluate(s, res, own, where):
    data = encode(s)
    d = os.path.join(where, "p")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, s["name"])
    with open(path, "wb") as f:
        f.write(data)
    valid = parses(data)
    opts = options(s, own)
    res.case([s["text"], s["layout"], s["opt"], s["canary"]])
    replay = {"scenario": s}
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r, log = edu.check(path, opts)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        at = next((f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb) if "/edulint/" in f.filename), "?")
        with open(path, "wb") as f:
            f.write(data)
        if (isinstance(e, RecursionError) or "prepare_crash_report" in str(tb)) and foreign_failure(path, "pylint"):
            res.count("foreign_failures")
            return
        if "lint_flake8" in str(tb) and foreign_failure(path, "flake8"):
            res.count("foreign_failures")
            return
        res.violation(f"exception:{type(e).__name__}:{at}", f"check_code raised {type(e).__name__}: {e} (at {at})\n" + "".join(traceback.format_exception(e))[-900:], **replay)
        return
    finally:
        try:
            os.unlink(path)
        except OSError:
            pass
    with open(path, "wb") as f:
        f.write(data)
    try:
        if r is None:
            res.violation("no-report", f"check_code returned None; log: {log[:3]}", **replay)
            return
        probs = r[1]
        codes = [p.code for p in probs]
        for lv, m in log:
            if lv in ("ERROR", "CRITICAL"):
                m2 = "\n".join(x for x in m.split("\n") if "SyntaxWarning" not in x and not x.startswith("  "))
                if "Traceback" in m or lv == "CRITICAL" or m2.strip() and "Warning" not in m:
                    if foreign_failure(path, "pylint") or foreign_failure(path, "flake8"):
                        res.count("foreign_failures")
                    else:
                        res.violation("error-log", f"logged {lv}: {m[-700:]}", **replay)
                    return
        fatal = [p for p in probs if p.code.startswith("F0")]
        if fatal:
            if foreign_failure(path, "pylint"):
                res.count("foreign_failures")
            else:
                f = fatal[0]
                res.violation(f"internal-error:{f.code}", f"{f.code} reported: {f.text[:900]}", **replay)
            return
        res.count("programs" if s["kind"] == "program" else {"stdlib": "stdlib_definitions", "deep": "deep", "damaged": "damaged_texts", "odd": "odd_texts"}[s["kind"]])
        if s["layout"] != "plain":
            res.count("layouts")
        if valid is False:
            if decodes(data):
                res.count("invalid_texts")
                if "E999" not in codes and "E0001" not in codes and "E902" not in codes:
                    res.violation("no-syntax-error", f"text that does not parse gives no syntax-error report, only {codes[:8]}", **replay)
        else:
            ow = edu.own(probs)
            res.count("own_findings", len(ow))
            for p in ow:
                res.count("own:" + p.code)
            if s["canary"] and s["kind"] != "damaged" and valid:
                noconf = b"disable=" not in data and b"edulint:" not in data
                if "E0001" in codes:  # pylint's own tokenizing is pickier than Python's parser
                    res.count("foreign_syntax_errors")
                elif noconf and s["opt"] != "default":
                    if not any(p.code == "R6201" and "return flag" in p.text for p in probs):
                        res.violation("canary-lost", f"the finding of the appended function is not reported; reported {codes[:10]}", **replay)
                    else:
                        res.count("canaries_reported")
        if valid and compiles(data):
            res.count("analysed_functions", data.count(b"def "))
        if "R6" in str(codes) and s["kind"] == "program":
            res.sample({"text": s["text"][:300], "layout": s["layout"], "own": [p.code for p in edu.own(probs)][:10]})
    finally:
        try:
            os.unlink(path)
        except OSError:
            pass


def in_child(func, items, label, is_foreign_hang=lambda item: False):
    """runs func(item, result) for all items in a forked child that a watchdog thread guards; a dead or stuck child names its item"""
    out = Result()
    items = list(items)
    pos = 0
    while pos < len(items):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rd)
            w = os.fdopen(wr, "wb")
            state = {"i": pos, "t": time.process_time()}
            res = Result()
            lock = threading.Lock()

            def watch():
                while True:
                    time.sleep(1)
                    if time.process_time() - state["t"] > CPU_LIMIT:
                        with lock:
                            fr = sys._current_frames().get(threading.main_thread().ident)
                            st = [f"{os.path.basename(f.filename)}:{f.name}" for f in traceback.extract_stack(fr)][-6:]
                            pickle.dump(("hang", state["i"], st, res), w)
                            w.flush()
                            os._exit(7)

            threading.Thread(target=watch, daemon=True).start()
            try:
                for i in range(pos, len(items)):
                    state.update(i=i, t=time.process_time())
                    func(items[i], res)
                with lock:
                    pickle.dump(("done", len(items), None, res), w)
                    w.flush()
            except BaseException as e:
                core.note_exception(res, e, label, {"item": str(items[state["i"]])[:3000]})
                with lock:
                    pickle.dump(("done", state["i"] + 1, None, res), w)
                    w.flush()
            os._exit(0)
        os.close(wr)
        with os.fdopen(rd, "rb") as f:
            data = f.read()
        _, status = os.waitpid(pid, 0)
        try:
            what, i, st, res = pickle.loads(data)
        except Exception:
            # died without a word: find the item by running one at a time
            if len(items) - pos == 1:
                out.violation("process-died", f"the process running the check died with status {status}", scenario=items[pos])
                return out
            for it in items[pos:]:
                out.merge(in_child(func, [it], label, is_foreign_hang))
            return out
        out.merge(res)
        if what == "hang":
            pos = i + 1
            if is_foreign_hang(items[i]):
                out.count("foreign_failures")
                continue
            out.violation("hang", f"one file used more than {CPU_LIMIT} s of processor time; stack {st}", scenario=items[i])
            if out.counts["raw:hang"] > 2:
                return out
        else:
            pos = i
    return out


def foreign_hang(s):
    path = os.path.join(os.getcwd(), "h", s["name"])
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(encode(s))
    return foreign_failure(path, "pylint", timeout=CPU_LIMIT)


def task(arg):
    seed, lo, hi = arg
    own = edu.own_messages()
    edu.check(edu.write("warm.py", "x = 1\n"), ["pylint=--enable=" + ",".join(own)])
    where = os.getcwd()

    def one(i, res):
        s = scenario(rng_for("C07", seed, i))
        evaluate(s, res, own, where)

    out = in_child(one, range(lo, hi), "C07", lambda i: foreign_hang(scenario(rng_for("C07", seed, i))))
    for p in out.problems:
        if isinstance(p["replay"].get("scenario"), int):
            p["replay"]["scenario"] = scenario(rng_for("C07", seed, p["replay"]["scenario"]))
    return out


def run(ctx):
    warnings.simplefilter("ignore")
    res = Result()
    if ctx.replay:
        os.chdir(core.SCRATCH)
        own = edu.own_messages()
        return in_child(lambda s, r: evaluate(s, r, own, os.getcwd()), [ctx.replay["scenario"]], "C07")
    n = ctx.n(2200, 60000)
    step = 60
    res.merge(core.pmerge(task, [(ctx.seed, i, i + step) for i in range(0, n, step)]))
    res.counts["own_codes"] = len([k for k in res.counts if k.startswith("own:")])
    return res
