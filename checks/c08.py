"""C08: results depend only on the files and options, not on history."""
import hashlib
import json
import os
import pickle
import random
import shutil
import struct
import subprocess
import sys
import warnings

from vlib import core, edu
from vlib.core import Result, rng_for
from vlib.grammar import Gen

LEVEL = "exploration"
RULE = ("random trees of files (that import one another, fail to parse, carry settings) and random sequences of checks, edits, reversions and failing checks in one process; each report is compared with that of a "
        "fresh process and of a fresh process with another hash seed; non-trivial = a check preceded by at least one other; distinct = tree, options and preceding steps")
ASSUMPTIONS = ["a difference that pylint or flake8 alone, without edulint, shows between fresh processes is theirs and only counted", "R0801 and R0401, which pylint itself reports differently in each process, are left out"]
MINIMUM = {"evaluations": 300, "after_history": 240, "problems": 6000, "own_findings": 700, "after_edit": 100, "after_revert": 50, "after_failure": 80, "failed_steps": 25, "hash_seeds": 4, "changed_reports": 10,
           "stream_checks": 300}
FOREIGN = ("R0801", "R0401")  # pylint reports these across files, choosing among equal reports by the addresses of objects

NAMES = ["a.py", "b.py", "helper.py", "pkg/__init__.py", "pkg/c.py", "sub/a.py", "sub/d.py"]


# ------------------------------------------------------------------ scenarios

def text_for(r, name, names):
    k = r.random()
    if k < 0.06:
        return r.choice(["def f(:\n    pass\n", "x = (\n", "if True:\npass\n", "\tx\n  y\n", "'abc\n", "x = 1\n  y = 2\n"])
    g = Gen(r, r.choice([None, ["x", "y", "z"]]))
    text = g.program(r.choice([1, 2, 4, 8]), r.choice([1, 2, 2, 3]))
    head = []
    if r.random() < 0.6:
        for _ in range(r.randint(1, 2)):
            m = r.choice(names)
            m = (m[:-3] if not m.endswith("__init__.py") else "pkg").replace("/", ".")
            head.append(r.choice([f"import {m}", f"from {m} import x", f"from {m} import helper_{r.randint(0, 3)} as h", f"import {m} as m\nm.helper_{r.randint(0, 3)}(1, 2)",
                                  f"from {m} import *", f"from {m} import Base{r.randint(0, 2)}\n\n\nclass D(Base{r.randint(0, 2)}):\n    def run(self, a):\n        return self.value"]))
    if r.random() < 0.15:
        head.insert(0, r.choice(["# edulint: config=cs1", "# edulint: pylint=--disable=R6201", "# edulint: flake8=--max-line-length=50", "# edulint: pylint=--enable=all",
                                 "# edulint: allowed-onechar-names=xy", "# edulint: ignore-infile-config-for=all", "# edulint: nonsense=1", "# pylint: disable=all"]))
    tail = []
    for i in r.sample(range(4), r.randint(0, 3)):
        tail.append(f"def helper_{i}({', '.join('abcd'[:r.randint(0, 4)])}):\n    return {r.choice(['1', 'None', '[]', 'undefined_name'])}")
    for i in r.sample(range(3), r.randint(0, 2)):
        tail.append(f"class Base{i}:\n    def run(self{r.choice(['', ', a', ', a, b'])}):\n        self.{r.choice(['value', 'other'])} = 1")
    for _ in range(r.randint(0, 2)):
        tail.append(r.choice([
            "def scope_{n}(p, q):\n    total = 0\n    for i in range(10):\n        total = total + i\n        for j in range(len(p)):\n            print(p[j])\n    return total",
            "def cond_{n}(p, q):\n    if p < 1 and p < 2:\n        return True\n    elif p > 3:\n        return False\n    else:\n        return False",
            "def dup_{n}(p, q):\n    if p:\n        print(1)\n        q.append(2)\n        print(3)\n    else:\n        print(1)\n        q.append(2)\n        print(4)",
            "def while_{n}(p, q):\n    k = 0\n    while k < q:\n        print(p[k])\n        k += 1\n    while True:\n        if p:\n            break\n        q += 1",
            "l = 1\nGLOB = 0\n\n\ndef glob_{n}(p):\n    global GLOB\n    GLOB += p",
        ]).replace("{n}", str(r.randint(0, 9))))
    r.shuffle(tail)
    return "\n".join(head) + ("\n" if head else "") + text + "\n\n\n" + "\n\n\n".join(tail) + "\n"


OPTS = [["own"], ["own"], ["own"], [], ["config=cs1"], ["all"], ["own", "flake8=--extend-select=E,W,F,C"], ["own", "ignore-infile-config-for=all"], ["allowed-onechar-names=", "own"],
        ["own", "pylint=--disable=R6201,R6609"], ["pylint=--enable=W,R,C"], ["disallowed-builtins=print", "own"], ["flake8=--select=E", "pylint=--disable=all"]]
BAD = [["pylint=--nonsense"], ["flake8=--nonsense"], ["pylint=--max-args=abc"], ["flake8=--max-line-length=abc"], ["config=./no_such_file.toml"], ["nonsense"], ["pylint=--load-plugins=no_such_plugin", "own"],
       ["pylint=--rcfile=no_such_file"], ["flake8=--config=no_such_file"], ["pylint=--version"], ["flake8=--help"]]


def scenario(r):
    names = r.sample(NAMES, r.randint(2, 5))
    files = {n: text_for(r, n, names) for n in names}
    steps = []
    cur = dict(files)
    edited = []
    for _ in range(r.randint(3, 7)):
        k = r.random()
        if k < 0.3 and steps:
            n = r.choice(names)
            edited.append((n, cur[n]))
            new = cur[n]
            if r.random() < 0.5:
                new = text_for(r, n, names)
            else:  # a small change, possibly of equal size
                new = r.choice([lambda t: t.replace("x", "y"), lambda t: t + "\n\nx = 1\n", lambda t: t.replace("helper_1", "helper_2"), lambda t: t.replace("value", "other"),
                                lambda t: "\n".join(t.split("\n")[1:]), lambda t: t.replace("<", ">"), lambda t: t.replace("(", "((", 1)])(new)
            cur[n] = new
            steps.append({"do": "write", "name": n, "text": new, "keep_time": r.random() < 0.5})
        elif k < 0.42 and edited:
            n, old = edited.pop(r.randrange(len(edited)))
            cur[n] = old
            steps.append({"do": "write", "name": n, "text": old, "revert": True, "keep_time": r.random() < 0.5})
        elif k < 0.47 and len(names) > 1 and steps:
            n = r.choice(names)
            if n in cur:
                edited.append((n, cur[n]))
                steps.append({"do": "remove", "name": n})
                steps.append({"do": "check", "args": ["."], "opts": r.choice(OPTS)})
                steps.append({"do": "write", "name": n, "text": cur[n], "revert": True, "keep_time": False})
        if r.random() < 0.2:
            steps.append({"do": "check", "args": [r.choice(names)], "opts": r.choice(BAD)} if r.random() < 0.6 else {"do": "check", "args": ["no_such_file.py", r.choice(names)], "opts": ["own"]})
        prev = [st for st in steps if st["do"] == "check" and st["opts"] not in BAD]
        if steps and steps[-1]["do"] == "write" and prev and r.random() < 0.7:
            steps.append(dict(r.choice(prev)))  # the same check once more
            continue
        args = r.choice([[r.choice(names)], [r.choice(names)], r.sample(names, r.randint(1, len(names))), ["."], ["ABS"], ["ABS/" + r.choice(names)], ["../" + "T/" + r.choice(names)]])
        steps.append({"do": "check", "args": args, "opts": r.choice(OPTS), **({"cwd": r.choice(["..", "sub0"])} if r.random() < 0.1 else {})})
        if r.random() < 0.15:
            steps.append(dict(steps[-1]))
    return {"files": files, "steps": steps}


# -------------------------------------------------------------------- running

def preload():
    import edulint  # noqa
    import pylint.lint  # noqa
    import pylint.reporters.json_reporter  # noqa
    import flake8.main.application  # noqa
    import edulint.linting.linting  # noqa
    core.quiet()


def do_check(root, step, own):
    """-> (report, monitors)"""
    cwd = os.getcwd()
    os.chdir(os.path.join(root, "T", step["cwd"]) if "cwd" in step else os.path.join(root, "T"))
    base = os.path.join(root, "T")
    args = []
    for a in step["args"]:
        if a.startswith("ABS"):
            a = base + a[3:]
        elif "cwd" in step:
            a = os.path.relpath(os.path.join(base, a))
        args.append(a)
    opts = []
    for o in step["opts"]:
        opts.append("pylint=--enable=" + ",".join(own) if o == "own" else "pylint=--enable=all" if o == "all" else o)
    before = (os.getcwd(), sys.stdout, sys.stderr, sys.stdin, dict(os.environ), snapshot(base))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r, log = edu.check(args, opts)
        rep = None
        if r is not None:
            rep = {"groups": [list(map(str, g[0])) for g in r[0]], "configs": [str(g[1]) + str(sorted(g[1].enablers.items())) + repr(g[2]) for g in r[0]],
                   "problems": [json.loads(json.dumps(p.to_dict() if hasattr(p, "to_dict") else vars(p), default=str, sort_keys=True)) for p in r[1] if p.code not in FOREIGN]}
        out = ["ok", rep, sorted(m for lv, m in log if lv in ("ERROR", "CRITICAL") and "SyntaxWarning" not in m and not m.startswith("<"))]
    except (Exception, SystemExit) as e:
        out = ["raised", type(e).__name__, str(e)[:200]]
    after = (os.getcwd(), sys.stdout, sys.stderr, sys.stdin, dict(os.environ), snapshot(base))
    mon = []
    for name, b, a in zip(("working directory", "stdout", "stderr", "stdin", "environment", "tree"), before, after):
        if (b != a if name in ("working directory", "environment", "tree") else b is not a):
            mon.append((name, str(b)[:400], str(a)[:400]))
    for s in (sys.stdout, sys.stderr):
        if getattr(s, "closed", False):
            mon.append(("streams closed", "", ""))
    os.chdir(cwd)
    return json.loads(json.dumps(out).replace(root, "ROOT")), mon


def snapshot(base):
    res = []
    for d, ds, fs in os.walk(base):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(d, f)
            st = os.stat(p)
            with open(p, "rb") as h:
                res.append((os.path.relpath(p, base), st.st_mtime_ns, st.st_mode, hashlib.sha1(h.read()).hexdigest()))
        res.append((os.path.relpath(d, base),))
    return res


def send(f, x):
    b = pickle.dumps(x)
    f.write(struct.pack("<I", len(b)) + b)
    f.flush()


def recv(f):
    h = f.read(4)
    if len(h) < 4:
        return None
    return pickle.loads(f.read(struct.unpack("<I", h)[0]))


def forked(fn):
    """runs fn in a forked child, returns its value"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            with os.fdopen(wr, "wb") as f:
                send(f, fn())
        except BaseException:
            import traceback
            traceback.print_exc(file=sys.__stderr__)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd, "rb") as f:
        v = recv(f)
    os.waitpid(pid, 0)
    return v


def server():
    """reads (root, step, own) requests, answers each from a forked child that has no history"""
    inp, outp = sys.stdin.buffer, os.fdopen(os.dup(1), "wb")
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    preload()
    send(outp, "ready")
    while True:
        q = recv(inp)
        if q is None:
            return
        send(outp, forked(lambda: do_check(*q)))


class Server:
    def __init__(self, seed):
        env = dict(os.environ, PYTHONHASHSEED=str(seed))
        env["PYTHONPATH"] = os.pathsep.join(p for p in (core.VERIF, os.environ.get("R", core.REPO), env.get("PYTHONPATH", "")) if p)
        self.p = subprocess.Popen([sys.executable, os.path.abspath(__file__)], env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        assert recv(self.p.stdout) == "ready"

    def ask(self, *q):
        send(self.p.stdin, q)
        return recv(self.p.stdout)

    def close(self):
        self.p.stdin.close()
        self.p.wait()


class History:
    """one forked process that runs all the steps it is given"""

    def __init__(self):
        a, b = os.pipe()
        c, d = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(b)
            os.close(c)
            try:
                inp, outp = os.fdopen(a, "rb"), os.fdopen(d, "wb")
                while True:
                    q = recv(inp)
                    if q is None:
                        break
                    send(outp, do_check(*q))
            finally:
                os._exit(0)
        os.close(a)
        os.close(d)
        self.w, self.r = os.fdopen(b, "wb"), os.fdopen(c, "rb")

    def ask(self, *q):
        send(self.w, q)
        return recv(self.r)

    def close(self):
        self.w.close()
        self.r.close()
        os.waitpid(self.pid, 0)


def difference(a, b):
    if a[0] != b[0]:
        return "outcome", f"{str(a)[:300]} / {str(b)[:300]}"
    if a[0] == "raised":
        return ("exception", f"{a} / {b}") if a[1] != b[1] else None
    if (a[1] is None) != (b[1] is None):
        return "no report", f"{str(a)[:300]} / {str(b)[:300]}"
    if a[1] is None:
        return None
    for k in ("groups", "configs"):
        if a[1][k] != b[1][k]:
            return k, f"{a[1][k]} / {b[1][k]}"
    pa, pb = a[1]["problems"], b[1]["problems"]
    if pa != pb:
        ka, kb = [json.dumps(p, sort_keys=True) for p in pa], [json.dumps(p, sort_keys=True) for p in pb]
        oa, ob = [p for p in ka if p not in kb], [p for p in kb if p not in ka]
        if not oa and not ob:
            return "order", f"{next((x, y) for x, y in zip(ka + [None], kb + [None]) if x != y)}"
        codes = sorted({json.loads(p)["code"] for p in oa + ob})
        own = [c for c in codes if c.startswith(("R6", "E99", "EDL"))]
        return "problems:" + (own[0] if own else "foreign " + codes[0]), f"only first: {oa[:3]}, only second: {ob[:3]}"
    return None


RAW = """
import sys, io, json
from pylint.lint import Run
from pylint.reporters.json_reporter import JSON2Reporter
o = io.StringIO()
Run(sys.argv[1:], reporter=JSON2Reporter(o), exit=False)
print(json.dumps(sorted((m["messageId"], m["path"], m["line"], m["column"], m["message"]) for m in json.loads(o.getvalue())["messages"])))
"""


def foreign_difference(root, step):
    """does pylint alone differ between fresh processes (hash seeds)"""
    args = [a.replace("ABS", os.path.join(root, "T")) for a in step["args"]]
    outs = set()
    for seed in range(6):
        o = subprocess.run([sys.executable, "-c", RAW, "--recursive=y", "--enable=all", "--persistent=n", *args], cwd=os.path.join(root, "T"), env=dict(os.environ, PYTHONHASHSEED=str(seed)),
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout
        outs.add(o)
    return len(outs) > 1


def evaluate(s, res, own, server, root):
    base = os.path.join(root, "T")
    if os.path.isdir(base):
        shutil.rmtree(base)
    os.makedirs(os.path.join(base, "sub0"))
    for n, t in s["files"].items():
        edu.write(os.path.join(base, n), t)
    h = History()
    last = {}
    flags = set()
    done = 0
    try:
        for i, st in enumerate(s["steps"]):
            if st["do"] == "write":
                p = os.path.join(base, st["name"])
                old = os.stat(p) if os.path.exists(p) else None
                edu.write(p, st["text"])
                if st["keep_time"] and old:
                    os.utime(p, ns=(old.st_atime_ns, old.st_mtime_ns))
                flags.add("after_revert" if st.get("revert") else "after_edit")
                continue
            if st["do"] == "remove":
                if os.path.exists(os.path.join(base, st["name"])):
                    os.unlink(os.path.join(base, st["name"]))
                continue
            q = (root, st, own)
            ra, mon = h.ask(*q)
            rb, mon2 = forked(lambda: do_check(*q))
            rc, mon3 = server.ask(*q)
            res.case([s["files"], s["steps"][:i + 1]], nontrivial=done > 0)
            res.count("stream_checks")
            if done:
                res.count("after_history")
                for f in flags:
                    res.count(f)
            if ra[0] == "raised" or ra[1] is None or ra[2]:
                res.count("failed_steps")
                flags.add("after_failure")
            if ra[0] == "ok" and ra[1] is not None:
                res.count("problems", len(ra[1]["problems"]))
                res.count("own_findings", sum(p["code"].startswith(("R6", "E99")) for p in ra[1]["problems"]))
            k = json.dumps(st, sort_keys=True)
            if k in last and last[k] != ra:
                res.count("changed_reports")
            last[k] = ra
            replay = {"scenario": dict(s, steps=s["steps"][:i + 1])}
            for m in mon + mon2:
                res.violation(f"left:{m[0]}", f"a check changed the {m[0]}: {m[1]} -> {m[2]} (step {st})", **replay)
            d = difference(ra, rb)
            if d:
                if d[0].startswith("problems:foreign") and foreign_difference(root, st):
                    res.count("foreign_differences")
                else:
                    res.violation(f"history:{d[0]}", f"after {done} checks in the process the report differs from a fresh one's: {d[1][:900]} (step {st})", **replay)
            d = difference(rb, rc)
            if d:
                if d[0].startswith("problems:foreign") and foreign_difference(root, st):
                    res.count("foreign_differences")
                else:
                    res.violation(f"hash:{d[0]}", f"fresh processes differ (hash seeds): {d[1][:900]} (step {st})", **replay)
            done += 1
    finally:
        h.close()


def task(arg):
    seed, lo, hi = arg
    res = Result()
    preload()
    root = os.path.join(os.getcwd(), f"c08-{lo}")
    os.makedirs(root, exist_ok=True)
    own = forked(edu.own_messages)
    server = Server(rng_for("C08", seed, lo).randrange(1, 2 ** 31))
    res.count("hash_seeds")
    try:
        for i in range(lo, hi):
            s = scenario(rng_for("C08", seed, i))
            evaluate(s, res, own, server, root)
            if i % 25 == 0:
                res.sample({"files": sorted(s["files"]), "steps": [{k: v for k, v in st.items() if k != "text"} for st in s["steps"]]})
    finally:
        server.close()
        shutil.rmtree(root, ignore_errors=True)
    return res


def replay_task(s):
    res = Result()
    preload()
    root = os.path.join(os.getcwd(), "c08-replay")
    os.makedirs(root, exist_ok=True)
    own = forked(edu.own_messages)
    for seed in (1, 2, 3, 4):
        server = Server(seed)
        try:
            evaluate(s, res, own, server, root)
        finally:
            server.close()
    return res


def run(ctx):
    if ctx.replay:
        return core.pmerge(replay_task, [ctx.replay["scenario"]], workers=1)
    n, k = ctx.n(64, 1600), ctx.n(4, 40)
    return core.pmerge(task, [(ctx.seed, i, min(n, i + k)) for i in range(0, n, k)])


if __name__ == "__main__":
    server()
