"""C19: update checks and explanation updates never disturb the user."""
import faulthandler
import importlib
import io
import json
import os
import re
import resource
import select
import shutil
import signal
import sys
import threading
import time
import traceback

from vlib import core, edu
from vlib.core import Result, rng_for

LEVEL = "exploration"
RULE = ("random histories of real command-line runs (check, explain, version; text and JSON; updates enabled or disabled), clock advances, PyPI and GitHub answers "
        "(complete, malformed, failing), damaged or unwritable local files, disk errors and process deaths while storing; distinct = the history")
ASSUMPTIONS = ["network access goes through requests (its transport adapter is replaced by a scripted one)", "the clock is read through time.time and never goes back",
               "runs follow one another; simultaneous runs are not used for the once-per-period clause", "no pre-release versions on PyPI"]
MINIMUM = {"evaluations": 100, "runs": 700, "pypi_requests": 80, "github_requests": 80, "notices": 60, "no_notice_runs": 60, "updated_shown": 80, "packaged_shown": 40,
           "disabled_runs": 60, "withheld_requests": 80, "damages": 60, "failed_answers": 60, "storage_faults": 20}
TTL = 600
T0 = 1_700_000_000.0
CLOCK = [T0]
_real_time = time.time
SCRIPT = {"pypi": ("fail", "ConnectionError"), "github": ("fail", "ConnectionError")}
LOG = []
NOTICE = re.compile(r"Update for EduLint \((.*?)\) is available")


def install():
    """clock and network replaced in this process (and those forked from it)"""
    import requests
    from requests.adapters import HTTPAdapter

    time.time = lambda: CLOCK[0]

    def send(self, request, **kw):
        kind = "pypi" if "pypi.org" in request.url else "github" if "github" in request.url else "other"
        fd = os.open(LOG[0], os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        os.write(fd, (kind + "\n").encode())
        os.close(fd)
        ans = SCRIPT.get(kind, ("fail", "ConnectionError"))
        if ans[0] == "fail":
            raise getattr(requests.exceptions, ans[1])("injected")
        r = requests.Response()
        r.status_code = ans[1]
        r._content = ans[2].encode("utf-8") if isinstance(ans[2], str) else ans[2]
        r.headers["Content-Type"] = ans[3]
        r.encoding = requests.utils.get_encoding_from_headers(r.headers)
        r.url, r.request = request.url, request
        r.raw = io.BytesIO(r._content)
        return r

    HTTPAdapter.send = send


def cli(argv, fault=None):
    """a real command-line run in a forked process -> code (or None when it died), stdout, stderr"""
    pipes = [os.pipe(), os.pipe()]  # not files: limits of file sizes must not hit the output
    pid = os.fork()
    if pid == 0:
        try:
            for (rd, wr), fd in zip(pipes, (1, 2)):
                os.dup2(wr, fd)
                os.close(rd)
                os.close(wr)
            faulthandler.dump_traceback_later(40, exit=True, file=sys.__stderr__)
            signal.alarm(120)
            sys.stdout = io.TextIOWrapper(os.fdopen(os.dup(1), "wb"), encoding="utf-8", write_through=True)
            sys.stderr = io.TextIOWrapper(os.fdopen(os.dup(2), "wb"), encoding="utf-8", write_through=True)
            armed = [False]
            if fault and fault[0] == "kill_event":
                events = [0]
                data = os.environ["XDG_DATA_HOME"]

                def hook(event, args):
                    if armed[0] and event in ("open", "os.rename", "os.remove", "dbm.open") and any(
                            isinstance(a, (str, os.PathLike)) and str(a).startswith(data) for a in args):
                        if events[0] == fault[1]:
                            os._exit(9)
                        events[0] += 1

                sys.addaudithook(hook)
            elif fault:
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL if fault[0] == "kill_size" else signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_FSIZE, (fault[1], fault[1]))
            import edulint.explanations

            importlib.reload(edulint.explanations)  # what a new process does
            import edulint.edulint as e

            sys.argv = ["edulint", *argv]
            armed[0] = True
            try:
                code = e.main()
            except SystemExit as x:
                code = x.code
            for t in threading.enumerate():
                if t is not threading.current_thread():
                    t.join(60)
            armed[0] = False
            sys.stdout.flush()
            os._exit(code if isinstance(code, int) else 0 if code is None else 1)
        except BaseException:
            try:
                traceback.print_exc()
            finally:
                os._exit(70)
    got = [b"", b""]
    fds = {}
    for i, (rd, wr) in enumerate(pipes):
        os.close(wr)
        fds[rd] = i
    while fds:
        for fd in select.select(list(fds), [], [])[0]:
            b = os.read(fd, 1 << 16)
            if b:
                got[fds[fd]] += b
            else:
                os.close(fd)
                del fds[fd]
    _p, status = os.waitpid(pid, 0)
    out, err = (g.decode("utf-8", "replace") for g in got)
    if os.WIFSIGNALED(status) or os.WEXITSTATUS(status) == 9:
        return None, out, err
    return os.WEXITSTATUS(status), out, err


# ---------------------------------------------------------------- generated data


def toml_str(s):
    return '"' + "".join(c if c not in '"\\' and c >= " " and c != "\x7f" else f"\\u{ord(c):04x}" for c in s) + '"'


def explanations(r, n):
    d = {}
    for code in r.sample(["R6201", "R6609", "C0104", "E501", "F401", "X0001", "new-check", "W0622"], r.randint(2, 6)):
        e = {}
        if r.random() < 0.9:
            e["why"] = f"Because {code} řeka v{n} " + r.choice(["", "line\nline2", "  spaced  ", "\"quoted\" \\ backslash"])
        if r.random() < 0.8:
            e["examples"] = f"```py\nx = {n}\n```" + r.choice(["", "\n\n", "\ttab"])
        d[code] = e
    return d


def to_toml(d):
    return "".join(f"[{json.dumps(k)}]\n" + "".join(f"{a} = {toml_str(b)}\n" for a, b in v.items()) for k, v in d.items())


def pypi(r, local):
    """-> (answer, latest or None)"""
    k = r.random()
    plain = "application/json"
    if k < 0.55:
        pool = ["4.2.0", "4.2.10", "4.2.9", "4.10.0", "4.9.5", "5.0.0", "10.0.0", "4.3.0", local, local, "3.99.0"]
        vs = list(dict.fromkeys(r.choice(pool) for _ in range(r.randint(1, 6))))
        rel, ok = {}, []
        for v in vs:
            x = r.random()
            if x < 0.65:
                rel[v] = [{"yanked": False, "filename": "f"} for _ in range(r.randint(1, 3))]
                ok.append(v)
            elif x < 0.8:
                rel[v] = []
            else:
                rel[v] = [{"yanked": True} for _ in range(r.randint(1, 2))]
        if r.random() < 0.3:
            rel["not-a-version"] = [{"yanked": False}]
        items = list(rel.items())
        r.shuffle(items)
        latest = max(ok, key=lambda v: tuple(map(int, v.split(".")))) if ok else None
        return ("ok", 200, json.dumps({"info": {}, "releases": dict(items)}), plain), latest
    if k < 0.8:
        bad = r.choice(["", "<html>", "[]", "null", "{}", '{"releases": null}', '{"releases": []}', '{"releases": {"4.9.9": null}}', '{"releases": {"99.0": [{"yan', '"x"',
                        '{"releases": {"9.9.9": [3]}}', '{"message": "Not Found"}'])
        return ("ok", r.choice([200, 200, 404, 500]), bad, plain), None
    return ("fail", r.choice(["ConnectionError", "ReadTimeout", "ConnectTimeout", "SSLError", "ChunkedEncodingError", "ProxyError", "TooManyRedirects"])), None


def github(r, n):
    ct = "text/plain; charset=utf-8"
    k = r.random()
    if k < 0.55:
        e = explanations(r, n)
        return ("ok", 200, to_toml(e), ct), e
    if k < 0.85:
        t = to_toml(explanations(r, n))
        bad = r.choice(["", "<html>oops</html>", t[:max(1, len(t) - 7)] if not t.endswith("]\n") else "[x", "x = 3\n", "[R6201]\nwhy = 3\n", "R6201 = 'x'\n", "[[R6201]]\nwhy='x'\n", "\x00",
                        "[R6201]\nwhy = ['a']\n"])
        if r.random() < 0.4:
            return ("ok", r.choice([404, 500, 503, 301, 204]), t, ct), None
        return ("ok", 200, bad, ct), None
    return ("fail", r.choice(["ConnectionError", "ReadTimeout", "ConnectTimeout", "SSLError", "ChunkedEncodingError", "ContentDecodingError"])), None


CODES = ["R6201", "C0104", "E501", "X0001", "new-check", "W0622", "Z9999", "R6609"]
DAMAGES = [("versions.json", x) for x in ("empty", "cut", "list", "wrong", "binary", "wrong2", "dir", "remove")] + \
          [("explanations_online.toml", x) for x in ("empty", "cut", "binary", "dir", "remove", "shape")] + \
          [("explanations_last", x) for x in ("empty", "binary", "cut", "remove", "dir")]


def scenario(r):
    steps = []
    for _ in range(r.randint(6, 14)):
        k = r.random()
        if k < 0.22:
            steps.append(["advance", r.choice([1, 60, 300, 590, 610, 700, 5000, 10 ** 6])])
        elif k < 0.4:
            steps.append(["answer", r.choice(["pypi", "github", "both"])])
        elif k < 0.5:
            steps.append(["damage", *r.choice(DAMAGES)])
        else:
            cmd = r.choice(["explain", "explain", "explain", "all", "check", "version"])
            fault = None
            if r.random() < 0.15:
                fault = r.choice([["kill_event", r.randint(0, 12)], ["kill_size", r.choice([0, 10, 80, 300])], ["err_size", r.choice([0, 10, 80, 300])]])
            steps.append(["run", cmd, r.sample(CODES, r.randint(1, 3)), r.random() < 0.4, r.random() < 0.2, r.random() < 0.2, fault])
    return {"steps": [["answer", "both"]] + steps, "seed": r.randint(0, 10 ** 9)}


# ---------------------------------------------------------------- the model


class World:
    def __init__(self, res, sc):
        import edulint

        self.res, self.sc, self.log = res, sc, []
        self.data = os.path.join(os.environ["XDG_DATA_HOME"], "edulint")
        shutil.rmtree(os.environ["XDG_DATA_HOME"], ignore_errors=True)
        os.makedirs(self.data)
        self.packaged = PACKAGED
        self.shown = {"-"}  # possible states of the downloaded explanations, keys into self.known
        self.known = {"-": None}
        self.version = {None}  # possible latest versions
        self.last = {"pypi": None, "github": None}  # last attempts
        self.sure = {"pypi": True, "github": True}  # the record of the last attempt was stored
        self.ans = {"pypi": None, "github": None}
        self.n = 0

    def bad(self, key, msg):
        self.res.violation(key, f"{msg}; history {self.log[-7:]}", scenario=self.sc)

    def answer(self, which, r):
        self.n += 1
        if which in ("pypi", "both"):
            SCRIPT["pypi"], self.ans["pypi"] = pypi(r, LOCAL)
        if which in ("github", "both"):
            SCRIPT["github"], e = github(r, self.n)
            self.ans["github"] = None
            if e is not None:
                self.known[str(self.n)] = e
                self.ans["github"] = str(self.n)
        self.log.append(("answer", which, SCRIPT["pypi"][:2], self.ans["pypi"], SCRIPT["github"][:2], self.ans["github"]))

    def damage(self, name, how):
        if name == "explanations_last":  # the record of the last attempt, whatever it is called
            mine = [f for f in os.listdir(self.data) if "explanations" in f and not f.startswith("explanations_online.toml")]
            if not mine:
                return
            name = mine[0]
        self.log.append(("damage", name, how))
        self.res.count("damages")
        p = os.path.join(self.data, name)
        if os.path.lexists(p):
            shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
        if how == "dir":
            os.makedirs(p)
        elif how != "remove":
            t = {"empty": b"", "cut": b'{"edulint": {"vers' if "json" in name else b"[R6201]\nwhy = \"x", "list": b"[1]", "wrong": b'{"edulint": 5}', "binary": b"\xff\xfe\x00\x01" * 9,
                 "wrong2": b'{"edulint": {"version": ["9"], "last_update_started": "x"}}', "shape": b"x = 3\n"}[how]
            open(p, "wb").write(t)
        if name == "versions.json":
            self.version, self.sure["pypi"] = {None}, False
        elif name == "explanations_online.toml":
            self.shown = {"-"}
        else:
            self.sure["github"] = False

    def run(self, cmd, codes, js, novers, noexp, fault):
        res = self.res
        argv = {"explain": ["explain"], "all": ["explain"], "check": ["check"], "version": ["version"]}[cmd]
        argv = argv + (["--json"] if js else []) + (["--disable-version-check"] if novers else []) + (["--disable-explanations-update"] if noexp else [])
        argv += codes if cmd == "explain" else ["ALL"] if cmd == "all" else ["subject.py"] if cmd == "check" else []
        code, out, err = cli(argv, fault)
        res.count("runs")
        reqs = []
        if os.path.exists(LOG[0]):
            reqs = open(LOG[0]).read().split()
            os.unlink(LOG[0])
        now = CLOCK[0]
        self.log.append((f"t={now - T0:.0f}", argv, fault, code, reqs, NOTICE.findall(err)))
        if reqs.count("other"):
            self.bad("other-request", f"{argv}: request elsewhere")
        died = code is None
        if "Timeout (" in err:
            self.bad("hang", f"{argv} did not end within 40 s: {err[-600:]}")
        if fault:
            res.count("storage_faults")
        # ---- requests
        for kind, off in (("pypi", novers), ("github", noexp)):
            n = reqs.count(kind)
            res.count(kind + "_requests", n)
            if off:
                res.count("disabled_runs")
                if n:
                    self.bad("asked-though-disabled", f"{argv} asked {kind}")
                continue
            last = self.last[kind]
            if n > 1:
                self.bad("asked-twice", f"{argv} asked {kind} {n} times")
            if n and last is not None and now < last + TTL - 2 and self.sure[kind]:
                self.bad("asked-too-often", f"{argv} asked {kind} at {now - T0:.0f}, {now - last:.0f} s after the last time")
            if not n and not fault and self.sure[kind] and (last is None or now > last + TTL + 2):
                self.bad("not-asked", f"{argv} did not ask {kind}, last asked {None if last is None else now - last} s ago")
            if not n and last is not None:
                res.count("withheld_requests")
            if n:
                self.last[kind] = now
                if SCRIPT[kind][0] == "fail" or self.ans[kind] is None:
                    res.count("failed_answers")
            if fault:
                self.sure[kind] = False  # whether the attempt was stored is unknown
            elif n:
                # an attempt seen is stored, unless the file was made unusable
                usable = {"pypi": not os.path.isdir(os.path.join(self.data, "versions.json")), "github": not any(
                    os.path.isdir(os.path.join(self.data, f)) for f in os.listdir(self.data) if "explanations" in f and f != "explanations_online.toml")}[kind]
                self.sure[kind] = usable
        asked_v, asked_e = "pypi" in reqs, "github" in reqs
        # ---- notices
        notices = NOTICE.findall(err)
        new_versions = set(self.version)
        if asked_v:
            got = self.ans["pypi"]
            if got is not None:
                new_versions = {got} | (set(self.version) if fault else set())
        if fault:
            new_versions.add(None)  # storing it may have been cut short
        if novers:
            if notices:
                self.bad("notice-though-disabled", f"{argv}: {notices}")
        elif not died:
            if asked_v and self.ans["pypi"] is not None and not fault:
                allowed = [[] if self.ans["pypi"] == LOCAL else [self.ans["pypi"]]]
            else:
                # the version known before may or may not be told again when asking failed
                allowed = [[] if v in (None, LOCAL) else [v] for v in new_versions]
                if asked_v or fault or not self.sure["pypi"]:
                    allowed.append([])
            if notices not in allowed:
                self.bad("notice" if notices else "no-notice", f"{argv}: notices {notices}, allowed {allowed} (installed {LOCAL})")
            res.count("notices" if notices else "no_notice_runs")
        self.version = new_versions
        # ---- explanations
        before = set(self.shown)
        if asked_e and self.ans["github"] is not None:
            e = self.ans["github"]
            blocked = os.path.isdir(os.path.join(self.data, "explanations_online.toml"))
            self.shown = before if blocked else {e} | (before if fault else set())
        if died:
            return
        if "Traceback" in err or code == 70:
            self.bad("traceback", f"{argv}: {err[-800:]}")
            return
        if cmd in ("explain", "all"):
            want = codes if cmd == "explain" else None
            ok = False
            for s in before | self.shown:
                d = self.known[s] if self.known[s] is not None else self.packaged
                sel = {c: d[c] for c in want if c in d} if want else d
                if js:
                    try:
                        got = json.loads(out)
                    except ValueError:
                        got = None
                    ok |= got == {"explanations": sel}
                else:
                    pieces = [t.strip() for c in sel for t in sel[c].values() if t.strip()]
                    heads = [f"## {c}\n" for c in sel] if len(sel) > 1 else []
                    fits = all(p in out for p in pieces) and all(h in out for h in heads)
                    fits &= sum(map(len, pieces)) + 80 * (len(sel) + 1) >= len(out)
                    if want:
                        fits &= all(c in err for c in want if c not in d)
                    ok |= fits
                if ok:
                    res.count("packaged_shown" if s == "-" else "updated_shown")
                    break
            if not ok:
                self.bad("explanations", f"{argv}: shown {out[:300]!r}, possible {[(s, (self.known[s] or self.packaged).get(codes[0])) for s in before | self.shown]}")
            if code != 0:
                self.bad("status", f"{argv} exited with {code}: {err[-300:]}")
        elif cmd == "version":
            if code != 0 or LOCAL not in out:
                self.bad("status", f"{argv} exited with {code}: {out!r} {err[-300:]}")
        else:
            if (code, out) != REFERENCE[js]:
                self.bad("check-changed", f"{argv}: exit {code}, output {out[:200]!r}, without updates {REFERENCE[js]}")
        res.count("outputs_compared")


PACKAGED, LOCAL, REFERENCE = {}, "", {}


def prepare():
    global LOCAL
    import tomli
    from importlib.metadata import version
    import edulint.edulint

    LOCAL = version("edulint")
    p = os.path.join(os.path.dirname(edulint.edulint.__file__), "explanations.toml")
    PACKAGED.update(tomli.load(open(p, "rb")))
    edu.write("subject.py", "def f(x):\n    if x:\n        return True\n    else:\n        return False\n")
    LOG[:] = [os.path.abspath("requests.log")]
    install()
    edu.check("subject.py")
    os.makedirs(os.path.join(os.environ["XDG_DATA_HOME"], "edulint"), exist_ok=True)
    for js in (False, True):
        REFERENCE[js] = cli(["check", "--disable-version-check", "--disable-explanations-update"] + (["--json"] if js else []) + ["subject.py"])[:2]
    assert REFERENCE[False][0] == 1 and "R6201" in REFERENCE[False][1], REFERENCE


def evaluate(sc, res):
    r = rng_for("C19", sc["seed"])
    CLOCK[0] = T0
    w = World(res, sc)
    for st in sc["steps"]:
        if st[0] == "advance":
            CLOCK[0] += st[1]
            lasts = [x for x in w.last.values() if x]
            while any(abs(CLOCK[0] - x - TTL) < 4 for x in lasts):
                CLOCK[0] += 7
        elif st[0] == "answer":
            w.answer(st[1], r)
        elif st[0] == "damage":
            w.damage(st[1], st[2])
        else:
            w.run(*st[1:])
            CLOCK[0] += 1
            while any(abs(CLOCK[0] - x - TTL) < 4 for x in w.last.values() if x):
                CLOCK[0] += 7
    res.case(sc)
    res.sample({"history": [str(x)[:300] for x in w.log[:6]]})


def task(arg):
    seed, lo, hi = arg
    res = Result()
    prepare()
    try:
        for i in range(lo, hi):
            evaluate(scenario(rng_for("C19", seed, i)), res)
    finally:
        time.time = _real_time
    return res


def R(cmd, codes=("R6201",), js=True, novers=False, noexp=False, fault=None):
    return ["run", cmd, list(codes), js, novers, noexp, fault]


def run(ctx):
    res = Result()
    if ctx.replay:
        os.chdir(core.SCRATCH)
        prepare()
        evaluate(ctx.replay["scenario"], res)
        return res
    n = ctx.n(240, 6000)
    step = n // 16 if not ctx.thorough else 100
    res.merge(core.pmerge(task, [(ctx.seed, i, i + step) for i in range(0, n, step)]))
    return res
