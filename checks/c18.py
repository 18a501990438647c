"""C18: a remote configuration is current, else cached, never partial."""
import json
import os
import random
import resource
import shutil
import signal
import sys
import time
import traceback

from vlib import core, edu
from vlib.core import Result, rng_for
from vlib.loopback import Server

LEVEL = "exploration"
RULE = ("random histories of runs, clock advances, server answers (complete in several transfer forms, failing, truncated, reset, garbage), disk errors, damaged cache "
        "files and process deaths at each file operation or byte written, against a loopback server that logs every request; plus systematic enumeration of "
        "all crash points of a fetch and concurrent writers and readers; distinct = the history")
ASSUMPTIONS = ["the clock is read through time.time and never goes back", "a process death loses no data already handed to the operating system",
               "ages between 8 and 500 days are not used, as the offline limit is not specified more exactly"]
MINIMUM = {"evaluations": 100, "runs": 800, "fresh_cache_uses": 80, "fetches": 250, "offline_cache_uses": 60, "errors_reported": 60, "crashes": 100,
           "disk_errors": 60, "concurrent_reads": 300, "damaged_files": 20, "server_failures": 100}

CLOCK = [1_700_000_000.0]
_real_time = time.time
FRESH, OFFLINE_SURE, OFFLINE_NOT = 300, 8 * 86400, 500 * 86400


def fake_clock():
    time.time = lambda: CLOCK[0]


def body(path, version, pad=0):
    """content identifying URL and version at both ends"""
    ident = f"{path.strip('/').replace('/', '_').replace('?', '_').replace('=', '_')}_{version}"
    return (f'allowed-onechar-names = "{ident}ž"\n# {"x" * pad}\ndisallowed-builtin-names = "{ident}"\n').encode("utf-8"), ident


def outcome(url):
    """one run: what configuration does it use"""
    from edulint.config.config import get_config_one
    from edulint.options import Option

    with edu.captured_log("WARNING") as log:
        r = get_config_one(os.path.abspath("subject.py"), ["config-file=" + url])
    errors = [m for lv, m in log if lv in ("ERROR", "CRITICAL")]
    if r is None:
        return ["none", None, errors]
    c = r[0]
    return ["ok", [c[Option.ALLOWED_ONECHAR_NAMES], list(c[Option.DISALLOWED_BUILTIN_NAMES])], errors]


def in_child(url, fault):
    """runs outcome(url) in a forked process that dies or gets disk errors as told -> ("died",) or outcome, events seen"""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 7
        try:
            os.close(rfd)
            if fault[0] in ("kill_size", "err_size"):
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL if fault[0] == "kill_size" else signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_FSIZE, (fault[1], fault[1]))
            events = [0]
            data = os.environ["XDG_DATA_HOME"]
            armed = [True]

            def hook(event, args):
                if not armed[0] or event not in ("open", "os.rename", "os.remove", "os.mkdir", "os.truncate", "os.link", "os.symlink", "os.rmdir", "shutil.move"):
                    return
                if not any(isinstance(a, (str, os.PathLike)) and str(a).startswith(data) for a in args):
                    return
                if fault[0] == "kill_event" and events[0] == fault[1]:
                    os._exit(9)
                events[0] += 1

            sys.addaudithook(hook)
            try:
                out = outcome(url)
            except Exception:
                out = ["exception", traceback.format_exc(), []]
            armed[0] = False
            os.write(wfd, json.dumps([out, events[0]]).encode()[:60000])
            code = 0
        finally:
            os._exit(code)
    os.close(wfd)
    buf = b""
    while True:
        b = os.read(rfd, 65536)
        if not b:
            break
        buf += b
    os.close(rfd)
    _p, status = os.waitpid(pid, 0)
    if not buf:
        return ["died", status, []], None
    out, ev = json.loads(buf)
    return out, ev


class World:
    """the store, the server, and the set of states the cache of each URL may be in"""

    def __init__(self, res, server, sc):
        self.res, self.server, self.sc = res, server, sc
        self.possible = {}  # url -> set of (ident or None, timestamp)
        self.log = []
        shutil.rmtree(os.environ["XDG_DATA_HOME"], ignore_errors=True)
        os.makedirs(os.environ["XDG_DATA_HOME"])
        edu.write("subject.py", "x = 1\n")
        server.script.clear()
        server.take_log()

    def bad(self, key, msg):
        self.res.violation(key, f"{msg}; history {self.log[-8:]}", scenario=self.sc)

    def run(self, path, answer, fault):
        """answer: (ident or None when failing)"""
        res, url, now = self.res, self.server.url(path), CLOCK[0]
        states = self.possible.setdefault(url, {(None, 0)})
        res.count("runs")
        if fault is None:
            try:
                out, events = outcome(url), None
            except Exception as e:
                if not core.raised_in_repo(e):
                    raise
                out, events = ["exception", traceback.format_exc(), []], None
        else:
            out, events = in_child(url, fault)
        reqs = [p for p, _k in self.server.take_log() if p == path]
        self.log.append((path, answer, fault, out[:2], f"t={now - 1_700_000_000:.0f}", len(reqs)))
        if out[0] == "exception":
            self.bad("exception", f"the run failed with {out[1][-600:]}")
            self.possible[url] = states | {(answer, now)} if answer else states
            return out, events
        if answer is None and reqs:
            res.count("server_failures")

        fresh = {s for s in states if s[0] and s[1] + FRESH > now}
        stale = states - fresh
        nxt, allowed = set(), []
        for s in states:
            if s in fresh:
                allowed.append((s[0], 0))
            elif answer is not None:
                allowed.append((answer, 1))
            elif s[0] and s[1] + OFFLINE_SURE > now:
                allowed.append((s[0], 1))
            elif s[0] and s[1] + OFFLINE_NOT > now:
                raise AssertionError("age not used")
            else:
                allowed.append((None, 1))
        if out[0] == "died":
            res.count("crashes")
            if fault[0] == "kill_event" or fault[0] == "kill_size":
                nxt = set(states)
                if reqs and answer:
                    nxt |= {(answer, now)} | {(answer, s[1]) for s in states if s[1]}
                self.possible[url] = nxt
            return out, events
        ident = None
        if out[0] == "ok":
            a, b = out[1]
            if not (a and b and a == b[0] + "ž" and len(b) == 1):
                self.bad("partial", f"configuration used is neither complete nor one served: {out[1]}")
                return out, events
            ident = b[0]
        got = (ident, 1 if reqs else 0)
        if got not in allowed:
            kind = ("wrong-url" if ident and not ident.startswith(path.strip("/").split("?")[0]) else
                    "refetched" if got[1] and not any(a[1] for a in allowed) else
                    "not-fetched" if not got[1] and all(a[1] for a in allowed) else
                    "stale" if ident and answer and ident != answer else
                    "lost" if ident is None else "unexpected")
            self.bad(kind, f"{path} at {now - 1_700_000_000:.0f}: used {ident} with {len(reqs)} request(s), allowed {sorted(set(allowed), key=str)}; log {out[2][:2]}")
            return out, events
        if ident is None:
            res.count("errors_reported")
            if not out[2]:
                self.bad("silent", f"{path}: no configuration and no error reported")
        elif not got[1]:
            res.count("fresh_cache_uses")
        elif answer is None:
            res.count("offline_cache_uses")
        else:
            res.count("fetches")
        # which states explain the observation, and what they become
        for s in states:
            was_fresh = s in fresh
            if was_fresh:
                if got == (s[0], 0):
                    nxt.add(s)
            elif answer is not None:
                if got == (answer, 1):
                    nxt.add((answer, now))
                    if fault is not None and fault[0] == "err_size":
                        res.count("disk_errors")
                        nxt.add(s)
                        if s[1]:
                            nxt.add((answer, s[1]))
            else:
                if got[1]:
                    nxt.add(s)
        self.possible[url] = nxt or states
        return out, events

    def damage(self, path, how):
        import hashlib

        url = self.server.url(path)
        data = os.path.join(os.environ["XDG_DATA_HOME"], "edulint")
        files = [os.path.join(d, f) for d, _s, fs in os.walk(data) for f in fs]
        # whichever files mention the URL or its content belong to it
        mine = []
        for f in files:
            t = open(f, "rb").read()
            if url.encode() + b'"' in t or any(s[0] and b'"' + s[0].encode() + b'"' in t for s in self.possible.get(url, ())):
                mine.append(f)
        if not mine:
            return
        self.res.count("damaged_files")
        meta = [f for f in mine if url.encode() + b'"' in open(f, "rb").read()]
        self.log.append((path, "damage", how))
        if how == "remove-all":
            for f in mine:
                os.unlink(f)
        elif how == "remove-content":
            for f in mine:
                if f not in meta:
                    os.unlink(f)
        elif how == "remove-meta":
            for f in meta:
                os.unlink(f)
        else:
            for f in meta:
                with open(f, "wb") as g:
                    g.write({"empty-meta": b"", "json-list": b"[]", "json-cut": b'{"timest', "binary": b"\xff\xfe\x00", "no-keys": b"{}",
                             "wrong-type": b'{"timestamp": "x", "source": 3}'}[how])
        # metadata left alone may meet new content when a later store is cut short
        self.possible[url] = {(None, s[1]) for s in self.possible[url]} if how == "remove-content" else {(None, 0)}


DAMAGE = ["remove-all", "remove-content", "remove-meta", "empty-meta", "json-list", "json-cut", "binary", "no-keys", "wrong-type"]
PATHS = ["/a.toml", "/b.toml", "/a.toml?x=1", "/A.toml", "/dir/a.toml"]


def set_answer(server, path, kind, ident_version, r):
    """-> ident served completely, or None"""
    text, ident = body(path, ident_version, r.choice([0, 0, 500, 20000]))
    if kind == "ok":
        server.script[path] = ("ok", text, r.choice(["text/plain; charset=utf-8", "text/plain", None, "application/octet-stream", "application/toml"]))
    elif kind in ("gzip", "chunked"):
        server.script[path] = (kind, text)
    elif kind == "redirect":
        server.script[path] = ("redirect", server.url(path + "&r" if "?" in path else path + "?r"))
        server.script[path + "&r" if "?" in path else path + "?r"] = ("ok", text, "text/plain; charset=utf-8")
    elif kind == "status":
        server.script[path] = ("status", r.choice([404, 500, 503, 403, 410, 429, 204, 300, 401]), r.choice([text, b"", b"<html>"]))
        return None
    elif kind.startswith("truncate"):
        server.script[path] = (kind, text, r.randint(1, len(text) - 1))
        return None
    else:
        server.script[path] = (kind, text)
        return None
    return ident


GOOD = ["ok", "ok", "ok", "gzip", "chunked", "redirect"]
FAIL = ["status", "status", "truncate", "truncate_chunked", "truncate_gzip", "bad_gzip", "garbage", "reset", "close", "redirect_loop"]


def scenario(r):
    steps = []
    paths = r.sample(PATHS, r.choice([1, 1, 2, 3]))
    for _ in range(r.randint(6, 14)):
        k = r.random()
        p = r.choice(paths)
        if k < 0.2:
            steps.append(["advance", r.choice([1, 10, 100, 290, 298, 302, 310, 1000, 3600, 86400, 2 * 86400, 6 * 86400, 502 * 86400])])
        elif k < 0.27:
            steps.append(["damage", p, r.choice(DAMAGE)])
        else:
            ans = r.choice(GOOD) if r.random() < 0.6 else r.choice(FAIL)
            f = r.random()
            fault = None if f < 0.7 else ["kill_event", r.randint(0, 9)] if f < 0.8 else ["kill_size", r.choice([0, 1, 30, 60, 80, 100, 5000])] if f < 0.9 else \
                ["err_size", r.choice([0, 1, 30, 60, 80, 100, 5000])]
            steps.append(["run", p, ans, fault])
    return {"steps": steps, "seed": r.randint(0, 10 ** 9)}


def evaluate(sc, res, server):
    r = random.Random(sc["seed"])
    CLOCK[0] = 1_700_000_000.0
    w = World(res, server, sc)
    n = 0
    for st in sc["steps"]:
        if st[0] == "advance":
            # no cache entry may get an age the statement does not settle
            for d in (st[1], st[1] + 7, 600 * 86400):
                t = CLOCK[0] + d
                ages = [t - s[1] for ss in w.possible.values() for s in ss if s[0]]
                if all((a < OFFLINE_SURE - 10 or a > OFFLINE_NOT + 10) and not FRESH - 2 < a < FRESH + 2 for a in ages):
                    CLOCK[0] = t
                    break
            else:
                continue
        elif st[0] == "damage":
            w.damage(st[1], st[2])
        else:
            n += 1
            if st[2] == "redirect_loop":
                server.script[st[1]] = ("redirect", server.url(st[1]))
                ident = None
            else:
                ident = set_answer(server, st[1], st[2], n, r)
            w.run(st[1], ident, st[3])
            CLOCK[0] += 1
            ages = [CLOCK[0] - s[1] for ss in w.possible.values() for s in ss if s[0]]
            if any(FRESH - 2 < a < FRESH + 2 for a in ages):
                CLOCK[0] += 5
    res.case(sc)
    res.sample({"history": [str(x) for x in w.log[:6]]})


def crash_points(res, server, seed):
    """every file operation and many byte counts of one fetch, from each kind of cache state"""
    r = random.Random(seed)
    for before in ("none", "stale", "damaged"):
        for mode in ("kill_event", "kill_size", "err_size"):
            k = 0
            while True:
                arg = k if mode == "kill_event" else [0, 1, 2, 17, 40, 60, 75, 80, 85, 90, 99, 105, 110, 120, 140, 160][k] if k < 16 else None
                if arg is None or k > 60:
                    break
                sc = {"crash": [before, mode, arg]}
                CLOCK[0] = 1_700_000_000.0
                w = World(res, server, sc)
                p = "/c.toml"
                if before != "none":
                    w.run(p, set_answer(server, p, "ok", 1, r), None)
                    CLOCK[0] += 1000
                    if before == "damaged":
                        w.damage(p, r.choice(DAMAGE))
                text, ident = body(p, 2)
                server.script[p] = ("ok", text, "text/plain; charset=utf-8")
                out, _ev = w.run(p, ident, [mode, arg])
                finished = out[0] != "died"
                CLOCK[0] += r.choice([3, 1000])
                server.script[p] = ("reset",)
                w.run(p, None, None)
                CLOCK[0] += 1000
                w.run(p, set_answer(server, p, "ok", 3, r), None)
                CLOCK[0] += 3
                server.script[p] = ("reset",)
                w.run(p, None, None)
                res.case(sc)
                res.count("crash_points")
                k += 1
                if mode == "kill_event" and finished:
                    break


def hang(res, server, seed):
    """a server that never answers"""
    for before in (False, True):
        CLOCK[0] = 1_700_000_000.0
        w = World(res, server, {"hang": before})
        r = random.Random(seed)
        if before:
            w.run("/h.toml", set_answer(server, "/h.toml", "ok", 1, r), None)
            CLOCK[0] += 1000
        server.script["/h.toml"] = ("hang", 60)
        t = time.monotonic()
        w.run("/h.toml", None, None)
        if time.monotonic() - t > 50:
            w.bad("hang", "a server that does not answer was waited for longer than 50 s")
        res.count("hanging_servers")
        res.case({"hang": before})


def concurrent(res, server, seed):
    """writers and readers of one URL in separate processes; every read must be complete"""
    CLOCK[0] = 1_700_000_000.0
    World(res, server, {})
    p = "/big.toml"
    n = [0]
    rr = random.Random(seed)

    def answer():
        n[0] += 1
        return ("ok", body(p, n[0], rr.choice([100, 30000, 300000]))[0], "text/plain; charset=utf-8")

    server.script[p] = answer
    url = server.url(p)
    outcome(url)  # something is cached
    start = time.monotonic()
    kids = []
    for i in range(6):
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rfd)
            r = random.Random(seed * 10 + i)
            bad, done = [], 0
            try:
                while done < 60 and time.monotonic() - start < 30:
                    CLOCK[0] = 1_700_000_000.0 + done * 400 * (i % 2)  # odd ones find the cache old
                    try:
                        out = outcome(url)
                    except Exception:
                        out = ["exception", traceback.format_exc()[-700:], []]
                    done += 1
                    if out[0] != "ok" or not out[1][0] or out[1][0] != "".join(out[1][1]) + "ž":
                        bad.append(out)
                    time.sleep(r.random() * 0.003)
            finally:
                os.write(wfd, json.dumps([done, bad[:2]]).encode()[:60000])
                os._exit(0)
        os.close(wfd)
        kids.append((pid, rfd))
    for pid, rfd in kids:
        buf = b""
        while True:
            b = os.read(rfd, 65536)
            if not b:
                break
            buf += b
        os.close(rfd)
        os.waitpid(pid, 0)
        done, bad = json.loads(buf)
        res.count("concurrent_reads", done)
        for b in bad:
            res.violation("concurrent", f"with several processes fetching: {b}", scenario={"concurrent": seed})
    res.count("concurrent_fetches", len(server.take_log()))
    res.case({"concurrent": seed})


def task(arg):
    kind, seed, lo, hi = arg
    res = Result()
    edu.write("subject.py", "x = 1\n")
    outcome("empty")  # imports done before any fork
    fake_clock()
    server = Server()
    try:
        if kind == "random":
            for i in range(lo, hi):
                evaluate(scenario(rng_for("C18", seed, i)), res, server)
        elif kind == "crash":
            crash_points(res, server, seed + lo)
        elif kind == "hang":
            hang(res, server, seed)
        else:
            concurrent(res, server, seed + lo)
    finally:
        time.time = _real_time
        server.stop.set()
    return res


def run(ctx):
    res = Result()
    if ctx.replay:
        os.chdir(core.SCRATCH)
        sc = ctx.replay["scenario"]
        if "steps" in sc:
            edu.write("subject.py", "x = 1\n")
            outcome("empty")
            fake_clock()
            evaluate(sc, res, Server())
        else:
            kind = next(iter(sc))
            res.merge(core.pmerge(task, [(kind if kind != "crash" else "crash", ctx.replay["seed"], 0, 0)]))
        return res
    n = ctx.n(240, 6000)
    step = 15 if not ctx.thorough else 100
    tasks = [("hang", ctx.seed, 0, 0)] + [("concurrent", ctx.seed, i, 0) for i in range(ctx.n(2, 12))] + [("crash", ctx.seed, i, 0) for i in range(ctx.n(1, 6))]
    tasks += [("random", ctx.seed, i, i + step) for i in range(0, n, step)]
    res.merge(core.pmerge(task, tasks))
    return res
