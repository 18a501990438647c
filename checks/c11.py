"""C11: the control-flow graph contains every executed path."""
import ast
import glob
import os
import random
import sys
import textwrap
import types
import warnings

from vlib import core, edu, grammar
from vlib.core import Result, rng_for

LEVEL = "exploration"
RULE = ("random programs nesting all statements, executed under random decisions and injected exceptions; every transition between executed statements is looked up in the graph; "
        "the graph's structure and its traversals are checked on whole-grammar programs and the standard library; non-trivial = every traced frame; distinct = sequences of executed statements")
ASSUMPTIONS = ["context managers do not suppress exceptions and leave without raising", "evaluating the type of a handler which does not match is not a transition"]
MINIMUM = {"evaluations": 5000, "frames": 5000, "transitions": 50000, "to_handler": 1000, "to_end": 3000, "in_finally": 500, "structure": 300, "traversals": 2000,
           "t:If": 1000, "t:While": 1000, "t:For": 1000, "t:With": 500, "t:Match": 300, "generators": 50, "coroutines": 50, "classes": 100}


class Gen:
    """every executed place carries a mark with its own number"""

    def __init__(self, r):
        self.r, self.k = r, 0

    def i(self):
        self.k += 1
        return self.k

    def m(self):
        return f"m({self.i()})"

    def c(self):
        return f"c({self.i()})"

    def name(self):
        return "x"

    def simple(self):
        return self.r.choice([f"x = {self.m()}", self.m(), f"assert c({self.i()}), {self.m()}" if self.r.random() < 0.2 else f"x = y = {self.m()}", f"x += {self.m()}",
                              f"d[0] = {self.m()}", f"{self.m()}; x = {self.m()}"])

    def other(self, fn):
        return self.r.choice(["pass", "x = 1", f"del d[{self.m()}]", "import os"]) if not fn else self.r.choice(["pass", "x = 1", f"x: int = {self.m()}"])

    def target(self):
        return self.r.choice(["x", "x", "d[0]", "o.a"])

    def block(self, d, ctx):
        out = [self.stmt(d, ctx) for _ in range(self.r.choice([1, 1, 2, 3]))]
        return textwrap.indent("\n".join(out), "    ")

    def stmt(self, d, ctx):
        fn, loop, fin = ctx  # kind of the function it is in, whether in a loop (of it)
        r = self.r
        k = r.randint(0, 11) if d <= 0 else r.randint(0, 40)
        if k <= 3:
            return self.simple()
        if k == 4:
            return self.other(fn)
        if k == 5 and loop:
            return r.choice(["break", "continue"])
        if k == 6 and loop:
            return f"if {self.c()}:\n    {r.choice(['break', 'continue'])}"
        if k == 7 and fn:
            return r.choice([f"return {self.m()}", "return"]) if fn != "agen" else "return"
        if k == 8:
            return r.choice([f"raise E({self.i()})", f"raise E({self.i()})", f"raise E({self.i()}) from None"])
        if k == 9 and fn:
            return f"if {self.c()}:\n    return {'' if fn == 'agen' else self.m()}"
        if k == 10 and fn in ("gen", "agen"):
            return r.choice([f"yield {self.m()}", f"x = yield {self.m()}"])
        if k <= 11:
            return self.m()
        B = lambda l=loop, f=fin: self.block(d - 1, (fn, l, f))  # noqa
        if k <= 16:
            return f"if {self.c() if r.random() < 0.95 else r.choice(['True', '0', '1', 'None'])}:\n{B()}" + (f"\nelif {self.c()}:\n{B()}" if r.random() < 0.3 else "") + (f"\nelse:\n{B()}" if r.random() < 0.5 else "")
        if k <= 20:
            t = r.random()
            els = f"\nelse:\n{B()}" if r.random() < 0.3 else ""
            if t < 0.08:
                return f"while {r.choice(['True', '1', 'not 0'])}:\n    if not {self.c()}:\n        break\n{B(True)}" + els
            if t < 0.14:
                return f"while {r.choice(['False', '0', 'None', '()'])}:\n{B(True)}" + els
            return f"while {self.c()}:\n{B(True)}" + els
        if k <= 24:
            a = fn in ("coro", "agen") and r.random() < 0.5
            t = self.target()
            s = f"for {t} in {'ait' if a else 'it'}({self.i()}):\n{B(True)}" + (f"\nelse:\n{B()}" if r.random() < 0.4 else "")
            return "async " + s if a else s
        if k <= 33:
            return self.tri(d, ctx, B)
        if k <= 35:
            a = fn in ("coro", "agen") and r.random() < 0.5
            items = ", ".join(f"{'acm' if a else 'cm'}({self.i()})" + r.choice(["", f" as {self.name()}"]) for _ in range(r.choice([1, 1, 2])))
            return f"{'async ' if a else ''}with {items}:\n{B()}"
        if k <= 37:
            out = f"match {self.m()}:\n"
            n = r.randint(1, 3)
            for j in range(n):
                last = j == n - 1
                pat = r.choice([f"V.p{self.i()}", f"V.p{self.i()}", f"V.p{self.i()} as {self.name()}", "_" if last else f"V.p{self.i()}", self.name() if last else f"V.p{self.i()}"])
                guard = f" if {self.c()}" if r.random() < 0.3 else ""
                out += f"    case {pat}{guard}:\n{textwrap.indent(B(), '    ')}\n"
            return out.rstrip("\n")
        if k <= 39:
            return self.function(d - 1)
        body = self.block(d - 1, (None, False, False))
        dec = f"@dec({self.i()})\n" if r.random() < 0.2 else ""
        return f"{dec}class K(Base):\n    {self.m()}\n{body}"

    def tri(self, d, ctx, B):
        r = self.r
        star = r.random() < 0.08
        s = f"try:\n{B()}"
        n = r.choice([0, 1, 1, 2, 3])
        fin = n == 0 or r.random() < 0.4
        for j in range(n):
            if star:
                s += f"\nexcept* {r.choice(['E1', 'E2', 'E3', '(E2, KeyError)', 'Exception'])} as e:\n" + self.block(d - 1, (None if ctx[0] is None else "star", False, ctx[2])).replace("return", "x =").replace("x =\n", "pass\n")
                continue
            kind = r.random()
            if kind < 0.15 and j == n - 1:
                s += f"\nexcept:\n{B()}"
            elif kind < 0.35:
                s += f"\nexcept {r.choice(['E1', 'E2', 'Exception', '(E2, KeyError)', 'BaseException', 'E3'])}{r.choice(['', ' as e'])}:\n{B()}"
            else:
                s += f"\nexcept X({self.i()}){r.choice(['', ' as e'])}:\n{B()}"
        if n and r.random() < 0.3:
            s += f"\nelse:\n{B()}"
        if fin:
            s += f"\nfinally:\n{B()}"
        return s

    def function(self, d):
        r = self.r
        fn = r.choice(["def", "def", "def", "gen", "coro", "agen"])
        args = r.choice(["", "", f"a={self.m()}", f"a={self.m()}, *, b={self.m()}"])
        dec = f"@dec({self.i()})\n" if r.random() < 0.15 else ""
        body = self.block(d, (fn, False, False)) + "\n    " + self.stmt(0, (fn, False, False))
        if fn in ("gen", "agen"):
            body = f"    yield {self.m()}\n" + body
        return f"{dec}{'async ' if fn in ('coro', 'agen') else ''}def f({args}):\n    global x, y, d, o\n    d\n{body}\nrun(f)"

    def program(self, size, depth):
        parts = [self.m()]
        for _ in range(size):
            t = self.stmt(depth, (None, False, False))
            try:
                compile("\n".join(parts + [t]), "m", "exec", dont_inherit=True)
                parts.append(t)
            except SyntaxError:
                pass
        return "x = y = g = 0\nd = D()\no = Base()\n" + "\n".join(parts) + "\n"


class Monitor:
    """the names the program uses; records what is executed in which frame"""

    def __init__(self, r, budget, p_raise):
        self.r, self.budget, self.p_raise = r, budget, p_raise
        self.traces = {}  # frame -> {"marks", "parent", "end"}
        self.names = {}
        mon = self

        class E1(Exception):
            origin = None

        class E2(E1):
            pass

        class E3(E1):
            pass

        self.errors = [E1, E2, E3, KeyError, ValueError, KeyboardInterrupt]
        self.E1 = E1

        class V:
            def __getattr__(self, name):
                mon.log(name, sys._getframe(1))
                mon.maybe_raise(sys._getframe(1))
                return r.randint(0, 1)

        class Iter:
            def __init__(self, i):
                self.i, self.n = i, r.choice([0, 1, 1, 2, 3])

            def __iter__(self):
                return self

            __aiter__ = __iter__

            def step(self, frame, stop):
                mon.log(("next", self.i), frame)
                mon.maybe_raise(frame)
                self.n -= 1
                if self.n < 0 or mon.budget < 0:
                    raise stop
                return 0

            def __next__(self):
                return self.step(sys._getframe(1), StopIteration)

            def __anext__(self):
                return Ready(self.step, sys._getframe(1))

        class Ready:
            def __init__(self, f=None, *a):
                self.f, self.a = f, a

            def __await__(self):
                if self.f:
                    return self.f(*self.a, StopAsyncIteration)
                return 0
                yield

        class CM:
            def __enter__(self):
                mon.maybe_raise(sys._getframe(1))
                return 0

            def __exit__(self, *_):
                return None

            def __aenter__(self):
                return Ready()

            def __aexit__(self, *_):
                return Ready()

        class Base:
            def __init_subclass__(cls):
                f = sys._getframe(1)
                last = [t for fr, t in mon.traces.items() if t["parent"] is f and fr.f_code.co_name == "K"][-1:]
                for t in last:
                    t["end"] = "normal"
                    t["class"] = True

        class D(dict):
            def __delitem__(self, k):
                return None

        def m(i):
            f = sys._getframe(1)
            mon.log(i, f)
            mon.maybe_raise(f)
            return r.randint(0, 1)

        def c(i):
            f = sys._getframe(1)
            mon.log(i, f)
            mon.maybe_raise(f)
            return mon.budget > 0 and r.random() < 0.6

        def it(i):
            mon.log(i, sys._getframe(1))
            mon.maybe_raise(sys._getframe(1))
            return Iter(i)

        def cm(i):
            mon.log(i, sys._getframe(1))
            mon.maybe_raise(sys._getframe(1))
            return CM()

        def E(i):
            f = sys._getframe(1)
            mon.log(i, f)
            e = r.choice(mon.errors)(i)
            e.origin = f
            return e

        def X(i):
            cls = r.choice([E1, E2, E3, (E2, KeyError), Exception])
            now = sys.exc_info()[1]
            if isinstance(now, cls):
                mon.log(i, sys._getframe(1))
            return cls

        def dec(i):
            mon.log(i, sys._getframe(1))
            return lambda f: f

        def run(f):
            me = sys._getframe(0)
            try:
                mon.drive(f)
                end = "normal"
            except BaseException as e:
                end = e
            for t in list(mon.traces.values()):
                p = t["parent"]
                if t["end"] is None and p is not None and (p is me or p.f_code is Monitor.drive.__code__ and p.f_back is me):
                    t["end"] = end
            return 0

        self.names = {"m": m, "c": c, "it": it, "ait": it, "cm": cm, "acm": cm, "E": E, "X": X, "V": V(), "dec": dec, "run": run, "Base": Base, "D": D, "E1": E1, "E2": E2, "E3": E3}

    def log(self, i, frame):
        t = self.traces.get(frame)
        if t is None:
            t = self.traces[frame] = {"marks": [], "parent": frame.f_back, "end": None}
        t["marks"].append(i)
        self.budget -= 1

    def maybe_raise(self, frame):
        if self.r.random() < self.p_raise:
            raise self.r.choice(self.errors)()

    def drive(self, f):
        x = f()
        if isinstance(x, types.GeneratorType):
            for _ in range(50):
                try:
                    x.throw(self.r.choice(self.errors)()) if self.r.random() < self.p_raise else next(x)
                except StopIteration:
                    return
        elif isinstance(x, types.CoroutineType):
            try:
                x.send(None)
            except StopIteration:
                return
        elif isinstance(x, types.AsyncGeneratorType):
            for _ in range(50):
                try:
                    x.__anext__().send(None)
                except StopIteration:
                    continue
                except StopAsyncIteration:
                    return
        if not isinstance(x, int) and x is not None:
            raise GeneratorExit  # left unfinished

    def execute(self, code):
        ns = dict(self.names)
        self.budget = abs(self.budget)
        end = "normal"
        try:
            exec(code, ns)
        except BaseException as e:
            if isinstance(e, core.TimeLimit):
                raise
            end = e
        for fr, t in self.traces.items():
            if fr.f_code is code:
                t["end"] = end


def marks_of(tree):
    """mark -> (graph location, node)"""
    from astroid import nodes
    from edulint.linting.analyses.cfg.utils import get_cfg_loc
    out = {}
    for n in tree.nodes_of_class((nodes.Call, nodes.Attribute)):
        if isinstance(n, nodes.Call) and isinstance(n.func, nodes.Name) and n.args and isinstance(n.args[0], nodes.Const) and n.func.name in ("m", "c", "it", "ait", "cm", "acm", "E", "X", "dec"):
            i = n.args[0].value
            out[i] = get_cfg_loc(n)
            if n.func.name in ("it", "ait"):
                out[("next", i)] = get_cfg_loc(n.parent.target)
        elif isinstance(n, nodes.Attribute) and isinstance(n.expr, nodes.Name) and n.expr.name == "V":
            out[n.attrname] = get_cfg_loc(n)
    return out


class Paths:
    """what the graph allows to be executed next, computed on its blocks and edges only"""

    def __init__(self, marks):
        self.at = {}
        for i, loc in marks.items():
            self.at.setdefault((id(loc.block), loc.pos), set()).add(i)
        self.known = {}

    def start(self, block, pos):
        k = (id(block), pos)
        if k not in self.known:
            self.known[k] = self.search(block, pos)
        return self.known[k]

    def search(self, block, pos):
        out, seen, todo = set(), set(), [(block, pos)]
        end = block.cfg.end
        while todo:
            b, p = todo.pop()
            while p < len(b.locs) and (id(b), p) not in self.at:
                p += 1
            if p < len(b.locs):
                out |= self.at[(id(b), p)]
                continue
            if b is end:
                out.add("end")
            for e in b.successors:
                if id(e.target) not in seen:
                    seen.add(id(e.target))
                    todo.append((e.target, 0))
        return out


def scope_of(loc):
    return loc.block.cfg


def analysed(text):
    import astroid
    from edulint.linting.analyses.cfg.visitor import CFGVisitor
    edu.fresh_astroid()
    try:
        with core.time_limit(20):
            tree = astroid.parse(text)
    except Exception:  # noqa: astroid's own parser gives up
        return None, None
    v = CFGVisitor()
    tree.accept(v)
    return tree, v


def evaluate_run(s, res):
    text = s["text"]
    tree, visitor = analysed(text)
    if tree is None:
        return
    marks = marks_of(tree)
    paths = Paths(marks)
    code = compile(text, "m", "exec", dont_inherit=True)
    kinds = {}
    for i, loc in marks.items():
        kinds[i] = type(loc.node.parent).__name__
    for seed in s["runs"]:
        r = random.Random(seed)
        mon = Monitor(r, r.choice([30, 100, 200]), r.choice([0, 0.01, 0.05, 0.1]))
        try:
            with core.time_limit(10):
                mon.execute(code)
        except core.TimeLimit:
            res.count("slow")
            continue
        for fr, t in list(mon.traces.items()):
            if fr.f_code.co_name.startswith("<"):
                if fr.f_code.co_name != "<module>":
                    continue
            ms = t["marks"]
            res.count("frames")
            res.case([text, [str(x) for x in ms]])
            flags = fr.f_code.co_flags
            res.count("generators", bool(flags & 0x20))
            res.count("coroutines", bool(flags & 0x280))
            res.count("classes", bool(t.get("class")))
            cfg = marks[ms[0]].block.cfg
            where = f"frame {fr.f_code.co_name}, executed {ms}"
            for i in ms:
                res.count("t:" + kinds[i])
                if not marks[i].block.reachable:
                    res.violation("unreachable", f"place {i} was executed, the graph holds it unreachable; {where}", scenario=s)
                    return
                if marks[i].block.cfg is not cfg:
                    res.violation("graph", f"place {i} executed with {ms[0]} is in another graph; {where}", scenario=s)
                    return
            allowed = paths.start(cfg.start, 0)
            prev = "start"
            for i in ms:
                res.count("transitions")
                same = prev != "start" and prev != i and marks[prev].block is marks[i].block and marks[prev].pos == marks[i].pos
                if i not in allowed and not same:
                    res.violation(f"edge:{kinds.get(prev, 'start')}:{kinds[i]}", f"execution went from {prev} to {i}, the graph allows {sorted(map(str, allowed))}; {where}", scenario=s)
                    return
                if kinds[i] == "ExceptHandler":
                    res.count("to_handler")
                prev = i
                allowed = paths.start(marks[i].block, marks[i].pos + 1)
            e = t["end"]
            if e == "normal" or (isinstance(e, BaseException) and getattr(e, "origin", None) is fr):
                res.count("to_end")
                if "end" not in allowed:
                    res.violation(f"edge:{kinds.get(prev, 'start')}:end", f"execution went from {prev} to the end, the graph allows {sorted(map(str, allowed))}; {where}", scenario=s)
                    return
        mon.traces.clear()
    for n in ast.walk(ast.parse(text)):
        if isinstance(n, (ast.Try, ast.TryStar)) and n.finalbody:
            res.count("in_finally")
    res.sample({"text": text[:400]})


def evaluate_structure(s, res):
    from astroid import nodes
    text = s["text"]
    tree, visitor = analysed(text)
    if tree is None:
        return
    res.count("structure")
    res.case(text)
    placed = {}
    for node, cfg in visitor.cfgs.items():
        blocks = {id(b): b for b in list(cfg.get_blocks()) + list(cfg.unreachable_blocks)}
        reach = {id(b) for b in cfg.get_blocks()}
        for b in blocks.values():
            if b.reachable != (id(b) in reach):
                res.violation("reachable", f"{b!r} of {node!r} marked reachable={b.reachable}", scenario=s)
            for i, loc in enumerate(b.locs):
                placed.setdefault(id(loc.node), []).append((loc, cfg))
                if loc.block is not b or loc.pos != i:
                    res.violation("position", f"{loc!r} at {i} claims to be at {loc.pos}", scenario=s)
                if loc.node.cfg_loc is not loc:
                    res.violation("position", f"{loc!r} is not where its node is", scenario=s)
            for e in b.successors:
                if e.source is not b or sum(x is e for x in e.target.predecessors) != 1:
                    res.violation("edges", f"edge from {b!r} not mirrored at its target", scenario=s)
            for e in b.predecessors:
                if e.target is not b or sum(x is e for x in e.source.successors) != 1:
                    res.violation("edges", f"edge to {b!r} not mirrored at its source", scenario=s)

    def once(n, what):
        p = placed.get(id(n), [])
        if len(p) != 1:
            res.violation(f"placed:{what}", f"{n.as_string()[:80]!r} (line {n.lineno}) is in {len(p)} places of the graphs", scenario=s)
            return
        scope = n.parent.scope() if isinstance(n, (nodes.FunctionDef, nodes.ClassDef)) else n.scope()
        while scope not in visitor.cfgs:
            scope = scope.parent.scope()
        if p[0][1] is not visitor.cfgs[scope]:
            res.violation("placed:graph", f"{n.as_string()[:80]!r} is in a graph of another scope", scenario=s)

    dead = set()

    def block(ss):
        gone = False
        for x in ss:
            if not gone:
                stmt(x)
            gone = gone or isinstance(x, (nodes.Return, nodes.Raise, nodes.Break, nodes.Continue))

    def stmt(n):
        """a statement that can be reached by structure of its block"""
        res.count("placed_statements")
        if isinstance(n, (nodes.If, nodes.While)):
            once(n.test, "test")
            block(n.body)
            block(n.orelse)
        elif isinstance(n, nodes.For):
            once(n.iter, "iter")
            once(n.target, "target")
            block(n.body)
            block(n.orelse)
        elif isinstance(n, nodes.With):
            for c, name in n.items:
                once(c, "with")
                if name is not None:
                    once(name, "with")
            block(n.body)
        elif isinstance(n, (nodes.Try, nodes.TryStar)):
            block(n.body)
            for h in n.handlers:
                if h.type is not None:
                    once(h.type, "handler")
                if h.name is not None:
                    once(h.name, "handler")
                block(h.body)
            block(n.orelse)
            block(n.finalbody)
        elif isinstance(n, nodes.Match):
            once(n.subject, "match")
            for c in n.cases:
                once(c.pattern, "case")
                if c.guard is not None:
                    once(c.guard, "case")
                block(c.body)
        elif isinstance(n, nodes.FunctionDef):
            once(n, "def")
            once(n.args, "args")
            block(n.body)
        elif isinstance(n, nodes.ClassDef):
            once(n, "class")
            block(n.body)
        else:
            once(n, "simple")

    block(tree.body)
    traversals(s, visitor, res)


def syntactic(s, locs, succ, r, utils, res):
    """the locations of a statement (or of consecutive ones), and those right after it"""
    from astroid import nodes
    stmts = []
    for l in locs:
        n = l.node
        while n is not None and n not in stmts and n.is_statement and "cfg_loc" in n.__dict__ and not isinstance(n, (nodes.ExceptHandler,)) and n.cfg_loc.block.cfg is l.block.cfg:
            stmts.append(n)
            n = n.parent
    for n in r.sample(stmts, min(len(stmts), 6)):
        group = [n]
        while r.random() < 0.3 and group[-1].next_sibling() is not None and "cfg_loc" in group[-1].next_sibling().__dict__ and group[-1].next_sibling().cfg_loc.block.reachable:
            group.append(group[-1].next_sibling())
        inside = {id(l) for l in locs if any(g is l.node or g.parent_of(l.node) for g in group)}
        res.count("syntactic")
        got = {id(l) for l in utils.syntactic_children_locs(n if len(group) == 1 else group)}
        if got != inside:
            name = {id(l): l for l in locs}
            res.violation("syntactic:inside", f"of {group}: missing {[name[i] for i in inside - got][:3]}, extra {[name.get(i) for i in got - inside][:3]}", scenario=s)
            return
        after = {id(x) for l in locs if id(l) in inside for x in succ[id(l)]} - inside
        got = {id(l) for l in utils.get_first_locs_after([g.cfg_loc for g in group])}
        if got != after:
            name = {id(l): l for l in locs}
            res.violation("syntactic:after", f"of {group}: missing {[name[i] for i in after - got][:3]}, extra {[name.get(i) for i in got - after][:3]}", scenario=s)
            return


def traversals(s, visitor, res):
    """the traversals agree with reachability over single places"""
    from edulint.linting.analyses.cfg import utils
    r = random.Random(str(len(s["text"])))
    for node, cfg in list(visitor.cfgs.items()):
        locs = [l for b in cfg.get_blocks() for l in b.locs]
        if not locs or len(locs) > 400:
            continue
        succ, pred = {}, {id(l): [] for l in locs}

        def firsts(b, seen):
            if b.locs:
                return [b.locs[0]]
            out = []
            for e in b.successors:
                if id(e.target) not in seen:
                    seen.add(id(e.target))
                    out += firsts(e.target, seen)
            return out

        for b in cfg.get_blocks():
            for i, l in enumerate(b.locs):
                succ[id(l)] = [b.locs[i + 1]] if i + 1 < len(b.locs) else [x for e in b.successors for x in firsts(e.target, set())]
        for l in locs:
            for x in succ[id(l)]:
                pred[id(x)].append(l)

        def reach(start, step, stop, include_start, include_end):
            out, todo = set(), []

            def meet(l):
                if id(l) in out or id(l) in halted:
                    return
                if stop is not None and stop(l):
                    halted.add(id(l))
                    if include_end:
                        out.add(id(l))
                    return
                out.add(id(l))
                todo.append(l)

            halted = set()
            for l in start:
                if include_start:
                    meet(l)
                else:
                    todo.append(l)
            while todo:
                for x in step[id(todo.pop())]:
                    meet(x)
            return out

        syntactic(s, locs, succ, r, utils, res)
        for _ in range(6):
            start = r.sample(locs, 1)
            stops = set(map(id, r.sample(locs, min(len(locs), r.choice([0, 1, 3])))))
            stop = (lambda l: id(l) in stops) if stops else None
            inc_s, inc_e = r.random() < 0.5, r.random() < 0.5
            back = r.random() < 0.4
            f = utils.predecessors_from_loc if back else utils.successors_from_loc
            got = list(f(start[0], stop_on_loc=stop, include_start=inc_s, include_end=inc_e))
            want = reach(start, pred if back else succ, stop, inc_s, inc_e)
            res.count("traversals")
            g = {id(l) for l in got if l.block.reachable}
            if g != want:
                name = {id(l): l for l in locs}
                res.violation(f"traversal:{'back' if back else 'forth'}:{'stop' if stops else 'all'}", f"from {start} (include start {inc_s}, end {inc_e}, stop at {[name[i] for i in stops]}): "
                              f"missing {[name.get(i) for i in want - g][:3]}, extra {[name.get(i) for i in g - want][:3]}", scenario=s)
                return
            if len(got) != len({id(l) for l in got}):
                res.violation("traversal:repeated", f"from {start}: a location is generated repeatedly", scenario=s)
                return


def scenario(r):
    k = r.random()
    if k < 0.7:
        g = Gen(r)
        return {"kind": "run", "text": g.program(r.choice([3, 6, 10]), r.choice([2, 3, 4])), "runs": [r.randrange(1 << 30) for _ in range(6)]}
    if k < 0.95:
        return {"kind": "structure", "text": grammar.Gen(r).program(r.choice([3, 8, 15]), r.choice([1, 2, 3]))}
    path = r.choice(LIBRARY)
    return {"kind": "structure", "text": open(path, encoding="utf-8", errors="replace").read()}


LIBRARY = sorted(p for p in glob.glob(os.path.join(os.path.dirname(os.__file__), "*.py")) if 2000 < os.path.getsize(p) < 60000)


def evaluate(s, res):
    (evaluate_run if s["kind"] == "run" else evaluate_structure)(s, res)


def task(arg):
    warnings.simplefilter("ignore")
    seed, lo, hi = arg
    res = Result()
    for i in range(lo, hi):
        s = scenario(rng_for("C11", seed, i))
        try:
            evaluate(s, res)
        except BaseException as e:
            core.note_exception(res, e, "C11", {"scenario": s})
    return res


def run(ctx):
    res = Result()
    if ctx.replay:
        os.chdir(core.SCRATCH)
        evaluate(ctx.replay["scenario"], res)
        return res
    n = ctx.n(3200, 100000)
    res.merge(core.pmerge(task, [(ctx.seed, i, i + 40) for i in range(0, n, 40)]))
    return res
