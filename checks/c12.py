"""C12: recorded definitions and uses cover the data flows of executions."""
import ast
import os
import random
import sys
import textwrap
import types
import warnings

from checks import c11
from vlib import core, edu, grammar
from vlib.core import Result, rng_for

LEVEL = "exploration"
RULE = ("random programs whose values carry the place that produced them, executed under random decisions and injected exceptions; each value read is looked up among the recorded definitions "
        "of the read; mirrored relations are checked on whole-grammar programs too; non-trivial = every executed frame; distinct = sequences of observed flows")
ASSUMPTIONS = ["flows through variables of one function or module which no nested function, lambda or class mentions", "no assignment in a conditionally evaluated or repeated part of an expression",
               "context managers do not suppress exceptions"]
MINIMUM = {"evaluations": 3000, "flows": 30000, "flow:ASSIGN": 5000, "flow:MODIFY": 2000, "flow:augmented": 500, "flow:for": 3000, "flow:with": 100, "flow:param": 5000, "flow:match": 400, "flow:walrus": 300,
           "flow:unpacked": 300, "mirrored": 20000, "expressions": 5000, "changed_between": 2000, "looped": 500}


class Gen(c11.Gen):
    """every value assigned carries a number; every read is r(number, variable)"""

    def __init__(self, r):
        super().__init__(r)
        self.names = r.sample(["x", "y", "z", "u"], r.choice([2, 3, 4]))
        self.in_class = 0

    def name(self):
        return self.r.choice(self.names)

    def read(self):
        return f"r({self.i()}, {self.name()})"

    def m(self):
        k = self.r.random()
        if k < 0.5:
            return f"m({self.i()}, {self.read()})"
        if k < 0.7:
            return f"m({self.i()}, {self.read()}, {self.read()})"
        if k < 0.77:
            return f"m({self.i()}, [{self.read()} for _ in lit(2)])"
        if k < 0.82:
            return f"m({self.i()}, {{v: {self.read()} for v in lit(m({self.i()}, {self.read()}))}})"
        if k < 0.9:
            return f"m({self.i()}, ({self.name()} := {self.w()}), {self.read()})"
        return f"m({self.i()})"

    def w(self):
        return f"w({self.i()}{', ' + self.read() if self.r.random() < 0.6 else ''})"

    def c(self):
        k = self.r.random()
        if k < 0.6:
            return f"c({self.i()}, {self.read()})"
        if k < 0.7:
            return f"c({self.i()}, ({self.name()} := {self.w()}))"
        return f"c({self.i()})"

    def simple(self):
        n = self.name()
        k = self.r.randint(0, 13)
        if k <= 4:
            return f"{n} = {self.w()}"
        if k == 5:
            return f"{n} += {self.w()}"
        if k == 6:
            return f"{n}.append({self.w()})"
        if k == 7:
            return self.r.choice([f"{n}[0] = {self.w()}", f"{n}.a = {self.w()}", f"{n}.b.update({self.w()})", f"{n}[1].extend({self.w()})", f"del {n}[{self.w()}]", f"{n}.b[0] = {self.w()}",
                                  f"{n}[0] += {self.w()}"])
        if k == 8:
            a = self.r.sample(self.names, 2)
            return f"{a[0]}, {a[1]} = {self.w()}, {self.w()}"
        if k == 9:
            return f"{n}: int = {self.w()}"
        if k == 10:
            a = self.r.sample(self.names, 2)
            return f"[{a[0]}, {a[1]}] = pair({self.i()})"
        if k == 11 and self.r.random() < 0.15:
            return f"del {n}"
        if k == 12:
            return f"{n} = {self.w()}; {self.name()} = {self.w()}"
        return self.m()

    def other(self, fn):
        return self.simple()

    def target(self):
        n = self.name()
        if self.r.random() < 0.2:
            return ", ".join(self.r.sample(self.names, 2))
        return n

    def stmt(self, d, ctx):
        s = super().stmt(d, ctx)
        if s.startswith("x = yield") or "class K" in s:
            return self.simple()
        if s.startswith("raise") and self.r.random() < 0.8:
            return self.simple() if self.r.random() < 0.5 else f"if {self.c()}:\n    {s}"
        return s

    def function(self, d):
        old = self.names
        self.names = self.r.sample(["p", "q", "s", "t"], self.r.choice([2, 3, 4]))  # not those of the module
        out = self.function_text(d)
        self.names = old
        return out

    def function_text(self, d):
        r = self.r
        fn = r.choice(["def", "def", "def", "gen", "coro", "agen"])
        params = r.sample(self.names, r.randint(0, len(self.names)))
        body = textwrap.indent("\n".join(f"{n} = w({self.i()})" for n in self.names if n not in params and r.random() < 0.97) or "pass", "    ") + "\n"
        body += "\n".join(self.block(d, (fn, False, False)) for _ in range(r.choice([1, 2, 3]))) + "\n    " + self.m()
        if fn in ("gen", "agen"):
            body = f"    yield m({self.i()})\n" + body
        head = ", ".join(params)
        if params and r.random() < 0.2:
            head = ", ".join(params[:-1] + ["*", params[-1]])
        elif params and r.random() < 0.1:
            head = ", ".join(params[:-1] + ["/"]) if len(params) > 1 else head
            if len(params) > 1:
                head += ", " + params[-1]
        kw = "*, " in head
        return f"{'async ' if fn in ('coro', 'agen') else ''}def f({head}):\n{body}\nrun(f, {self.i()}, {params!r}, {kw})"


class Gen1(Gen):
    """one function after another, statements in between"""

    def stmt(self, d, ctx):
        s = super().stmt(d, ctx)
        return self.simple() if "def f" in s else s

    def program(self, size, depth):
        parts = [f"{n} = w({self.i()})" for n in self.names]
        for _ in range(size):
            t = self.function(depth) if self.r.random() < 0.5 else self.stmt(depth, (None, False, False))
            if "global" in t:
                continue
            try:
                compile("\n".join(parts + [t]), "m", "exec", dont_inherit=True)
                parts.append(t)
            except SyntaxError:
                pass
        return "\n".join(parts) + "\n"


class Monitor(c11.Monitor):
    def __init__(self, r, budget, p_raise):
        super().__init__(r, budget, p_raise)
        mon = self
        self.flows = []  # (read, source)
        self.trail = {}  # frame -> [mark]

        class Part:
            def __init__(self, v):
                object.__setattr__(self, "v", v)

            def update(self, k):
                self.v.tag = ("mod", k.tag)

            extend = update

            def __setitem__(self, _k, k):
                self.v.tag = ("mod", k.tag)

            def __iadd__(self, k):
                return self

        class Val:
            def __init__(self, tag):
                object.__setattr__(self, "tag", tag)

            def __bool__(self):
                return r.random() < 0.5

            def __hash__(self):
                return 1

            def __iadd__(self, o):
                return Val(o.tag)

            def append(self, o):
                object.__setattr__(self, "tag", ("mod", o.tag))

            def __setitem__(self, _k, o):
                if not isinstance(o, Part):
                    self.append(o)
                else:
                    self.append(o.last)

            def __setattr__(self, name, o):
                if name == "tag":
                    object.__setattr__(self, "tag", o)
                else:
                    self.append(o)

            def __delitem__(self, o):
                self.append(o)

            def __getitem__(self, _k):
                p = Part(self)
                Part.__iadd__ = lambda p, o: (object.__setattr__(p, "last", o), p)[1]
                return p

            @property
            def b(self):
                return Part(self)

        self.Val = Val

        def mark(i, f):
            mon.log(i, f)
            mon.maybe_raise(f)

        def m(i, *_):
            mark(i, sys._getframe(1))
            return r.randint(0, 1)

        def w(i, *_):
            mark(i, sys._getframe(1))
            return Val(i)

        def pair(i):
            mark(i, sys._getframe(1))
            return Val(i), Val(i)

        def read(i, v):
            f = sys._getframe(1)
            mark(i, f)
            if isinstance(v, Val):
                mon.flows.append((f, i, v.tag, len(mon.traces[f]["marks"])))
            return Val(None)

        def c(i, *_):
            mark(i, sys._getframe(1))
            return mon.budget > 0 and r.random() < 0.6

        class Iter:
            def __init__(self, i):
                self.i, self.n = i, r.choice([0, 1, 1, 2, 3])

            def __iter__(self):
                return self

            __aiter__ = __iter__

            def step(self, frame, stop):
                mon.log(("next", self.i), frame)
                mon.maybe_raise(frame)
                self.n -= 1
                if self.n < 0 or mon.budget < 0:
                    raise stop
                return Iterated(self.i)

            def __next__(self):
                return self.step(sys._getframe(1), StopIteration)

            def __anext__(self):
                step, f = self.step, sys._getframe(1)

                class Ready:
                    def __await__(self):
                        return step(f, StopAsyncIteration)
                        yield
                return Ready()

        class Iterated(Val):  # to be unpacked
            def __iter__(self):
                return iter([Val(self.tag), Val(self.tag)])

        def it(i, *_):
            mark(i, sys._getframe(1))
            return Iter(i)

        class Ready:
            def __init__(self, v):
                self.v = v

            def __await__(self):
                return self.v
                yield

        class CM:
            def __init__(self, i):
                self.i = i

            def __enter__(self):
                mon.maybe_raise(sys._getframe(1))
                return Val(self.i)

            def __exit__(self, *_):
                return None

            def __aenter__(self):
                return Ready(Val(self.i))

            def __aexit__(self, *_):
                return Ready(None)

        def cm(i, *_):
            mark(i, sys._getframe(1))
            return CM(i)

        def run(f, i, params, kw):
            args = [Val(("param", i, p)) for p in params]
            g = (lambda: f(*args[:-1], **{params[-1]: args[-1]})) if kw else (lambda: f(*args))
            try:
                mon.drive(g)
            except BaseException:
                pass
            return 0

        class V:
            def __getattr__(self, name):
                mark(name, sys._getframe(1))
                return Match()

        class Match:
            def __eq__(self, o):
                return r.random() < 0.5

        def subject(i, *_):
            mark(i, sys._getframe(1))
            return Val(("match", i))

        def lit(x):
            return [0] * r.randint(0, 2)

        self.names.update({"m": m, "w": w, "r": read, "c": c, "it": it, "ait": it, "cm": cm, "acm": cm, "run": run, "V": V(), "lit": lit, "pair": pair, "subject": subject})


def analysed(text):
    import astroid
    from edulint.linting.analyses.patcher import run_analyses
    edu.fresh_astroid()
    try:
        with core.time_limit(20):
            tree = astroid.parse(text)
    except Exception:  # noqa: astroid's own parser gives up
        return None
    run_analyses(tree)
    return tree if tree.cfg_loc.var_events.successful else None


def events_of(tree):
    seen, out = set(), []

    def rec(n):
        loc = n.__dict__.get("cfg_loc")
        if loc is not None and id(loc.block) not in seen:
            seen.add(id(loc.block))
            for l in loc.block.locs:
                for var, e in l.var_events.all():
                    out.append((l, var, e))
        for ch in n.get_children():
            rec(ch)

    rec(tree)
    return out


class Sources:
    """marks -> events"""

    def __init__(self, tree):
        from astroid import nodes
        from edulint.linting.analyses.utils import node_to_event
        self.reads, self.assigns, self.mods, self.kind, self.loc = {}, {}, {}, {}, {}
        from edulint.linting.analyses.cfg.utils import get_cfg_loc
        self.expr, self.expr_kinds = {}, {"ASSIGN", "unpacked", "walrus", "augmented", "for", "with", "param"}
        by_node = {}
        for loc, var, e in events_of(tree):
            by_node.setdefault(id(e.node), []).append(e)

        def num(c):
            return c.args[0].value

        def targets(t):
            return list(t.nodes_of_class(nodes.AssignName))

        for n in tree.nodes_of_class(nodes.Call):
            if not isinstance(n.func, nodes.Name):
                continue
            f = n.func.name
            if f == "r":
                self.reads[num(n)] = [e for e in by_node.get(id(n.args[1]), []) if e.type.name == "READ"]
                self.loc[num(n)] = get_cfg_loc(n)
            elif f in ("w", "pair"):
                p = n.parent
                i = num(n)
                self.expr[i] = n
                if isinstance(p, nodes.Tuple):
                    a = p.parent
                    t = a.targets[0].elts[p.elts.index(n)]
                    self.put(i, t, by_node, "unpacked")
                elif isinstance(p, nodes.Assign):
                    t = p.targets[0]
                    if isinstance(t, nodes.AssignName):
                        self.put(i, t, by_node, "ASSIGN")
                    elif isinstance(t, (nodes.Tuple, nodes.List)):
                        for x in t.elts:
                            self.put(i, x, by_node, "unpacked")
                    else:
                        self.mod(i, t, by_node)
                elif isinstance(p, nodes.AnnAssign):
                    self.put(i, p.target, by_node, "ASSIGN")
                elif isinstance(p, nodes.NamedExpr):
                    self.put(i, p.target, by_node, "walrus")
                elif isinstance(p, nodes.AugAssign):
                    if isinstance(p.target, nodes.AssignName):
                        self.put(i, p.target, by_node, "augmented")
                    else:
                        self.mod(i, p.target, by_node)
                elif isinstance(p, nodes.Call):
                    self.mod(i, p.func, by_node)
                elif isinstance(p, nodes.Subscript):
                    self.mod(i, p, by_node)
            elif f in ("it", "ait"):
                self.expr[num(n)] = n
                for x in targets(n.parent.target):
                    self.put(num(n), x, by_node, "for")
            elif f in ("cm", "acm"):
                self.expr[num(n)] = n.parent
                for c, x in n.parent.items:
                    if c is n and x is not None:
                        self.put(num(n), x, by_node, "with")
            elif f == "run":
                d = n.parent.previous_sibling()
                for x in d.args.arguments:
                    self.expr["param", n.args[1].value, x.name] = d.args
                    self.put(("param", n.args[1].value, x.name), x, by_node, "param")
            elif f == "subject":
                for x in n.parent.nodes_of_class(nodes.AssignName):
                    if isinstance(x.parent, nodes.MatchAs) and x.parent.statement() is not None:
                        q = x
                        while not isinstance(q, nodes.Match):
                            q = q.parent
                        if q is n.parent:
                            self.put(("match", num(n)), x, by_node, "match")

    def put(self, i, node, by_node, kind):
        self.assigns.setdefault(i, []).extend(e for e in by_node.get(id(node), []) if e.type.name in ("ASSIGN", "REASSIGN"))
        self.kind[i] = kind

    def mod(self, i, node, by_node):
        from edulint.linting.analyses.var_events import strip_to_name
        self.mods.setdefault(i, []).extend(e for e in by_node.get(id(strip_to_name(node)), []) if e.type.name == "MODIFY")

    def of(self, tag):
        if isinstance(tag, tuple) and tag[0] == "mod":
            return self.mods.get(tag[1], []), "MODIFY"
        return self.assigns.get(tag, []), self.kind.get(tag)


def mirrored(tree, s, res):
    evs = events_of(tree)
    known = {id(e) for _, _, e in evs}
    for loc, var, e in evs:
        res.count("mirrored")
        for a, b in (("definitions", "uses"), ("uses", "definitions"), ("redefines", "redefined_by"), ("redefined_by", "redefines")):
            for o in getattr(e, a):
                if all(x is not e for x in getattr(o, b)):
                    res.violation(f"mirror:{a}", f"{o!r} is among {a} of {e!r} (line {e.node.lineno}), which is not among its {b}", scenario=s)
                    return
                if o.var != e.var:
                    res.violation("mirror:variable", f"{e!r} of {var} is related to {o!r} of {o.var}", scenario=s)
                    return
                if id(o) not in known:
                    res.violation("mirror:unknown", f"{o!r} among {a} of {e!r} is not an event of the program", scenario=s)
                    return
                t, u = (e, o) if a in ("definitions",) else (o, e)
                if a in ("definitions", "uses") and (t.type.name not in ("READ", "MODIFY") or u.type.name not in ("ASSIGN", "REASSIGN", "MODIFY", "DELETE")):
                    res.violation("mirror:types", f"{u!r} is a definition for {t!r}", scenario=s)
                    return


def evaluate(s, res):
    text = s["text"]
    tree = analysed(text)
    if tree is None:
        return
    mirrored(tree, s, res)
    if s["kind"] != "run":
        res.case(text)
        return
    from edulint.linting.analyses.data_dependency import get_assigned_expressions, is_changed_between
    from astroid import nodes
    src = Sources(tree)
    code = compile(text, "m", "exec", dont_inherit=True)
    depth = {i: l for i, l in src.loc.items()}
    at_cache = {}
    for seed in s["runs"]:
        r = random.Random(seed)
        mon = Monitor(r, r.choice([60, 150, 300]), r.choice([0, 0.01, 0.03, 0.06]))
        try:
            with core.time_limit(10):
                mon.execute(code)
        except core.TimeLimit:
            res.count("slow")
            continue
        res.case([text, [(i, str(t)) for _, i, t, _ in mon.flows]])
        last = {}
        for f, i, tag, at in mon.flows:
            if tag is None:
                continue
            sources, kind = src.of(tag)
            reads = src.reads.get(i)
            if not sources or not reads:
                res.error(f"cannot tell the events of the flow {tag} -> {i}: {sources} {reads}\n{text}")
                return
            read = reads[0]
            sources = [e for e in sources if e.var == read.var]
            res.count("flows")
            res.count("flow:" + kind)
            if not sources and kind == "MODIFY":
                continue  # one object captured by patterns of two cases
            if not sources:
                res.violation("variable", f"{read!r} (line {read.node.lineno}) observed the value of {tag}, which is recorded for another variable", scenario=s)
                return
            if not any(x is e for e in sources for x in read.definitions):
                res.violation(f"flow:{kind}", f"the read {i} (line {read.node.lineno}) of {read.var.name} observed the value from {tag}, its definitions are "
                              f"{[(d.type.name, d.node.lineno) for d in read.definitions]}", scenario=s)
                return
            if not any(x is read for e in sources for x in e.uses):
                res.violation(f"use:{kind}", f"the read {i} (line {read.node.lineno}) observed the value from {tag}, it is not among its uses", scenario=s)
                return
            if (i, tag) not in at_cache and kind in src.expr_kinds and tag in src.expr:
                at_cache[i, tag] = True
                res.count("expressions")
                exprs = list(get_assigned_expressions(read.node, include_nodes=[nodes.Arguments, nodes.With, nodes.AsyncWith], include_destructuring=True))
                if not any(x is src.expr[tag] for x in exprs):
                    res.violation(f"expressions:{kind}", f"the read {i} (line {read.node.lineno}) of {read.var.name} observed the value from {tag}, which is not among expressions "
                                  f"assigned: {[x.as_string()[:60] for x in exprs][:6]}", scenario=s)
                    return
                if kind in ("ASSIGN", "unpacked", "walrus") and src.expr[tag].as_string().startswith("w(") and not any(x is src.expr[tag] for x in get_assigned_expressions(read.node, [], False)):
                    res.violation(f"expressions:only:{kind}", f"the read {i} (line {read.node.lineno}) of {read.var.name} observed the value from {tag}, whose expression is not given", scenario=s)
                    return
            # two reads of one variable with different values: it changed in between
            k = (f, read.var)
            prev = last.get(k)
            last[k] = (i, tag, at)
            if prev is not None and prev[0] == i:
                res.count("looped")
            if prev is not None and prev[1] != tag and src.loc[prev[0]] is not src.loc[i] and (prev[0], i, "ch") not in at_cache:
                before, after = src.loc[prev[0]], src.loc[i]
                at_cache[prev[0], i, "ch"] = True
                res.count("changed_between")
                if not is_changed_between(read.var, before, [after]) and not any(e.var == read.var and e.type.name != "READ" for _, e in before.var_events.all()):
                    res.violation("changed_between", f"{read.var.name} changed between reads {prev[0]} and {i} ({prev[1]} -> {tag}), is_changed_between denies it", scenario=s)
                    return
    res.sample({"text": text[:400]})


def scenario(r):
    k = r.random()
    if k < 0.8:
        g = Gen1(r)
        text = g.program(r.choice([3, 6, 10]), r.choice([1, 2, 3]))
        return {"kind": "run", "text": text.replace("match m(", "match subject("), "runs": [r.randrange(1 << 30) for _ in range(6)]}
    if k < 0.9:
        from checks import c13
        return {"kind": "any", "text": c13.Gen(r).program(r.choice([2, 5, 10]))}
    return {"kind": "any", "text": grammar.Gen(r).program(r.choice([3, 8]), r.choice([1, 2, 3]))}


def task(arg):
    warnings.simplefilter("ignore")
    seed, lo, hi = arg
    res = Result()
    for i in range(lo, hi):
        s = scenario(rng_for("C12", seed, i))
        try:
            evaluate(s, res)
        except BaseException as e:
            core.note_exception(res, e, "C12", {"scenario": s})
    return res


def run(ctx):
    res = Result()
    if ctx.replay:
        os.chdir(core.SCRATCH)
        evaluate(ctx.replay["scenario"], res)
        return res
    n = ctx.n(3200, 100000)
    res.merge(core.pmerge(task, [(ctx.seed, i, i + 40) for i in range(0, n, 40)]))
    return res
