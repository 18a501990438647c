"""C13: variables are resolved to the scopes Python resolves them to."""
import ast
import os
import textwrap
import warnings

from vlib import core, edu, grammar, scopes
from vlib.core import Result, rng_for

LEVEL = "exploration"
RULE = ("random programs nesting functions, classes, lambdas and comprehensions over few names with every binding form (plus whole-grammar programs and standard-library definitions); "
        "each recorded variable event is compared with Python's own resolution (cross-checked with symtable); non-trivial = every program; distinct = the program text")
ASSUMPTIONS = ["no type parameters, star imports or mangled private names"]
MINIMUM = {"evaluations": 500, "READ": 20000, "ASSIGN": 10000, "MODIFY": 1000, "DELETE": 300, "in:class": 3000, "in:comp": 3000, "in:lambda": 1500, "nonlocal": 500,
           "global": 500, "enclosing": 3000, "walrus": 200, "unbound": 500, "symtable_blocks": 5000}

NAMES = ["a", "b", "c", "d", "f"]


class Gen:
    def __init__(self, r):
        self.r = r
        self.names = r.sample(NAMES, r.choice([2, 3, 4, 5]))
        if r.random() < 0.1:
            self.names.append(r.choice(["locals", "globals"]))

    def n(self):
        return self.r.choice(self.names)

    def e(self, d=2):
        r = self.r
        if d <= 0:
            return r.choice([self.n(), self.n(), self.n(), "1", "len", "print", "unknown"])
        k = r.randint(0, 21)
        e = lambda: self.e(d - 1)  # noqa
        if k <= 4:
            return self.n()
        if k == 5:
            return f"({e()} + {e()})"
        if k == 6:
            return f"{self.n()}({e()}, *{self.n()}, k={e()})"
        if k == 7:
            return f"{self.n()}{r.choice(['', '', '.x', '[0]', '[0].x', '.x.y[1]'])}.{r.choice(['x', 'append', 'sort', 'update', 'index'])}({e()})"
        if k == 8:
            return f"{self.n()}[{e()}]"
        if k in (9, 10):
            o, c = r.choice(["[]", "{}", "()"])
            return o + e() + self.comp(d) + c
        if k == 11:
            return "{" + e() + ": " + e() + self.comp(d) + "}"
        if k in (12, 13):
            return f"(lambda {self.params(d)}: {e()})"
        if k in (14, 15):
            return f"({self.n()} := {e()})"
        if k == 16:
            return f"({e()} if {e()} else {e()})"
        if k == 17:
            return f"f'{{{self.n()}}}{{{self.n()}!r:>{{{self.n()}}}}}'"
        if k == 18:
            return f"({e()} < {e()} < {e()})"
        if k == 19:
            return f"[{e()}, *{self.n()}][{e()}:{e()}]"
        if k == 20:
            return f"({e()} and not {e()})"
        return f"{self.n()}.x.y[{e()}]"

    def comp(self, d):
        r = self.r
        s = ""
        for _ in range(r.choice([1, 1, 2])):
            s += f" for {self.tgt(0)} in {self.e(d - 1)}"
            if r.random() < 0.4:
                s += f" if {self.e(d - 1)}"
        return s

    def params(self, d, ann=False):
        r = self.r
        ns = r.sample(self.names, r.randint(0, min(3, len(self.names))))
        out, seen_default, star = [], False, False
        for i, x in enumerate(ns):
            k = r.random()
            a = f": {self.e(1)}" if ann and r.random() < 0.3 else ""
            if k < 0.15 and not star:
                out.append(f"*{x}{a}")
                star = True
            elif k < 0.25 and i == len(ns) - 1:
                out.append(f"**{x}{a}")
            elif k < 0.5 or seen_default:
                out.append(f"{x}{a}={self.e(d - 1)}")
                seen_default = not star or seen_default
            else:
                out.append(x + a)
            if k > 0.93 and not star and i == 0:
                out.append("/")
        return ", ".join(out)

    def tgt(self, d=1):
        r = self.r
        k = r.random()
        if k < 0.6 or d < 0:
            return self.n()
        if k < 0.75:
            return f"({self.tgt(d - 1)}, {self.tgt(d - 1)})"
        if k < 0.8:
            return f"[{self.tgt(d - 1)}, *{self.n()}]"
        return r.choice([f"{self.n()}.x", f"{self.n()}[{self.e(0)}]", f"{self.n()}.x[0].y", f"{self.n()}[{self.e(0)}].x"])

    def pattern(self, d=1):
        r = self.r
        k = r.randint(0, 7)
        if k == 0 or d < 0:
            return self.n()
        if k == 1:
            return f"[{self.pattern(d - 1)}, *{self.n()}]"
        if k == 2:
            return f"{{'k': {self.pattern(d - 1)}, **{self.n()}}}"
        if k == 3:
            return f"int({self.pattern(d - 1)}, real={self.pattern(d - 1)})"
        if k == 4:
            return f"(1 | 2) as {self.n()}"
        if k == 5:
            return f"{self.n()}.x"
        if k == 6:
            return "_"
        return "'s'"

    def block(self, d, fn):
        out = []
        for _ in range(self.r.choice([1, 1, 2, 3])):
            out.append(self.stmt(d, fn))
        return textwrap.indent("\n".join(out), "    ")

    def stmt(self, d, fn):
        r = self.r
        k = r.randint(0, 33)
        e = self.e
        if d <= 0:
            k = r.randint(0, 15)
        B = lambda: self.block(d - 1, fn)  # noqa
        if k <= 2:
            return f"{self.n()} = {e()}"
        if k == 3:
            return f"{self.tgt()} = {self.tgt()} = {e()}"
        if k == 4:
            return f"{r.choice([self.n(), self.n() + '.x', self.n() + '[' + e(1) + ']'])} {r.choice(['+', '*', '//'])}= {e()}"
        if k == 5:
            return f"{self.n()}: {e(1)} = {e()}" if r.random() < 0.8 else f"{self.n()}.x: {e(1)} = {e(1)}"
        if k in (6, 7, 8):
            return e(3)
        if k == 9:
            return f"del {r.choice([self.n(), self.n() + '.x', self.n() + '[' + e(1) + ']'])}"
        if k == 10:
            return r.choice([f"import os.path as {self.n()}", f"import {self.n()}.x", f"import {self.n()}", f"from os import path as {self.n()}, {self.n()}", f"import {self.n()}, os as {self.n()}"])
        if k == 11:
            return f"return {e()}" if fn else f"print({e()})"
        if k in (12, 13) and r.random() < 0.3:
            return f"{r.choice(['global', 'nonlocal'])} {', '.join(r.sample(self.names, r.choice([1, 1, 2])))}"
        if k == 14:
            return f"assert {e()}, {e(1)}"
        if k == 15:
            return f"raise {e(1)} from {e(1)}" if r.random() < 0.5 else "pass"
        if k in (16, 17, 18, 19):
            params = self.params(2, True)
            body = self.block(d - 1, True)
            free = [x for x in self.names if not any(x == p.strip(" *").split("=")[0].split(":")[0] for p in params.split(","))]
            if r.random() < 0.4 and free:
                body = f"    {r.choice(['global', 'nonlocal', 'nonlocal'])} {r.choice(free)}\n{body}"
                if r.random() < 0.5:  # something to refer to
                    body = "    " + " = ".join(r.sample(self.names, 2)) + f" = {self.n()}\n    def {self.n()}():\n" + textwrap.indent(body, "    ") + "\n    " + e(1)
            s = f"def {self.n()}({params}){' -> ' + e(1) if r.random() < 0.2 else ''}:\n{body}"
            if r.random() < 0.2:
                s = f"@{e(1)}\n" + s
            return ("async " if r.random() < 0.1 and not s.startswith("@") else "") + s
        if k in (20, 21):
            s = f"class {self.n()}({r.choice(['', self.n(), self.n() + ', metaclass=' + e(1)])}):\n{self.block(d - 1, False)}"
            return f"@{e(1)}\n{s}" if r.random() < 0.2 else s
        if k in (22, 23):
            return f"if {e()}:\n{B()}\nelse:\n{B()}"
        if k in (24, 25):
            return f"for {self.tgt()} in {e()}:\n{B()}"
        if k == 26:
            return f"while {e()}:\n{B()}\nelse:\n{B()}"
        if k in (27, 28):
            return f"try:\n{B()}\nexcept {e(1)} as {self.n()}:\n{B()}\nexcept (ValueError, {self.n()}):\n{B()}\nelse:\n{B()}\nfinally:\n{B()}"
        if k == 29:
            return f"try:\n{B()}\nexcept* {self.n()} as {self.n()}:\n{B()}"
        if k in (30, 31):
            return f"with {e(1)} as {self.tgt()}, {e(1)}:\n{B()}"
        return f"match {e(1)}:\n    case {self.pattern()} if {e(1)}:\n{textwrap.indent(B(), '    ')}\n    case {self.pattern()}:\n{textwrap.indent(B(), '    ')}"

    def program(self, size):
        parts = []
        for _ in range(size):
            t = self.stmt(self.r.choice([1, 2, 3, 4]), False)
            if compiles("\n".join(parts + [t])):
                parts.append(t)
        return "\n".join(parts) + "\n"


def compiles(t):
    try:
        compile(t, "m", "exec", dont_inherit=True)
        return True
    except (SyntaxError, ValueError, RecursionError, MemoryError, OverflowError):
        return False


def scenario(r):
    k = r.random()
    if k < 0.85:
        return {"text": Gen(r).program(r.choice([2, 5, 10]))}
    return {"text": grammar.Gen(r).program(r.choice([3, 8, 15]), r.choice([1, 2, 3]))}


def recorded(text):
    """events the analysis recorded: {(name, kind, position): [(scope key, found at the place of its node)]}; None when it gave up"""
    import astroid
    from astroid import nodes
    from edulint.linting.analyses.patcher import run_analyses
    from edulint.linting.analyses.utils import node_to_event

    edu.fresh_astroid()
    try:
        with core.time_limit(20):
            tree = astroid.parse(text)
    except Exception:  # noqa: astroid's own parser gives up
        return "unparsed"
    run_analyses(tree)
    if not tree.cfg_loc.var_events.successful:
        return None
    blocks = {}

    def rec(n):
        loc = n.__dict__.get("cfg_loc")
        if loc is not None:
            blocks[id(loc.block)] = loc.block
        for c in n.get_children():
            rec(c)

    rec(tree)
    for n in tree.nodes_of_class((nodes.FunctionDef, nodes.ClassDef)):
        if hasattr(getattr(n, "args", None), "cfg_loc"):
            blocks[id(n.args.cfg_loc.block)] = n.args.cfg_loc.block

    def key(s):
        if isinstance(s, nodes.Module):
            return ("module", 0, 0)
        kind = "class" if isinstance(s, nodes.ClassDef) else "function" if isinstance(s, nodes.FunctionDef) else "lambda" if isinstance(s, nodes.Lambda) else "comp"
        return (kind, *start(s))

    def start(n):
        if isinstance(n, (nodes.FunctionDef, nodes.ClassDef)) and n.decorators is not None:
            return (n.position or n).lineno, n.col_offset  # where Python's own ast places it
        return n.lineno, n.col_offset

    def pos(n):
        if isinstance(n, (nodes.FunctionDef, nodes.ClassDef, nodes.Import, nodes.ImportFrom)):
            return ("def", *start(n))
        p = n.parent
        if isinstance(p, (nodes.MatchAs, nodes.MatchStar, nodes.MatchMapping)) or isinstance(p, nodes.ExceptHandler) and p.name is n:
            return ("in", p.lineno, p.col_offset)
        return ("name", n.lineno, n.col_offset)

    out = {}
    for b in blocks.values():
        for loc in b.locs:
            for var, e in loc.var_events.all():
                kind = {"REASSIGN": "ASSIGN"}.get(e.type.name, e.type.name)
                ok = var is e.var or var == e.var
                found = node_to_event(e.node)
                ok = ok and found is not None and (found.var.name == var.name or isinstance(e.node, (nodes.Import, nodes.ImportFrom)))
                out.setdefault((var.name, kind, pos(e.node)), []).append((key(var.scope), ok))
    return out


class Generators(ast.NodeTransformer):
    def visit_ListComp(self, n):
        self.generic_visit(n)
        return ast.GeneratorExp(n.elt, n.generators)

    visit_SetComp = visit_ListComp

    def visit_DictComp(self, n):
        self.generic_visit(n)
        return ast.GeneratorExp(ast.Tuple([n.key, n.value], ast.Load()), n.generators)


def expected(text):
    tree = ast.parse(text)
    r = scopes.Resolver(tree)
    if r.unsupported:
        return None, r
    return r, r


def evaluate(s, res):
    text = s["text"]
    if not text.strip() or all(isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant) for x in ast.parse(text).body):
        return
    exp, r = expected(text)
    if exp is None:
        res.count("unsupported")
        return
    # Python splices most comprehensions into the enclosing block in its tables; generator expressions have the same scopes
    plain = ast.unparse(ast.fix_missing_locations(Generators().visit(ast.parse(text))))
    want_blocks, have_blocks = scopes.from_symtable(plain), scopes.from_resolver(scopes.Resolver(ast.parse(plain)))
    private = any(x.startswith("__") for x, *_ in r.occ)
    if want_blocks != have_blocks:
        if private:
            res.count("unsupported")
            return
        res.count("resolver_disagrees")  # corners of comprehensions; kept rare by the check in run
        return
    res.count("symtable_blocks", len(want_blocks))
    got = recorded(text)
    if got == "unparsed":
        res.count("unsupported")
        return
    if got is None:
        if any(name in ("locals", "globals") and kind == "READ" and sc.resolve(name) is None for name, kind, pos, sc, must in r.occ):
            res.count("unknowable")
        else:
            res.violation("no-events", "the analysis gave up on a program which does not call locals or globals", scenario=s)
        return
    res.case(text)
    want = {}
    for name, kind, pos, sc, must in r.occ:
        if name.startswith("__") and private:
            continue
        t = sc.resolve(name)
        res.count(kind)
        res.count("in:" + sc.kind)
        if t is None:
            res.count("unbound")
            continue
        if t is not sc:
            res.count("global" if name in sc.globals else "nonlocal" if name in sc.nonlocals else "enclosing")
        want.setdefault((name, kind, pos), []).append((t.key, must))
    res.count("walrus", sum(isinstance(n, ast.NamedExpr) for n in ast.walk(ast.parse(text))))
    for k, v in want.items():
        g = got.get(k, [])
        sc = v[0][0]
        musts = sum(m for _, m in v)
        if k[1] == "MODIFY":  # a name may be the base of several accesses
            if musts and not g:
                res.violation(f"missing:{k[1]}", f"{k} of variable of {sc}: no event recorded", scenario=s)
                continue
        elif len(g) != len(v) and not (k[2][0] == "def" and len(g) >= 1 and len(v) >= 1):
            res.violation(f"missing:{k[1]}" if len(g) < len(v) else f"duplicate:{k[1]}", f"{k}: {len(v)} occurrence(s) of the variable of {sc}, {len(g)} recorded {g}", scenario=s)
            continue
        for have, ok in g:
            if have != sc:
                res.violation(f"scope:{k[1]}:{sc[0]}", f"{k}: Python binds it in {sc}, recorded for {have}", scenario=s)
                break
            if not ok:
                res.violation("lookup", f"{k}: the event is not found from its node", scenario=s)
                break
    for k, v in got.items():
        if k not in want and not k[0].startswith("__"):
            res.violation(f"extra:{k[1]}", f"{k} recorded for {v}, where Python has no such occurrence of a variable bound in the program", scenario=s)
    res.sample({"text": text[:300], "events": sum(map(len, got.values()))})


def task(arg):
    warnings.simplefilter("ignore")
    seed, lo, hi = arg
    res = Result()
    for i in range(lo, hi):
        s = scenario(rng_for("C13", seed, i))
        try:
            evaluate(s, res)
        except BaseException as e:
            core.note_exception(res, e, "C13", {"scenario": s})
    return res


def run(ctx):
    res = Result()
    if ctx.replay:
        os.chdir(core.SCRATCH)
        evaluate(ctx.replay["scenario"], res)
        return res
    n = ctx.n(7200, 200000)
    res.merge(core.pmerge(task, [(ctx.seed, i, i + 100) for i in range(0, n, 100)]))
    if res.counts["resolver_disagrees"] > n / 100:
        res.error(f"the resolver of the check disagrees with symtable on {res.counts['resolver_disagrees']} of {n} programs")
    return res
