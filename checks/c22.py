"""C22: structural rules fire exactly on the structures they describe."""
import ast
import os
import re
import warnings

from vlib import core, edu, grammar, ownlint, scopes
from vlib.core import Result, rng_for

LEVEL = "exploration"
RULE = ("random programs of the described structures and near misses of them, nested in every statement, whole-grammar programs and standard-library modules; every message of ten rules "
        "is compared with an independent detector over Python's ast; non-trivial = every program; distinct = the program text")
ASSUMPTIONS = ["async loops, augmented and annotated assignments at top level, and names of star imports or type parameters are left undecided",
               "modification of a global is required to be reported for reachable code only; one in the default, decorator or annotation of a function may count as being in it"]
CODES = ["R6604", "R6605", "R6301", "R6306", "R6401", "R6701", "R6702", "R6206", "E9984", "E9988", "E9992"]
MINIMUM = {"evaluations": 400, "is:R6604": 500, "is:R6605": 450, "is:R6301": 100, "is:R6306": 60, "is:R6401": 800, "is:R6701": 200, "is:R6702": 1000, "is:R6206": 250,
           "is:E9984": 3000, "is:E9988": 7000, "is:E9992": 2000, "not:R6605": 800, "not:R6301": 400, "not:R6306": 80, "not:R6401": 4000, "not:R6702": 2000, "not:E9988": 3500, "not:E9992": 4000}



# ------------------------------------------------------------------ the detector

def is_main(n):
    return (isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and isinstance(n.test.left, ast.Name) and n.test.left.id == "__name__" and len(n.test.ops) == 1
            and isinstance(n.test.ops[0], ast.Eq) and isinstance(n.test.comparators[0], ast.Constant) and n.test.comparators[0].value == "__main__")


class Detector:
    def __init__(self, text):
        self.tree = ast.parse(text)
        self.lines = text.encode().split(b"\n")
        self.must, self.may = {c: {} for c in CODES}, {c: {} for c in CODES}
        self.near = {c: 0 for c in CODES}
        self.res = scopes.Resolver(self.tree)
        self.names_known = not (self.res.unsupported or re.search(r"import \*|\b(locals|globals|exec|eval|vars)\b", text))
        self.bound_at_top = {name for name, kind, pos, sc, must in self.res.occ if sc is self.res.root and kind in ("ASSIGN", "DELETE")}
        self.scope_of = {(s.kind, s.node.lineno, s.node.col_offset): s for s in self.res.root.walk() if s.kind != "module"}
        self.scope_of["module"] = self.res.root
        for n in ast.walk(self.tree):
            for c in ast.iter_child_nodes(n):
                c.parent = n
        self.at_definition = {x.lineno for n in ast.walk(self.tree) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef))
                              for p in ([n.args] if not isinstance(n, ast.ClassDef) else n.bases + n.keywords) + getattr(n, "decorator_list", []) + [getattr(n, "returns", None)] if p for x in ast.walk(p) if hasattr(x, "lineno")}
        for n in ast.walk(self.tree):
            self.look(n)
        self.module()
        self.global_vars()

    def is_elif(self, n):
        return self.lines[n.lineno - 1][n.col_offset:].startswith(b"elif")

    def put(self, kind, code, n, what):
        (self.must if kind == "must" else self.may)[code].setdefault((n.lineno, n.col_offset), set()).add(what)

    def look(self, n):
        if isinstance(n, (ast.For, ast.While, ast.AsyncFor)):
            if n.orelse:
                self.put("may" if isinstance(n, ast.AsyncFor) else "must", "R6604", n, "while" if isinstance(n, ast.While) else "for")
        if isinstance(n, ast.If):
            if len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If):
                if self.is_elif(n.orelse[0]):
                    self.near["R6605"] += 1
                else:
                    self.put("must", "R6605", n.orelse[0], "")
            if len(n.body) == 1 and isinstance(n.body[0], ast.Return):
                if n.orelse:
                    other = n.orelse[0] if len(n.orelse) == 1 else None
                else:
                    other = self.next(n)
                if isinstance(other, ast.Return):
                    if (n.body[0].value is None) != (other.value is None):
                        self.put("must", "R6206", n, "")
                    else:
                        self.near["R6206"] += 1
        if isinstance(n, ast.While):
            if isinstance(n.test, ast.Constant) and n.test.value:
                f = n.body[0]
                if isinstance(f, ast.If) and isinstance(f.body[-1], ast.Break):
                    self.put("may" if any(isinstance(x, ast.Continue) for s in f.body for x in ast.walk(s)) else "must", "R6301", n, ast.unparse(f.test))
                else:
                    self.near["R6301"] += 1
        if isinstance(n, ast.For):
            self.control(n)
        if isinstance(n, (ast.For, ast.AsyncFor, ast.comprehension)):
            for t in leaves(n.target):
                if isinstance(t, (ast.Subscript, ast.Attribute)):
                    self.put("may" if isinstance(n, ast.AsyncFor) else "must", "E9984", t, ast.unparse(t))
                else:
                    self.near["E9984"] += 1
            for t in ast.walk(n.target):
                if isinstance(t, (ast.Subscript, ast.Attribute)):
                    self.put("may", "E9984", t, ast.unparse(t))
        if isinstance(n, ast.comprehension):
            self.shadowing(n)
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            c = count(without_doc(n.body))
            if c > 20:
                self.put("must" if isinstance(n, ast.FunctionDef) else "may", "R6702", n, (n.name, c))
            else:
                self.near["R6702"] += 1

    def next(self, n):
        for f, v in ast.iter_fields(n.parent):
            if isinstance(v, list) and n in v:
                i = v.index(n)
                return v[i + 1] if i + 1 < len(v) else None
        return None

    def control(self, n):
        if not (isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "range" and 1 <= len(n.iter.args) <= 3 and isinstance(n.target, ast.Name)):
            return
        i = n.target.id
        if i.startswith("_"):
            return
        starred = any(isinstance(a, ast.Starred) for a in n.iter.args) or n.iter.keywords
        unreachable = set(dead(self.tree.body))

        def rec(m, nested):
            for c in ast.iter_child_nodes(m):
                if isinstance(c, (ast.For, ast.AsyncFor)):
                    if isinstance(c.target, ast.Name) and c.target.id == i:
                        self.put("may" if nested or starred or isinstance(c, ast.AsyncFor) or not self.names_known or c in unreachable else "must", "R6306", c.target, i)
                    else:
                        self.near["R6306"] += 1
                rec(c, nested or isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)))
        for s in n.body:
            if isinstance(s, (ast.For, ast.AsyncFor)):
                rec(ast.Module([s], []), False)
            else:
                rec(s, isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)))

    def shadowing(self, n):
        # the enclosing function, class or module; None where the comprehension is not inside of its body
        child, m, known = n.parent, n.parent.parent, True
        while True:
            if isinstance(m, ast.Module):
                scope = self.scope_of["module"]
                break
            if isinstance(m, ast.Lambda):
                known = child is m.body
                scope = self.scope_of.get(("lambda", m.lineno, m.col_offset))
                break
            if isinstance(m, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                known = any(child is s for s in m.body)
                scope = self.scope_of.get(("class" if isinstance(m, ast.ClassDef) else "function", m.lineno, m.col_offset))
                break
            child, m = m, m.parent
        for t in leaves(n.target):
            if not isinstance(t, ast.Name) or t.id == "_":
                continue
            if not self.names_known or scope is None or not known or t.id in scope.globals or t.id in scope.nonlocals or t.id.startswith("__"):
                self.put("may", "E9988", t, t.id)
            elif t.id in scope.bound:
                self.put("must" if scope is not self.res.root or t.id in self.bound_at_top else "may", "E9988", t, t.id)
            else:
                self.near["E9988"] += 1

    def module(self):
        for s in without_doc(self.tree.body):
            if isinstance(s, (ast.AugAssign, getattr(ast, "TypeAlias", ast.AugAssign))):
                self.put("may", "E9992", s, str(s.lineno))
            elif isinstance(s, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Assign, ast.AnnAssign)) or is_main(s):
                self.near["E9992"] += 1
            else:
                self.put("must", "E9992", s, str(s.lineno))
        c = count(without_doc(self.tree.body))
        if c > 20:
            self.must["R6701"][(1, 0)] = {c}
        else:
            self.near["R6701"] += 1

    def global_vars(self):
        """name -> (lines of its top-level assignments, lines of its modifications in functions, whether one has to be seen)"""
        self.globals = {}
        occ = self.res.occ
        sure, unsure = set(), set()
        reach(self.tree.body, True, sure, unsure)
        sure -= unsure
        tops = {}
        for name, kind, pos, sc, must in occ:
            if sc is self.res.root and kind == "ASSIGN":
                tops.setdefault(name, set()).add(pos[1])
        for name, lines in tops.items():
            mods = [(pos[1], sc, must and pos[1] in sure) for n2, kind, pos, sc, must in occ if n2 == name and kind in ("ASSIGN", "DELETE", "MODIFY") and sc is not self.res.root
                    and sc.resolve(name) is self.res.root]
            self.globals[name] = (lines, {m[0] for m in mods}, any(must and sc.kind in ("function", "lambda") for _, sc, must in mods), bool(lines & sure))


def reach(stmts, ok, sure, unsure, in_class=False):
    """lines of the statements which are reachable beyond doubt, and of the others"""
    for s in stmts:
        blocks = [(f, v) for f, v in ast.iter_fields(s) if isinstance(v, list) and v and isinstance(v[0], (ast.stmt, ast.ExceptHandler, ast.match_case))]
        first = min((b[0].body[0].lineno if isinstance(b[0], (ast.ExceptHandler, ast.match_case)) else b[0].lineno for _, b in blocks), default=None)
        (sure if ok else unsure).update(range(s.lineno, (s.end_lineno if first is None else max(first - 1, s.lineno)) + 1))
        for f, b in blocks:
            if isinstance(b[0], (ast.ExceptHandler, ast.match_case)):
                for h in b:
                    reach(h.body, ok and not in_class and isinstance(s, ast.Match) and not isinstance(h.pattern, ast.MatchAs), sure, unsure)
            else:
                reach(b, ok and not (in_class and not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef))) and not isinstance(s, (ast.While, ast.Try, ast.TryStar)) and not (isinstance(s, ast.If) and isinstance(s.test, ast.Constant))
                      and not (isinstance(s, ast.For) and f == "orelse"), sure, unsure, isinstance(s, ast.ClassDef))
        if not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for x in inner(s):
                if isinstance(x, (ast.Return, ast.Raise, ast.Break, ast.Continue, ast.While, ast.Try, ast.TryStar)) or isinstance(x, ast.If) and isinstance(x.test, ast.Constant):
                    ok = False


def dead(stmts, all_dead=False):
    """statements which may be unreachable because of a jump before them"""
    for s in stmts:
        if all_dead:
            yield from (x for x in ast.walk(s))
            continue
        for _, v in ast.iter_fields(s):
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                yield from dead(v)
            elif isinstance(v, list) and v and isinstance(v[0], (ast.ExceptHandler, ast.match_case)):
                for h in v:
                    yield from dead(h.body)
        all_dead = ends(s)


def ends(s):
    if isinstance(s, ast.If) and not isinstance(s.test, ast.Constant):
        return bool(s.orelse) and any(map(ends, s.body)) and any(map(ends, s.orelse))
    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
        return False
    return isinstance(s, (ast.If, ast.While)) and isinstance(s.test, ast.Constant) or any(isinstance(x, (ast.Return, ast.Raise, ast.Break, ast.Continue)) for x in inner(s)) and not isinstance(s, (ast.For, ast.While))


def inner(n):
    yield n
    for c in ast.iter_child_nodes(n):
        if not isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
            yield from inner(c)


def leaves(t):
    if isinstance(t, (ast.Tuple, ast.List)):
        for x in t.elts:
            yield from leaves(x)
    elif isinstance(t, ast.Starred):
        yield from leaves(t.value)
    else:
        yield t


def without_doc(body):
    return body[1:] if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str) else body


def count(stmts):
    total = 0
    for s in stmts:
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)) or is_main(s):
            continue
        if isinstance(s, ast.If):
            elif_ = len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If)
            total += 1 + count(s.body) + count(s.orelse) + (1 if s.orelse and not elif_ else 0)
        elif isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            total += 1 + count(s.body) + count(s.orelse) + (1 if s.orelse else 0)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            total += 1 + count(s.body)
        elif isinstance(s, (ast.Try, ast.TryStar)):
            total += 2 + count(s.body) + sum(count(h.body) for h in s.handlers) + count(s.orelse) + count(s.finalbody)
        elif isinstance(s, ast.Match):
            total += 1 + sum(1 + count(c.body) for c in s.cases)
        else:
            total += 1
    return total


# ------------------------------------------------------------------ programs

class Gen:
    """programs of the structures and of near misses of them; all code is reachable"""

    def __init__(self, r):
        self.r = r
        self.names = r.sample(["a", "b", "c", "i", "j", "lst", "_", "_k"], 5)
        self.globals = ["x", "y", "COUNT", "items"]
        self.fn = 0

    def n(self):
        return self.r.choice(self.names)

    def e(self):
        r = self.r
        return r.choice([self.n(), self.n(), str(r.randint(0, 9)), f"{self.n()} + 1", f"{self.n()}[0]", f"{self.n()}.attr", f"f({self.n()})", "'s'", f"not {self.n()}", "[]", r.choice(self.globals)])

    def cond(self):
        r = self.r
        return r.choice([f"{self.n()} < {self.e()}", self.n(), f"{self.n()} == {self.e()} and {self.n()}", f"not {self.n()}", f"f({self.n()}) is None", f"({self.n()} := {self.e()})",
                         f"{self.n()} in (1, 2)", "True", f"{self.n()} < 1 < {self.n()}", f"{self.n()} if {self.n()} else {self.e()}", f"not ({self.n()} or {self.n()})"])

    def target(self, d=1):
        r = self.r
        k = r.randint(0, 13)
        if k <= 5 or d < 0:
            return self.n()
        if k <= 7:
            return f"{self.target(d - 1)}, {self.target(d - 1)}"
        if k == 8:
            return f"({self.target(d - 1)}, [{self.target(d - 1)}, *{self.n()}])"
        return r.choice([f"{self.n()}[0]", f"{self.n()}.attr", f"{self.n()}[{self.n()}[1]]", f"{self.n()}[0].attr", f"{self.n()}.a[{self.n()}]", f"{self.n()}, {self.n()}[1]", f"{self.n()}[1:2]"])

    def comp(self, d=1):
        r = self.r
        o, c = r.choice(["[]", "{}", "()"])
        elt = self.comp(d - 1) if d > 0 and r.random() < 0.25 else self.e()
        gens = "".join(f" for {self.target(0) if r.random() < 0.6 else self.n()} in {self.n()}" + (f" if {self.n()}" if r.random() < 0.2 else "") for _ in range(r.choice([1, 1, 2])))
        if o == "{" and r.random() < 0.4:
            elt = f"{self.e()}: {elt}"
        return o + elt + gens + c

    def rng(self):
        r = self.r
        return r.choice(["range(10)", f"range({self.n()})", f"range(1, {self.n()})", "range(0, 9, 2)", f"range(len({self.n()}))", self.n(), "reversed(range(3))", "range(*a)", f"enumerate({self.n()})", "'ab'"])

    def simple(self, c):
        r = self.r
        k = r.randint(0, 11)
        if k <= 2:
            return f"{self.n()} = {self.e()}"
        if k == 3:
            return f"{self.n()} = {self.comp()}"
        if k == 4:
            return f"print({self.e()})"
        if k == 5:
            return f"{self.n()} {r.choice('+-*')}= {self.e()}"
        if k == 6:
            return f"{self.n()}: int = {self.e()}"
        if k == 7:
            return f"f({self.comp()})"
        if k == 8:
            return f"{self.n()} = lambda {self.n()}: {self.comp(0)}"
        if k == 9:
            return r.choice(["pass", "'''doc'''", f"del {self.n()}", f"assert {self.n()}", "...", "import os", "from sys import path", f"{self.n()}, {self.n()} = {self.e()}, 1", f"({self.n()}) = 1"])
        if k == 10 and c["func"]:
            g = r.choice(self.globals)
            if g in c["glob"]:
                return r.choice([f"{g} = {self.e()}", f"{g} += 1", f"for {g} in {self.n()}: pass", f"print({g})", f"with f() as {g}: pass", f"{g}: list = []" if False else f"print({g})"])
            return r.choice([f"print({g})", f"f({g}[0])", f"{g}[0] = {self.e()}", f"{g}.append({self.e()})", f"{g}.attr = 1", f"f({g}.index(0))", f"print({g} + 1)"])
        return f"{self.n()}.append({self.e()})"

    def leave(self, c):
        """a last statement of a block"""
        r = self.r
        xs = []
        if c["loop"]:
            xs += ["break", "break", "continue"]
        if c["func"]:
            xs += ["return", f"return {self.e()}", "return None"]
        return r.choice(xs) if xs else self.simple(c)

    def ind(self, text, by=None):
        by = by or self.r.choice(["    ", "    ", "    ", "  ", "\t"])
        return "\n".join(by + l if l else l for l in text.split("\n"))

    def block(self, d, c, low=1, high=3):
        r = self.r
        out = [self.stmt(d, c) for _ in range(r.randint(low, high))]
        return "\n".join(out)

    def body(self, d, c, leave=0.0):
        """an indented block, or a single line after the colon"""
        r = self.r
        if r.random() < leave:
            b = self.leave(c)
            if r.random() < 0.4:
                b = self.block(d - 1, c, 1, 2) + "\n" + b
        else:
            b = self.block(d - 1, c)
        if "\n" not in b and not b.startswith(("if ", "for ", "while ", "def ", "with ", "try", "class ", "match ", "async ")) and r.random() < 0.2:
            return " " + b
        return "\n" + self.ind(b)

    def if_(self, d, c):
        r = self.r
        t = f"if {self.cond()}:" + self.body(d, c)
        k = r.randint(0, 6)
        if k <= 1:
            return t
        if k == 2:
            return t + "\nelse:" + self.body(d, c)
        if k == 3:
            return t + f"\nelif {self.cond()}:" + self.body(d, c) + ("\nelse:" + self.body(d, c) if r.random() < 0.5 else "")
        inner = self.if_(d - 1, c) if d > 0 else f"if {self.n()}:\n    pass"
        if k == 4:
            return t + f"\nelif {self.cond()}:" + self.body(d, c) + "\nelse:\n" + self.ind(inner)
        if k == 5:
            return t + "\nelse:\n" + self.ind(inner)
        return t + "\nelse:\n" + self.ind(r.choice([inner + "\n" + self.simple(c), self.simple(c) + "\n" + inner]))

    def returns(self, c):
        r = self.r
        a, b = (r.choice(["return", f"return {self.e()}", "return None", "return"]) for _ in range(2))
        k = r.randint(0, 5)
        t = f"if {self.cond()}:\n    {a}"
        if k == 0:
            return t + f"\nelse:\n    {b}"
        if k == 1:
            return t + f"\nelif {self.cond()}:\n    {b}"
        if k == 2:
            return t + f"\nelif {self.cond()}:\n    {a}\nelse:\n    {b}"
        if k == 3:
            return t + f"\n{self.simple(c)}\n{b}"
        return t + f"\n{b}"

    def stmt(self, d, c):
        r = self.r
        if d <= 0:
            return self.simple(c)
        k = r.randint(0, 19)
        loop = {**c, "loop": True}
        if k <= 4:
            return self.simple(c)
        if k <= 7:
            return self.if_(d, c)
        if k <= 9:
            t = f"for {self.target()} in {self.rng()}:" if r.random() < 0.5 else f"for {r.choice(self.names[:2])} in {self.rng()}:"
            if r.random() < 0.4 and d > 1:
                v, rg = r.choice(self.names), r.choice(["range(10)", f"range({self.n()}, 5)", "range(0, 9, 2)", self.rng()])
                w = r.choice([v, v, v, f"{v}, {self.n()}", f"{v}[0]", self.n()])
                b = f"for {w} in {self.rng()}:" + self.body(d - 2, loop)
                k = r.randint(0, 5)
                if k == 0:
                    b = f"if {self.cond()}:\n" + self.ind(b) + "\nelse:" + self.body(0, loop)
                elif k == 1:
                    b = self.simple(loop) + "\n" + b
                elif k == 2:
                    b = f"for {self.n()} in {self.n()}:\n" + self.ind(self.simple(loop) + "\n" + b)
                elif k == 3:
                    b = f"for {self.n()} in {self.n()}:\n    pass\nelse:\n" + self.ind(b)
                return f"for {v} in {rg}:\n" + self.ind(b) + ("\nelse:\n" + self.ind(f"for {v} in {self.n()}:\n    pass") if r.random() < 0.2 else "")
            return t + self.body(d, loop) + ("\nelse:" + self.body(d, c) if r.random() < 0.3 else "")
        if k <= 11:
            t = "while " + r.choice(["True", "True", "1", "'x'", "...", self.cond(), "not False", "0", "None", "-1", "(True)", "1.5"]) + ":\n"
            b = self.block(d - 1, loop)
            if r.random() < 0.7:
                first = f"if {self.cond()}:" + self.body(d - 1, loop, leave=0.8)
                if r.random() < 0.3:
                    first += "\nelse:" + self.body(d - 1, loop)
                b = first + "\n" + b if r.random() < 0.8 else b + "\n" + first
            return t + self.ind(b) + ("\nelse:" + self.body(d, c) if r.random() < 0.3 else "")
        if k == 12:
            return r.choice([f"with f() as {self.n()}:", "with f():", "with f(), f() as x1:"]) + self.body(d, c)
        if k == 13:
            t = "try:" + self.body(d, c) + r.choice([f"\nexcept ValueError as {self.n()}:", "\nexcept Exception:"]) + self.body(d, c)
            return t + ("\nelse:" + self.body(d, c) if r.random() < 0.3 else "") + ("\nfinally:" + self.body(d, c) if r.random() < 0.3 else "")
        if k == 14:
            return f"match {self.n()}:\n" + self.ind("\n".join(f"case {p}:" + self.body(d - 1, c) for p in r.sample(["1", "[1, 2]", f"{{'k': {self.n()}}}", "str()", f"1 | 2 if {self.n()}"], r.randint(1, 3))))
        if k in (15, 16) and c["func"]:
            return self.returns(c) if r.random() < 0.6 else self.simple(c)
        if k == 17:
            return self.klass(d, c)
        return self.func(d, c)

    def func(self, d, c):
        r = self.r
        self.fn += 1
        g = [x for x in self.globals if r.random() < 0.35]
        inner = {"loop": False, "func": True, "glob": g}
        b = (f"global {', '.join(g)}\n" if g else "") + ("'''doc'''\n" if r.random() < 0.2 and not g else "")
        # lengths around the limit
        if r.random() < 0.5:
            b += self.block(d - 1, inner)
        else:
            want = r.choice([19, 20, 21, 22, 25])
            have = 0
            while have < want:
                s = self.stmt(r.choice([0, 0, 1, 2]) if d > 1 else 0, inner)
                try:
                    k = count(ast.parse("def f_():\n" + self.ind(s, " ")).body[0].body)
                except SyntaxError:
                    continue
                if have + k <= want:
                    b += s + "\n"
                    have += k
            b = b.rstrip("\n")
        if r.random() < 0.4:
            b += "\n" + self.returns(inner) if r.random() < 0.5 else f"\nreturn {self.comp()}"
        dec = r.choice(["", "", "", "@f\n", f"@f({self.comp(0)})\n"])
        params = ", ".join(dict.fromkeys(r.choice(self.names) for _ in range(r.randint(0, 2))))
        if params and r.random() < 0.2:
            params += f"={self.comp(0)}"
        return f"{dec}{'async ' if r.random() < 0.07 else ''}def {r.choice(['f', 'g', 'h'])}{self.fn}({params}):\n" + self.ind(b)

    def klass(self, d, c):
        return f"class K{self.r.randint(0, 9)}:\n" + self.ind(self.block(d - 1, {"loop": False, "func": False, "glob": []}, 1, 3))

    def program(self):
        r = self.r
        top = {"loop": False, "func": False, "glob": []}
        parts = []
        if r.random() < 0.3:
            parts.append("'''module'''")
        for g in self.globals:
            parts.append(r.choice([f"{g} = []", f"{g} = 0", f"{g}: list = []", f"for {g} in range(3): pass", f"with f() as {g}: pass", f"import os as {g}", f"{g}, {g}1 = 1, 2", f"({g} := 3)", f"def {g}(): pass",
                                   f"if a: {g} = 1", f"{g} = {g}1 = []", f"try: {g} = 1\nexcept: pass"]))
        for _ in range(r.randint(2, 5)):
            k = r.random()
            if k < 0.45:
                parts.append(self.func(3, top))
            elif k < 0.55:
                parts.append(r.choice(["if __name__ == '__main__':", "if __name__ == '__main__' and a:", "if '__main__' == __name__:", "if __name__ != '__main__':", "if __name__ == 'main':", 'if __name__ == "__main__":']) + self.body(2, top))
            elif k < 0.65:
                parts += [self.simple(top) for _ in range(r.randint(5, 20))]
            else:
                parts.append(self.stmt(3, top))
        if r.random() < 0.3:
            r.shuffle(parts)
        return "\n".join(parts) + r.choice(["\n", ""])


def library():
    d = os.path.dirname(os.__file__)
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".py"))


def scenario(r):
    k = r.random()
    for _ in range(50):
        reachable = False
        if k < 0.75:
            text = Gen(r).program()
            reachable = "exit" not in text
        elif k < 0.97:
            text = grammar.Gen(r).program(size=r.choice([10, 25]), depth=3)
            if r.random() < 0.3:
                text = grammar.relayout(text, r)
        else:
            f = r.choice(library())
            text = open(f, encoding="utf-8", errors="replace", newline="").read()
            if len(text) > 40000:
                continue
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                compile(text, "m.py", "exec", dont_inherit=True)
        except (SyntaxError, ValueError, RecursionError):
            continue
        if "pylint" in text or "\f" in text or "\r" in text or "\0" in text:
            continue
        return {"text": text, "reachable": reachable}
    return {"text": "pass\n", "reachable": True}


def normal(text):
    from astroid import extract_node

    return extract_node("(" + text + ")").as_string()


def same(a, b):
    """texts of the same expression"""
    if a == b or ":=" in a and re.sub(r"[() ]", "", a) == re.sub(r"[() ]", "", b):
        return True
    try:
        return ast.unparse(ownlint.parse_expr("(" + a + ")")) == b or ast.unparse(ownlint.parse_expr("(" + a + ")")) == ast.unparse(ownlint.parse_expr("(" + b + ")")) or normal(a) == normal(b)
    except Exception:
        return False


def evaluate(s, res):
    text = s["text"]
    d = Detector(text)
    with core.time_limit(60):
        msgs = ownlint.run(text, enable=CODES)
    if any(m["messageId"] in ("E0001", "F0002") for m in msgs):
        res.count("unparsed")
        return
    res.case(text)
    got = {c: {} for c in CODES}
    seen_globals = {}
    for m in msgs:
        c, t = m["messageId"], m["message"]
        if c not in got:
            continue
        if c == "R6604":
            what = re.fullmatch(r"Do not use (\w+) loop with else\.", t).group(1)
        elif c == "R6301":
            what = re.fullmatch(r"The while condition can be replaced with '<negated (.*)>'", t, re.S).group(1)
        elif c == "R6306":
            what = re.fullmatch(r"Inner for loop shadows outer for loop's control variable (\w+)\.", t).group(1)
        elif c == "R6701":
            x = re.fullmatch(r"Too much code outside of functions or classes \((\d+) which is over 20 statements\)\.", t)
            what = int(x.group(1))
        elif c == "R6702":
            x = re.fullmatch(r"Function '(\w+)' is too long \((\d+) which is over 20 statements\)\.", t)
            what = (x.group(1), int(x.group(2)))
        elif c == "E9984":
            what = re.fullmatch(r'For loop or comprehension variable "(.*)" should not be a part of a larger object\.', t, re.S).group(1)
        elif c == "E9988":
            what = re.fullmatch(r"Comprehension variable '(\w+)' shadows a variable in an outer scope", t).group(1)
        elif c == "E9992":
            what = re.fullmatch(r"Forbidden top-level code found on line (\d+)", t).group(1)
        elif c == "R6401":
            x = re.fullmatch(r"Do not use global variables; you use (\w+), modifying it for example at line (\d+)\.", t)
            name, at = x.group(1), int(x.group(2))
            if name in seen_globals:
                res.violation("twice:R6401", f"{name} reported twice", scenario=s)
            seen_globals[name] = m["line"]
            lines, mods, must, top = d.globals.get(name, ((), (), False, False))
            if d.names_known and not name.startswith("__"):
                if m["line"] not in lines:
                    res.violation("place:R6401", f"{t} at line {m['line']}, where the variable is not assigned at top level (it is at {sorted(lines)})", scenario=s)
                if at not in mods | d.at_definition:
                    res.violation("extra:R6401", f"{t}: line {at} does not modify the global variable {name} in a function (lines {sorted(mods)} do)", scenario=s)
            continue
        else:
            what = ""
        place = got[c].setdefault((m["line"], m["column"]), [])
        if what in place and c not in ("E9984", "R6306"):  # a nested target, and a loop in two loops, may be reported twice
            res.violation(f"twice:{c}", f"line {m['line']}: {t} reported twice", scenario=s)
        place.append(what)
    for c in CODES:
        if c == "R6401":
            continue
        res.count("is:" + c, len(d.must[c]))
        res.count("not:" + c, d.near[c])
        for place, whats in d.must[c].items():
            for w in whats:
                if not any(w == g or isinstance(w, str) and same(g, w) for g in got[c].get(place, [])):
                    res.violation(f"missing:{c}", f"line {place[0]} col {place[1]}: the structure is there ({w}), reported there: {got[c].get(place)}", scenario=s)
        for place, gs in got[c].items():
            ok = d.must[c].get(place, set()) | d.may[c].get(place, set())
            for g in gs:
                if not any(w == g or isinstance(w, str) and same(g, w) for w in ok):
                    res.violation(f"extra:{c}", f"line {place[0]} col {place[1]}: reported {g!r}, there is {ok}", scenario=s)
    if d.names_known:
        for name, (lines, mods, must, top) in d.globals.items():
            if must and top and name not in seen_globals and s["reachable"] and top_assigned(d, name):
                res.violation("missing:R6401", f"global variable {name}, assigned at {sorted(lines)}, modified in functions at {sorted(mods)}: not reported", scenario=s)
            res.count("is:R6401" if name in seen_globals else "not:R6401")
    res.sample({"text": text[:300], "messages": len(msgs)})


def top_assigned(d, name):
    """some top-level assignment which is not a definition or import"""
    for n in d.tree.body:
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Try, ast.Match)):
            continue
        for x in ast.walk(n):
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                break
            if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store):
                return not isinstance(n, ast.AnnAssign) or n.value is not None
    return False


def task(arg):
    warnings.simplefilter("ignore")
    seed, lo, hi = arg
    res = Result()
    for i in range(lo, hi):
        s = scenario(rng_for("C22", seed, i))
        try:
            evaluate(s, res)
        except core.TimeLimit:
            res.count("timeout")
        except BaseException as e:
            core.note_exception(res, e, "C22", {"scenario": s})
    return res


def run(ctx):
    res = Result()
    if ctx.replay:
        os.chdir(core.SCRATCH)
        evaluate(ctx.replay["scenario"], res)
        return res
    n = ctx.n(1200, 30000)
    res.merge(core.pmerge(task, [(ctx.seed, i, i + 25) for i in range(0, n, 25)]))
    return res
