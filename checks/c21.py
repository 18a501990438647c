"""C21: what the analyses conclude about expressions is true in executions."""
import ast
import builtins
import copy
import os
import random
import re
import sys
import types as pytypes
import warnings

from checks import c12
from vlib import core
from vlib.core import Result, rng_for

LEVEL = "exploration"
RULE = ("random programs with variables of known types, executed under random values and decisions; at marked places every subexpression is evaluated and compared with the concluded constant, types, purity, "
        "negation, implication, satisfiability and absence of modification; non-trivial = every conclusion compared; distinct = kind of conclusion and the expressions")
ASSUMPTIONS = ["types are compared for expressions of which all operands and all assigned values have concluded types", "comparisons are of totally ordered values (no NaN, no sets), remainders by two are of integers",
               "floats are multiples of 1/4, and nothing is rounded", "attributes and subscripts have no effects of their own"]
MINIMUM = {"evaluations": 3000, "const": 200000, "type": 600000, "pure": 700000, "impure": 20000, "negation": 30000, "same": 25000, "implied": 25000, "unsat": 4000, "unmodified": 10000, "modified": 2000,
           "type:mixed": 7000, "not_negation": 100000}

NAMES = {"int": ["i", "j", "n"], "float": ["x", "y"], "bool": ["b", "c"], "str": ["s", "t"], "list": ["l"], "set": ["q"], "tuple": ["u"], "dict": ["d"]}
TYPES = {int: "INT", float: "FLOAT", bool: "BOOL", str: "STRING", list: "LIST", tuple: "TUPLE", dict: "DICT", set: "SET"}


class Gen:
    def __init__(self, r):
        self.r, self.k, self.fn = r, 0, []
        self.mixed = r.random() < 0.4
        self.seen = []

    def no(self):
        self.k += 1
        return self.k

    def name(self, t):
        if self.mixed and self.r.random() < 0.15:
            t = self.r.choice(list(NAMES))
        return self.r.choice(NAMES[t])

    def const(self, t):
        r = self.r
        return {"int": lambda: r.choice(["0", "1", "2", "3", "4", "5", "7", "-1", "-2", "-3", "10", "-0", "+2", "~2", "100", "0x10", "1_0"]),
                "float": lambda: r.choice(["0.0", "0.5", "1.25", "-2.0", "3.5", "-0.25", "2.", "4e0"]), "bool": lambda: r.choice(["True", "False"]),
                "str": lambda: r.choice(["''", "'a'", "'ab'", "'b'", "'%'", "'A'"]), "list": lambda: r.choice(["[]", "[1]", "[1, 2]", "[0, 'a']"]), "set": lambda: r.choice(["{1}", "{1, 2}", "{2, 3}"]),
                "tuple": lambda: r.choice(["()", "(1,)", "(1, 2)", "('a', 1)"]), "dict": lambda: r.choice(["{}", "{1: 2}", "{'a': 1, 2: 3}"])}[t]()

    def call(self, t):
        """a value known only in an execution, of a known type"""
        return f"{t}(V({self.no()}, '{t}'))"

    def e(self, t, d):
        r = self.r
        if d <= 0 or r.random() < 0.12:
            k = r.random()
            return self.const(t) if k < 0.4 else self.name(t) if k < 0.95 else self.call(t)
        if r.random() < 0.12:
            return r.choice([lambda: f"({self.e(t, d - 1)} if {self.e('bool', d - 1)} else {self.e(t, d - 1)})", lambda: f"({self.e(t, d - 1)} and {self.e(t, d - 1)})", lambda: f"({self.e(t, d - 1)} or {self.e(t, d - 1)})",
                             lambda: f"({self.e(t, d - 1)} or {self.e(r.choice(['int', 'str', 'float']), d - 1)})"])()
        num = lambda: self.e(r.choice(["int", "int", "float", "bool"]), d - 1)  # noqa
        i, f, b, s = (lambda t=t: self.e(t, d - 1) for t in ("int", "float", "bool", "str"))
        l, q, u, m = (lambda t=t: self.e(t, d - 1) for t in ("list", "set", "tuple", "dict"))
        any_ = lambda: self.e(r.choice(list(NAMES)), d - 1) if r.random() < 0.94 else r.choice(["None", "b'a'", "None"])  # noqa
        o = r.choice
        few = lambda: o(["0", "1", "2", "3", "-1", "b", "c", f"({i()} % 3)", f"({i()} % 3)"])  # noqa: no huge numbers and texts
        opts = {
            "int": [lambda: f"({i()} {o(['+', '-', '*', '//', '%', '&', '|', '^', '+', '-', '%'])} {i()})", lambda: f"({i()} {o(['<<', '>>'])} {few()})", lambda: f"({i()} {o(['+', '-', '*', '//', '%', '&', '|', '^', '**'])} {b()})", lambda: f"(-{i()})", lambda: f"(~{i()})",
                    lambda: f"({i()} % {o(['2', '2', '3', '4', '-3'])})", lambda: f"({i()} // {o(['2', '3', '-2'])})", lambda: f"({o(NAMES['int'])} ** {few()})", lambda: f"abs({num()})", lambda: f"len({o([s, l, q, u, m])()})",
                    lambda: f"int({num()})", lambda: f"round({f()})", lambda: f"round({i()})", lambda: f"math.trunc({f()})", lambda: f"trunc({f()})", lambda: f"math.{o(['ceil', 'floor'])}({f()})", lambda: f"ord({s()})", lambda: f"max({i()}, {i()})", lambda: f"min({i()}, {b()})", lambda: f"sum({l()})", lambda: f"{s()}.{o(['count', 'find', 'index'])}('a')",
                    lambda: f"{l()}.count(1)", lambda: f"{l()}.index(1)", lambda: f"{u()}.count(1)", lambda: f"{l()}[{i()}]", lambda: f"{o(NAMES['list'])}.pop()", lambda: f"(+{b()})", lambda: f"pow({o(NAMES['int'])}, {few()})", lambda: f"g{o([1, 2, 3])}()"],
            "float": [lambda: f"({num()} {o(['+', '-', '*'])} {f()})", lambda: f"({f()} {o(['+', '-', '*', '//', '%'])} {num()})", lambda: f"({f()} ** {few()})", lambda: f"({num()} / {o(['2', '4', '8', '0.5'])})", lambda: f"({i()} / {i()})", lambda: f"(-{f()})", lambda: f"abs({f()})",
                      lambda: f"float({num()})", lambda: f"round({f()}, {few()})", lambda: f"round({f()}, ndigits={o(['1', '0'])})", lambda: f"math.{o(['sqrt', 'cos', 'sin', 'radians', 'degrees'])}({num()})", lambda: f"{o(['sqrt', 'cos'])}({num()})", lambda: f"max({f()}, {num()})", lambda: f"sum([{f()}, {f()}])"],
            "bool": [lambda: f"({i()} {o(['<', '<=', '>', '>=', '==', '!='])} {i()})", lambda: f"({num()} {o(['<', '<=', '>', '>=', '==', '!='])} {num()})", lambda: f"({s()} {o(['<', '==', '!=', 'in', 'not in', '>='])} {s()})", lambda: f"(not {any_()})",
                     lambda: f"({b()} and {b()})", lambda: f"({b()} or {b()})", lambda: f"({any_()} and {any_()})", lambda: f"({b()} {o(['&', '|', '^'])} {o([b, b, i])()})", lambda: f"({i()} < {i()} {o(['<', '<=', '=='])} {i()})", lambda: f"({i()} % 2 {o(['==', '!='])} {o(['0', '1', '2'])})",
                     lambda: f"({o(['0', '1'])} {o(['==', '!='])} {i()} % 2)", lambda: f"({any_()} {o(['is', 'is not'])} None)", lambda: f"bool({any_()})", lambda: f"isinstance({any_()}, {o(['int', 'str', 'list'])})", lambda: f"{s()}.{o(['isupper', 'isalpha', 'isdigit', 'startswith', 'endswith'])}()",
                     lambda: f"{s()}.startswith({s()})", lambda: f"({any_()} {o(['in', 'not in'])} {o([l, u, q])()})", lambda: f"any({l()})", lambda: f"all({u()})", lambda: f"{q()}.isdisjoint({q()})"],
            "str": [lambda: f"({s()} + {s()})", lambda: f"({s()} * {few()})", lambda: f"({few()} * {s()})", lambda: f"({s()} % {any_()})", lambda: f"str({any_()})", lambda: f"chr({i()} + 70)", lambda: f"repr({any_()})", lambda: f"{s()}[{i()}:{i()}]", lambda: f"{s()}[{i()}]",
                    lambda: f"{s()}.{o(['upper', 'lower', 'strip', 'title', 'swapcase', 'capitalize'])}()", lambda: f"{s()}.join([{s()}, {s()}])", lambda: f"{s()}.replace('a', {s()})", lambda: f"hex({i()})", lambda: f"f'{{{o(NAMES['int'])}}}'", lambda: f"{s()}.ljust({few()})"],
            "list": [lambda: f"({l()} + {l()})", lambda: f"({l()} * {few()})", lambda: f"[{any_()}, {any_()}]", lambda: f"list({o([s, u, l])()})", lambda: f"sorted({o([s, l, q])()})", lambda: f"{s()}.{o(['split', 'rsplit', 'splitlines'])}()", lambda: f"[z for z in ({o([u, l, s])()})]", lambda: f"{l()}[{i()}:]",
                     lambda: f"{l()}.copy()"],
            "set": [lambda: f"({q()} {o(['|', '&', '^', '-'])} {q()})", lambda: f"{{{i()}, {i()}}}", lambda: f"set({o([s, u])()})", lambda: f"{{z for z in ({o([u, s])()})}}", lambda: f"{q()}.{o(['union', 'difference'])}({q()})"],
            "tuple": [lambda: f"({u()} + {u()})", lambda: f"({u()} * {few()})", lambda: f"({any_()}, {any_()})", lambda: f"tuple({o([s, l])()})", lambda: f"divmod({i()}, {i()})", lambda: f"{s()}.{o(['partition', 'rpartition'])}('a')"],
            "dict": [lambda: f"{{{i()}: {any_()}}}", lambda: f"dict({m()})", lambda: f"{{z: 1 for z in ({u()})}}", lambda: f"({m()} | {m()})", lambda: f"{m()}.copy()"],
        }[t]
        return o(opts)()

    # conditions of integers, floats, booleans, for implications
    def cond(self, d):
        r = self.r
        if d > 0 and r.random() < 0.4:
            k = r.random()
            if k < 0.25:
                return f"not {self.cond(d - 1)}" if r.random() < 0.5 else f"not ({self.cond(d - 1)})"
            return "(" + f" {r.choice(['and', 'or'])} ".join([self.cond(d - 1) for _ in range(r.choice([2, 2, 3]))]) + ")" if r.random() < 0.5 else f"({self.cond(d - 1)} {r.choice(['and', 'or'])} {self.cond(d - 1)})"
        if r.random() < 0.08:
            return r.choice(NAMES[r.choice(["int", "float", "bool"])])
        a = self.lin()
        k = r.random()
        if k < 0.06:
            v, n = r.choice(NAMES["int"] + NAMES["float"]), r.choice([0, 1, -1, 2])
            return f"({n} {r.choice(['<', '<='])} {v} and {v} {r.choice(['<', '<', '<='])} {n + 1})"
        if k < 0.1:
            return f"{r.choice(NAMES['int'])} {r.choice(['+', '//', '*', '-'])} 2 {r.choice(['==', '!='])} {r.choice(['0', '1'])}"
        if k < 0.25:
            return f"{a} % {r.choice(['2', '2', '3', '4', '5'])} {r.choice(['==', '!=', '>', '<='])} {r.choice(['0', '1', '2'])}".replace(a, r.choice(NAMES["int"]), 1)
        other = r.choice([lambda: self.const("int"), lambda: self.const("int"), self.lin, lambda: self.const("float"), lambda: r.choice(NAMES["int"] + NAMES["float"])])()
        return f"{a} {r.choice(['<', '<=', '>', '>=', '==', '!='])} {other}" if r.random() < 0.85 else f"{other} {r.choice(['<', '>='])} {a}"

    def lin(self):
        r = self.r
        v = r.choice([lambda: r.choice(NAMES["int"][:2])] * 4 + [lambda: r.choice(NAMES["float"]), lambda: f"len({r.choice(NAMES['str'])})", lambda: f"abs({r.choice(NAMES['int'] + NAMES['float'])})", lambda: f"{r.choice(NAMES['int'])} // {r.choice(['2', '3'])}",
                      lambda: f"-{r.choice(NAMES['int'])}", lambda: f"{r.choice(NAMES['float'])} / 2", lambda: f"{r.choice(NAMES['int'])} * {r.choice(NAMES['int'])}", lambda: f"({r.choice(NAMES['int'])} + 1) % {r.choice(['2', '3', '-3', 'i'])}", lambda: f"max({r.choice(NAMES['int'])}, 1)"])()
        return v if r.random() < 0.6 else f"{v} {r.choice(['+', '-'])} {r.choice(['1', '2', r.choice(NAMES['int'])])}"

    def related(self, c):
        """another condition, often a negation or consequence of this one"""
        t = ast.parse(c, mode="eval").body
        return ast.unparse(self.relate(t, self.r.random() < 0.6))

    def relate(self, t, negate):
        r = self.r
        if r.random() < 0.06:
            negate = not negate
        if r.random() < 0.05:
            return ast.parse(self.cond(0), mode="eval").body
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.relate(t.operand, not negate) if r.random() < 0.5 else ast.UnaryOp(ast.Not(), self.relate(t.operand, negate))
        if negate and r.random() < 0.2:
            return ast.UnaryOp(ast.Not(), self.relate(t, False))
        if isinstance(t, ast.BoolOp):
            other = ast.Or if isinstance(t.op, ast.And) else ast.And
            values = [self.relate(v, negate) for v in t.values]
            if len(values) > 2 and r.random() < 0.15 or r.random() < 0.1:
                del values[r.randrange(len(values))]
            if len(values) == 1:
                return values[0]
            return ast.BoolOp((other if negate != (r.random() < 0.07) else type(t.op))(), values)
        if isinstance(t, ast.Compare):
            neg = {ast.Lt: ast.GtE, ast.LtE: ast.Gt, ast.Gt: ast.LtE, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
            ops = [(neg[type(o)]() if negate else o) for o in t.ops]
            if r.random() < 0.1:
                ops[0] = r.choice([ast.Lt, ast.GtE, ast.Eq, ast.NotEq])()
            left, right = t.left, list(t.comparators)
            k = r.random()
            if k < 0.12 and isinstance(right[-1], ast.Constant) and isinstance(right[-1].value, (int, float)):
                right[-1] = ast.Constant(right[-1].value + r.choice([1, -1, 1]))
            elif k < 0.17 and len(right) == 1:
                left, right = right[0], [left]
            elif k < 0.25:
                left = ast.UnaryOp(ast.Not(), ast.UnaryOp(ast.Not(), left))
            elif k < 0.3:
                left = ast.parse(f"({r.choice(NAMES['int'])} + 1)", mode="eval").body
            if len(right) == 1 and isinstance(right[0], ast.Constant) and right[0].value in (0, 1) and type(right[0].value) is int and r.random() < 0.4 and negate:
                ops, right = t.ops, [ast.Constant(r.choice([1 - right[0].value] * 3 + [2, -1]))]
            return ast.Compare(left, ops, right)
        return ast.UnaryOp(ast.Not(), t) if negate else t

    def assign(self):
        r = self.r
        t = r.choice(list(NAMES))
        k = r.random()
        if k < 0.2:
            if t in ("bool", "dict"):
                t = "int"
            op = {"int": ["+", "-", "//", "%", "|", "&", ">>"], "float": ["+", "-", "*"], "str": ["+"], "list": ["+"], "set": ["|", "-", "&"], "tuple": ["+"]}[t]
            return f"{r.choice(NAMES[t])} {r.choice(op)}= {self.e(t, 1)}"
        if k < 0.3:
            return r.choice(["l.append({})", "l.insert(0, {})", "d[1] = {}", "l[0] = {}"]).format(self.e("int", 0))
        v = self.e(t, r.choice([0, 1, 2])) if r.random() < 0.6 else self.call(t)
        return f"{self.name(t)} = {v}"

    def change(self):
        """something between two looks at a value"""
        r = self.r
        v = r.choice([x for vs in NAMES.values() for x in vs])
        return r.choice([lambda: self.assign(), lambda: self.assign(), lambda: f"g{r.choice([1, 2, 3, 4])}()", lambda: f"w = g{r.choice([1, 2, 3])}() + 1", lambda: f"w = {self.e('int', 1)}", lambda: f"for {r.choice(NAMES['int'])} in range(3):\n    w = 1", lambda: f"if D({self.no()}):\n    {self.assign()}",
                         lambda: f"{r.choice(NAMES['int'])}, w = 1, 2", lambda: f"w = ({r.choice(NAMES['int'])} := 5)", lambda: f"w = list(map(g{r.choice([5, 6])}, [1, 2]))", lambda: f"with CM({self.no()}) as {r.choice(NAMES['int'])}:\n    pass", lambda: f"w = [{v} for {v} in [7, 8]]",
                         lambda: f"h = lambda {v}: {v}\nh(1)", lambda: f"h = g{r.choice([1, 2, 4])}\nh()", lambda: f"def g7():\n    {v} = 5\ng7()", lambda: f"w = sorted([2, 1], key=g{r.choice([5, 6])})", lambda: f"w = sorted([2, 1], key=lambda v: g{r.choice([1, 3, 5, 6])}(*[v][:0]) and 1)",
                         lambda: f"if D({self.no()}):\n    def g8():\n        return 1\nelse:\n    def g8():\n        return g{r.choice([1, 2, 3])}()\ng8()", lambda: "pass", lambda: "w = 1",
                         lambda: f"while D({self.no()}):\n    {r.choice(NAMES['int'])} += 1"])()

    def look(self):
        r = self.r
        k = r.random()
        if k < 0.45:
            return f"P({self.no()}, {self.e(r.choice(list(NAMES)), r.choice([1, 2, 3]))})"
        if k < 0.8:
            c = self.cond(r.choice([0, 1, 2])) if r.random() < 0.75 else self.e("bool", r.choice([1, 2]))
            cs = [c, self.related(c), self.related(c)]
            if r.random() < 0.3:
                cs.append(self.cond(1))
            return f"P({self.no()}, {', '.join(cs)})"
        n = self.no()
        v = r.choice([x for t, vs in NAMES.items() for x in vs if t in ("int", "float", "bool", "str", "tuple")]) if r.random() < 0.75 else self.e(r.choice(["int", "bool", "float", "str"]), 1)
        return f"B({n}, {v})\n" + "\n".join(self.change() for _ in range(r.choice([1, 1, 2, 3]))) + f"\nE({n}, {v})"

    def block(self, n, d):
        out = []
        for _ in range(n):
            k = self.r.random()
            if d > 0 and k < 0.12:
                out.append(f"if {'D(%d)' % self.no() if self.r.random() < 0.6 else self.e('bool', 1)}:\n" + ind(self.block(2, d - 1)) + ("\nelse:\n" + ind(self.block(2, d - 1)) if self.r.random() < 0.4 else ""))
            elif d > 0 and k < 0.2:
                out.append(f"for {self.r.choice(NAMES['int'])} in range({self.r.choice(['3', '2', '1, 4', 'len(s)', '3, 0, -1'])}):\n" + ind(self.block(2, d - 1)))
            elif d > 0 and k < 0.24:
                out.append(f"while D({self.no()}):\n" + ind(self.block(2, d - 1)))
            elif k < 0.4:
                out.append(self.assign())
            else:
                out.append(self.look())
        return "\n".join(out)

    def program(self):
        r = self.r
        imports = "import math\nfrom math import sqrt, cos, trunc\n" if r.random() < 0.85 else "class math:\n    sqrt = trunc = cos = sin = radians = degrees = str\n\n\ndef sqrt(v):\n    return [v]\n\n\ncos = trunc = str\n"
        first = [f"{v} = {self.call(t) if r.random() < 0.75 else self.const(t)}" for t, vs in NAMES.items() for v in vs]
        r.shuffle(first)
        inner = r.random() < 0.7
        self.elsewhere = r.random() < 0.6
        word = "nonlocal" if inner else "global"
        ch = [r.choice(["i", "j", "n", "x", "b", "s"]) for _ in range(6)]
        gs = [f"def g1():\n    {word} {ch[0]}\n    {ch[0]} = {ch[0]}\n    {ch[0]} = {r.choice(['3', '-1', '2.5', repr('ab')]) if self.mixed else self.const({'i': 'int', 'j': 'int', 'n': 'int', 'x': 'float', 'b': 'bool', 's': 'str'}[ch[0]])}\n    return 1",
              "def g2():\n    return g1()" if r.random() < 0.4 else f"def g2():\n    {ch[1]} = 4\n    return {ch[1]}", "def g3():\n    return 2", f"g4 = lambda: g{r.choice([1, 2, 3])}()",
              f"def g5(v):\n    {word} {ch[2]}\n    {ch[2]} = {self.const({'i': 'int', 'j': 'int', 'n': 'int', 'x': 'float', 'b': 'bool', 's': 'str'}[ch[2]])}\n    return v", "def g6(v):\n    return v"]
        if not self.elsewhere:
            gs = [re.sub(fr"    {word} .*\n", "", g) if "n = n" not in g and "= " in g else g for g in gs[1:]] + ["def g1():\n    return 1"]
        if r.random() < 0.2:
            gs.append(f"def {r.choice(['abs', 'len', 'max', 'min', 'round', 'int', 'str', 'sum', 'sorted', 'ord', 'float', 'chr', 'isinstance'])}(*v):\n    T()\n    return {r.choice(['1', repr('a'), '2.5', '[]'])}")
        body = "\n".join(first) + "\n" + "\n".join(gs) + "\n" + self.block(r.choice([4, 8, 12]), 2)
        return imports + (f"\n\ndef f():\n{ind(body)}\n\n\nf()\n" if inner else body + "\n")


def ind(s):
    return "\n".join("    " + x for x in s.split("\n"))


class Stop(BaseException):
    pass


class Strip(ast.NodeTransformer):
    """the marks get only their number"""
    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id in ("P", "B", "E"):
            n.args = n.args[:1]
            return n
        return self.generic_visit(n)


class World:
    def __init__(self, seed, looked, budget=400):
        r = random.Random(seed)
        self.names, left = {}, [budget]

        def tick():
            left[0] -= 1
            if left[0] < 0:
                raise Stop()

        def V(_k, t):
            tick()
            return {"int": lambda: r.choice([0, 1, 2, 3, -1, -2, 4, 5, 7, -5, 10]), "float": lambda: r.choice([0.0, 1.0, 0.25, -0.5, 2.5, -3.0, 4.0, 1.25]), "bool": lambda: r.random() < 0.5, "str": lambda: r.choice(["", "a", "ab", "B", "ba"]),
                    "list": lambda: r.choice([[], [1], [1, 2, 3], [0]]), "set": lambda: r.choice([[], [1], [1, 2], [2, 5]]), "tuple": lambda: r.choice([[], [1], [1, 2]]), "dict": lambda: r.choice([{}, {1: 2}, {"a": 1}])}[t]()

        def D(_k):
            tick()
            return r.random() < 0.5

        class CM:
            def __init__(self, _k):
                pass

            def __enter__(self):
                return 9

            def __exit__(self, *_):
                return False

        def mark(what):
            def m(k):
                tick()
                fr = sys._getframe(1)
                looked(what, k, fr)
            return m

        self.effects = 0

        def T():
            self.effects += 1

        self.names.update(V=V, D=D, CM=CM, T=T, P=mark("P"), B=mark("B"), E=mark("E"))


def same(a, b):
    return type(a) is type(b) and repr(a) == repr(b)


class Source:
    """conclusions about the marked expressions"""

    def __init__(self, text, tree):
        from astroid import nodes
        from edulint.linting.analyses import types as T, utils as U, mutability as M, z3_analysis as Z
        self.P, self.exprs, self.marks, self.between = {}, {}, {}, {}
        self.guess, self.U, self.T, self.Z = T.guess_type, U, T, Z
        self.nodes = nodes
        self.lines = text.split("\n")
        self.elsewhere = {x for s in tree.nodes_of_class((nodes.Nonlocal, nodes.Global)) for x in s.names}
        begins = {}
        for c in tree.nodes_of_class(nodes.Call):
            if not (isinstance(c.func, nodes.Name) and c.func.name in ("P", "B", "E")):
                continue
            k, what = c.args[0].value, c.func.name
            if what == "P":
                self.P[k] = [self.describe(e) for a in c.args[1:] for e in self.subs(a)], self.pairs(c.args[1:])
            elif what == "B":
                begins[k] = c
            else:
                b = begins[k].parent
                body = [s for s in b.parent.get_children()]
                seq = body[body.index(b) + 1:body.index(c.parent)]
                if U.is_pure_expression(c.args[1]):
                    self.between[k] = (compiled(self.text(c.args[1])), M.vars_from_node_may_be_modified_in(begins[k].args[1], seq), self.text(c.args[1]))

    def text(self, e):
        assert e.lineno == e.end_lineno
        return f"({self.lines[e.lineno - 1][e.col_offset:e.end_col_offset]})"

    def subs(self, e):
        n = self.nodes
        yield e
        if isinstance(e, (n.ListComp, n.SetComp, n.DictComp, n.GeneratorExp, n.Lambda, n.JoinedStr)):
            return
        for c in e.get_children():
            if isinstance(c, n.NodeNG) and not isinstance(c, (n.Keyword, n.Slice)):
                yield from self.subs(c)

    def known(self, e, seen=()):
        """the types of everything the type follows from are concluded"""
        n = self.nodes
        if e in seen:
            return True
        if isinstance(e, n.AugAssign):
            return self.known(e.target, seen + (e,)) and self.known(e.value, seen + (e,))
        if isinstance(e, (n.Name, n.AssignName)):
            from edulint.linting.analyses.data_dependency import get_assigned_expressions
            if U_builtin(self.U, e) or e.name in self.elsewhere:
                return False
            for d in self.U.node_to_event(e).definitions:
                if d.type.name == "MODIFY" and d.node is not e and not self.known(d.node, seen + (e,)):
                    return False
            whole = list(get_assigned_expressions(e, include_nodes=[], include_destructuring=False))
            every = list(get_assigned_expressions(e, include_nodes=[n.For, n.Comprehension, n.With, n.AsyncFor, n.Arguments], include_destructuring=True))
            for a in every:
                if isinstance(a.parent, n.For):
                    if self.U.get_range_params(a) is None:
                        return False
                elif not any(a is w for w in whole):
                    return False
                elif not self.known(a.parent if isinstance(a.parent, n.AugAssign) else a, seen + (e,)):
                    return False
            return bool(every) or self.guess(e) is not None
        if isinstance(e, n.BinOp):
            return self.known(e.left, seen + (e,)) and self.known(e.right, seen + (e,)) and self.guess(e) is not None
        if isinstance(e, n.BoolOp):
            return all(self.known(v, seen + (e,)) for v in e.values)
        if isinstance(e, n.IfExp):
            return self.known(e.body, seen + (e,)) and self.known(e.orelse, seen + (e,))
        if isinstance(e, n.UnaryOp):
            return self.known(e.operand, seen + (e,))
        if isinstance(e, n.Call):
            if isinstance(e.func, n.Attribute):
                return self.known(e.func.expr, seen + (e,)) and self.guess(e) is not None
            if isinstance(e.func, n.Name) and e.func.name in ("abs", "round"):
                return all(self.known(a, seen + (e,)) for a in e.args) and self.guess(e) is not None
        return self.guess(e) is not None

    def describe(self, e):
        """(text, code, constant, types, pure)"""
        t = self.guess(e)
        if t is not None and not self.known(e):
            t = None
        return self.text(e), compiled(self.text(e)), self.U.get_const_value(e), None if t is None else {x.name for x in t.get()}, self.U.is_pure_expression(e)

    def mod_two(self, e):
        return any(isinstance(x, self.nodes.BinOp) and x.op == "%" and not ((t := self.guess(x.left)) is not None and t.has_only([self.T.Type.INT, self.T.Type.BOOL]) and self.known(x.left)) for x in self.subs(e))

    def pairs(self, args):
        out = []
        ok = [a for a in args if self.U.is_pure_expression(a)]
        for i, a in enumerate(ok):
            out.append(("sat", self.text(a), None, compiled(self.text(a)), None, self.attempt(self.Z.sat_condition, a)))
            for b in ok[i + 1:]:
                for x, y in ((a, b), (b, a)):
                    cs = self.text(x), self.text(y), compiled(self.text(x)), compiled(self.text(y))
                    if not self.mod_two(x) and not self.mod_two(y):
                        out.append(("negation", *cs, self.U.is_negation(x, y, False)))
                        out.append(("same", *cs, self.U.is_negation(x, y, True)))
                    if self.rounded(x) or self.rounded(y):
                        continue
                    out.append(("implied", *cs, self.implies(x, y)))
        return out

    def rounded(self, e):
        return any(isinstance(x, self.nodes.BinOp) and x.op in ("/", "**") and not (x.op == "/" and self.U.get_const_value(x.right) in (2, 4, 8, 0.5)) for x in self.subs(e)) or not all(self.known(x) for x in self.subs(e) if isinstance(x, self.nodes.Name) and not U_builtin(self.U, x))

    def attempt(self, f, *a):
        return f(*a)

    def implies(self, x, y):
        vs = {}
        if not (self.Z.initialize_variables(x, vs, False, None) and self.Z.initialize_variables(y, vs, False, None)):
            return False
        cx, _ = self.Z.convert_condition_to_z3_expression(x, vs, None)
        cy, _ = self.Z.convert_condition_to_z3_expression(y, vs, None)
        return cx is not None and cy is not None and self.Z.implies(cx, cy)


def U_builtin(U, e):
    return e.name in vars(builtins) and U.is_builtin(e)


def compiled(text):
    return compile(text, "<e>", "eval")


def value(code, env):
    try:
        return True, eval(code, env)
    except Exception:
        return False, None


def evaluate(s, res):
    import astroid  # noqa
    text = s["text"]
    res.case()
    tree = c12.analysed(text)
    if tree is None:
        res.count("unanalysed")
        return
    src = Source(text, tree)
    code = compile(ast.fix_missing_locations(Strip().visit(ast.parse(text))), "<p>", "exec")
    found = []

    world = []

    def bad(key, msg):
        found.append((key, msg))
        raise Stop()

    before = {}

    def env_of(fr):
        def cp(v):
            return v if callable(v) or isinstance(v, pytypes.ModuleType) else copy.deepcopy(v)
        return {**{k: v if fr.f_globals is not fr.f_locals else cp(v) for k, v in fr.f_globals.items() if k not in ("P", "B", "E", "V", "D")}, **{k: cp(v) for k, v in fr.f_locals.items()}, "V": lambda _k, t: touched([1, 2]), "D": lambda _k: touched(True)}

    def touched(v):
        world[-1].effects += 1
        return v

    def state(env):
        return str(world[-1].effects) + repr(sorted((k, repr(v)) for k, v in env.items() if not k.startswith("__") and not callable(v)))

    cells = {}

    def looked(what, k, fr):
        if what == "B":
            if k in src.between:
                before[k, id(fr)] = value(src.between[k][0], env_of(fr))
            return
        if what == "E":
            if k in src.between and (k, id(fr)) in before:
                c, may, t = src.between[k]
                was, now = before[k, id(fr)], value(c, env_of(fr))
                res.count("modified" if may else "unmodified")
                if not may and was[0] and now[0] and not same(was[1], now[1]):
                    bad("unmodified", f"`{t}` is concluded unmodified between B and E {k}, it changed from {was[1]!r} to {now[1]!r}")
            return
        described, pairs = src.P[k]
        env = env_of(fr)
        outer = {n: env[n] for n in env if callable(env[n]) and n.startswith("g")}
        for n in outer:
            env[n] = lambda *_: touched(1)
        for t, c, const, types, pure in described:
            untouched = state(env)
            ok, v = value(c, env)
            after = state(env)
            if pure:
                res.count("pure")
                again = value(c, env)
                if state(env) != untouched or again[0] != ok or (ok and not same(v, again[1]) and not callable(v) and "object at" not in repr(v)):
                    bad("pure", f"`{t}` is concluded pure; evaluating it gives {v!r} and then {again[1]!r}, state {'changed' if after != untouched else 'unchanged'}")
            elif after != untouched:
                res.count("impure")
                env = {**env_of(fr), **{n: env[n] for n in outer}}
            if not ok:
                continue
            if const is not None:
                res.count("const")
                res.distinct.add("const" + t)
                if not same(const, v):
                    bad("const", f"`{t}` is {v!r}, concluded is the constant {const!r}")
            if types is not None and not callable(v):
                res.count("type")
                res.distinct.add("type" + t)
                if len(types) > 1:
                    res.count("type:mixed")
                if TYPES.get(type(v), "MODULE" if isinstance(v, pytypes.ModuleType) else "") not in types:
                    bad("type:" + type(ast.parse(t, mode="eval").body).__name__, f"`{t}` is {v!r}, concluded are the types {sorted(types)}; variables {[(n, env[n]) for n in sorted({x.id for x in ast.walk(ast.parse(t)) if isinstance(x, ast.Name)}) if n in env]}")
        env = {**env_of(fr), **{n: env[n] for n in outer}}
        for kind, t1, t2, c1, c2, claim in pairs:
            ok, v = value(c1, env)
            if not ok:
                continue
            if kind == "sat":
                if claim is False:
                    res.count("unsat")
                    res.distinct.add(("sat" + t1))
                    if v:
                        bad("sat", f"`{t1}` is concluded unsatisfiable, its value is {v!r}; {state(env)}")
                continue
            ok, w = value(c2, env)
            if not ok:
                continue
            if not claim:
                res.count("not_" + kind)
                continue
            res.count(kind)
            res.distinct.add(kind + t1 + "|" + t2)
            if {"negation": bool(v) == bool(w), "same": bool(v) != bool(w), "implied": bool(v) and not w}[kind]:
                bad(kind, f"`{t1}` and `{t2}` are concluded to be {kind}; the values are {v!r} and {w!r}; {state(env)}")

    for run in s["runs"]:
        w = World(run, looked)
        world.append(w)
        g = dict(w.names, __name__="prog")
        before.clear()
        try:
            with core.time_limit(20):
                exec(code, g)
        except Stop:
            pass
        except (Exception, core.TimeLimit):
            res.count("raised")
        if found:
            res.violation(found[0][0], found[0][1], scenario=s)
            return
    res.sample({"text": text[-400:]})


def scenario(r):
    return {"text": Gen(r).program(), "runs": [r.randrange(1 << 30) for _ in range(8)]}


def task(arg):
    warnings.simplefilter("ignore")
    seed, lo, hi = arg
    res = Result()
    for i in range(lo, hi):
        s = scenario(rng_for("C21", seed, i))
        try:
            evaluate(s, res)
        except BaseException as e:
            core.note_exception(res, e, "C21", {"scenario": s})
    return res


def run(ctx):
    warnings.simplefilter("ignore")
    res = Result()
    if ctx.replay:
        os.chdir(core.SCRATCH)
        evaluate(ctx.replay["scenario"], res)
        return res
    n = ctx.n(3600, 90000)
    res.merge(core.pmerge(task, [(ctx.seed, i, i + 30) for i in range(0, n, 30)]))
    return res
