"""C15: local rewrite suggestions keep the behaviour of the code."""
import ast
import copy
import itertools
import operator
import os
import re
import warnings

from vlib import core, ownlint
from vlib.core import Result, rng_for

from checks.c09 import NotApplicable, replace_expr, shifted, where

LEVEL = "exploration"
RULE = ("random functions over integers, booleans, strings and lists with expressions and statements of the shapes the messages speak about and near misses of them; each suggestion is carried out on Python's own tree and both "
        "versions are run on a grid of inputs, comparing results, printed values, lists and raised exceptions (or, where a message names no replacement, the reported expression is evaluated); non-trivial = every suggestion; distinct = function and suggestion")
ASSUMPTIONS = ["numbers in integer division are not negative and small, operands compared with True and False are bool, numbers and strings are what arithmetic is done with",
               "a letter instead of its code is judged by the code of the letter and the direction of the comparison"]
CODES = ["R6601", "R6602", "R6607", "R6608", "R6609", "R6610", "R6611", "R6612", "R6613", "R6614", "R6615", "R6616", "R6617", "R6618", "R6619"]
MINIMUM = {"evaluations": 6000, "runs": 150000}
MINIMUM.update({c: 150 for c in CODES})
MINIMUM.update({"R6617": 80, "R6618": 100, "R6619": 40})

BOOLS, NUMS, STRS, LISTS = ["a", "b", "c"], ["x", "y", "z"], ["s", "t"], ["l", "q"]
PARAMS = "a, b, c, x, y, z, s, t, l, q, o"


class Gen:
    def __init__(self, r):
        self.r = r
        self.k = 0

    def tick(self):
        self.k += 1
        return self.k

    def num(self, d=1):
        r = self.r
        k = r.random()
        if d <= 0 or k < 0.55:
            return r.choice(NUMS + ["o.n", "1", "2", "7"]) if k < 0.5 else r.choice(NUMS)
        return r.choice([f"{self.num(0)} + {self.num(0)}", f"{self.num(0)} - {self.num(0)}", f"{self.num(0)} * {r.choice(['1', '2', '7', 'z', 'z'])}", f"-{self.num(0)}", f"len({r.choice(STRS)})", f"abs({self.num(0)})", f"f({self.num(0)})",
                         f"({self.num(0)} if {r.choice(BOOLS)} else {self.num(0)})", f"l[0]", f"max({self.num(0)}, {self.num(0)})", f"next(o.it)", f"int({r.choice(NUMS)})", f"({self.num(0)} or 2)"])

    def paren(self, e):
        return e if re.fullmatch(r"[\w.]+|[\w.]+\([^()]*\)|l\[0\]", e) else f"({e})"

    def cond(self):
        r = self.r
        return r.choice([r.choice(BOOLS), f"{r.choice(NUMS)} {r.choice(['<', '<=', '>', '>=', '==', '!='])} {r.choice(NUMS + ['0', '1', '3'])}", f"not {r.choice(BOOLS)}", f"{r.choice(BOOLS)} and {r.choice(BOOLS)}",
                         f"{r.choice(BOOLS)} or {r.choice(NUMS)} > 1", f"{r.choice(NUMS)} % {r.choice([2, 3])} == {r.choice([0, 1])}", f"{r.choice(NUMS)} in (1, 2)", f"{r.choice(STRS)} is None", f"{r.choice(STRS)} == ''",
                         f"isinstance({r.choice(NUMS)}, int)", f"0 < {r.choice(NUMS)} < 3", f"{r.choice(NUMS)} is {r.choice(NUMS)}", f"{r.choice(NUMS)} not in (1, 2)", f"f({r.choice(BOOLS)})", f"l", f"{r.choice(NUMS)}"])

    def negated(self, c):
        """a condition which is, or looks like, the negation"""
        r = self.r
        neg = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}
        m = re.fullmatch(r"(\w+) (<|<=|>|>=|==|!=) (\w+)", c)
        k = r.random()
        if m and k < 0.75:
            op = neg[m[2]] if r.random() < 0.75 else r.choice(list(neg))
            sw = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}
            return f"{m[1]} {op} {m[3]}" if r.random() < 0.6 else f"{m[3]} {sw[op]} {m[1]}"
        if c.startswith("not ") and k < 0.7:
            return c[4:]
        m = re.fullmatch(r"(.*) % (\d) == (\d)", c)
        if m and k < 0.7:
            return r.choice([f"{m[1]} % {m[2]} != {m[3]}", f"{m[1]} % {m[2]} == {1 - int(m[3])}", f"{m[1]} % {m[2]} == {r.randint(0, 2)}"])
        if " and " in c and k < 0.4:
            p, q = c.split(" and ")
            return r.choice([f"not {p} or not {q}", f"not {p} and not {q}", f"not ({c})"])
        if " in (" in c and k < 0.5:
            return c.replace(" not in ", " in ") if " not in " in c else c.replace(" in ", " not in ")
        if " is " in c and k < 0.5:
            return c.replace(" is ", " is not ")
        if k < 0.85:
            return f"not {c}" if re.fullmatch(r"\w+|f\(\w\)|isinstance\(.*\)", c) else f"not ({c})"
        return self.cond()

    def simple(self):
        r = self.r
        return r.choice([f"p({self.tick()})", f"p({self.tick()}, {r.choice(NUMS)})", f"x = {self.num()}", "y += 1", f"r = {self.num()}", f"l.append({self.num(0)})", f"s = {r.choice(STRS)}", f"a = {r.choice(BOOLS)}"])

    # ------------------------------------------------------ expressions

    def expr(self):
        r = self.r
        return r.choice([self.div, self.repeated, self.redundant, self.is_bool, self.ord_arith, self.ord_compare, self.in_range, self.in_range, self.times_list, self.redundant])()

    def div(self):
        r = self.r
        return r.choice([f"int({self.paren(self.num())} / {self.paren(self.num())})"] * 4 + [f"int({self.num(0)} // {self.num(0)})", f"int({self.num(0)} / {self.num(0)} + {self.num(0)})", f"int(({self.num()}) / {self.num(0)} / {self.num(0)})",
                        f"int(-{self.num(0)} / {self.num(0)})", f"int(({self.num(0)} / {self.num(0)}) * 1)", f"int({self.num(0)} + {self.num(0)} / {self.num(0)})", f"float({self.num(0)} / {self.num(0)})", f"round({self.num(0)} / {self.num(0)})"])

    def repeated(self):
        r = self.r
        v = r.choice(NUMS + ["o.n", "l[0]", "o.o.n", "l[x]", "(x)"])
        w = v if r.random() < 0.75 else r.choice(NUMS + ["o.n", "l[1]", "1", "len(s)"])
        op = r.choice("+**+-")
        n = r.choice([2, 2, 3, 3, 4])
        parts = [v] * n
        if v != w:
            parts[r.randrange(n)] = w
        op2 = op if r.random() < 0.9 else r.choice("+*-")

        def join(ps):
            if len(ps) == 1:
                return ps[0]
            i = r.randrange(1, len(ps)) if r.random() < 0.4 else len(ps) - 1
            lt, rt = join(ps[:i]), join(ps[i:])
            if len(ps[:i]) > 1 and op2 != op:
                lt = f"({lt})"
            o = op if len(ps) == n else op2
            return f"{lt} {o} " + (f"({rt})" if len(ps[i:]) > 1 else rt)
        return join(parts)

    def redundant(self):
        r = self.r
        e = self.paren(self.num())
        k = r.choice(["0", "1", "0", "1", "2", "-1", "0.0", "1.0", "''", "'a'", "(1 - 1)", "-0", "True", "False"])
        op = r.choice(["+", "-", "*", "/", "//", "%", "**"])
        if "'" in k:
            e, op = r.choice(STRS), "+"
        if op in ("/", "//", "%") and r.random() < 0.5:
            return f"{e} {op} {e}"
        return f"{e} {op} {k}" if r.random() < 0.6 else f"{k} {op} {e}"

    def is_bool(self):
        r = self.r
        e = r.choice(BOOLS + ["(a or b)", "(a and b)", "(x < y)", "o.flag", "u(a)", "(not a)", "(a if b else c)", "(a == b)", "(a or x < y)", "bool(x)", "(lambda: a)()", "isinstance(x, int)"])
        v = r.choice(["True", "False"])
        return r.choice([f"{e} is {v}", f"{e} is {v}", f"{e} is not {v}", f"{e} is not {v}", f"{v} is {e}", f"{e} == {v}", f"{r.choice(BOOLS)} is {e} is {v}", f"{e} is {v} is {v}", f"{e} is None", f"{e} is not 1"])

    def code(self):
        return self.r.choice(["97", "122", "65", "90", "48", "57", "96", "98", "121", "123", "64", "66", "89", "91", "47", "49", "56", "58", "32", "126", "127", "31", "100", "5", "0x61", "(96 + 1)", "True", "97.0", "39", "92"])

    def ord_arith(self):
        r = self.r
        o = r.choice(["ord(s[0])", "ord(t[0])", "ord('b')", "(ord(s[0]) + x)", "(ord(s[0]) - ord(t[0]))", "len(s)"])
        op = r.choice("+-+-*")
        e = f"{o} {op} {self.code()}" if r.random() < 0.65 else f"{self.code()} {op} {o}"
        k = r.random()
        if k < 0.2:
            return f"chr(({e}) % 26 + {self.code()})"
        if k < 0.4:
            return f"{e} {r.choice('+-')} {r.choice([self.code(), 'x'])}"
        return e

    def ord_compare(self):
        r = self.r
        o = r.choice(["ord(s[0])", "ord(t[0])", "ord(s[0])", "ord(s[0]) + 1", "(ord(s[0]) - 2)", "len(s)"])
        ops = ["<", "<=", ">", ">=", "==", "!="]
        k = r.random()
        if k < 0.4:
            return f"{o} {r.choice(ops)} {self.code()}"
        if k < 0.65:
            return f"{self.code()} {r.choice(ops)} {o}"
        up = r.choice([["<", "<="], [">", ">="]])
        return f"{self.code()} {r.choice(up)} {o} {r.choice(up)} {self.code()}"

    def bound(self):
        r = self.r
        return r.choice(["0", "1", "2", "3", "4", "5", "9", "10", "-1", "-3", "2 + 1", "m", "k", "m + 1", "m + 2", "m + 3", "m - 1", "1 + m", "m - 2", "k + 2", "2 * m", "-m", "len(s)", "(m if a else k)", "(a or 3)", "(m or k)",
                         "m // 2", "m % 3", "abs(m)", "o.n", "o.n + 1", "o.n + 3", "len(s) + 2", "(a and m)", "~m", "m ** 2", "1 - m", "True", "m < 3", "next(o.it)"])

    def in_range(self):
        r = self.r
        n = r.choice(["k", "m", "i", "len(s)", "j", "x", "len(t)", "next(o.it)", "o.n", "abs(x)", "f(x)", "w", "int(next(o.it))"])
        args = [self.bound()]
        if r.random() < 0.8:
            args.append(self.bound())
            if r.random() < 0.3:  # bounds of one base
                b = r.choice(["m", "k", "o.n", "len(s)"])
                args = [r.choice([b, f"{b} + {r.randint(1, 4)}", f"{b} - {r.randint(1, 4)}", f"{r.randint(1, 3)} + {b}"]) for _ in range(2)]
                if r.random() < 0.35:
                    f, c = r.choice(["{1} - {0}", "{1} - {0}", "{1} * {0}", "{0} * {1}", "{0} // {1}", "{0} % {1}", "{1} + {0}"]), r.randint(1, 4)
                    args = [f.format(b, c), f.format(b, c + r.randint(1, 3))]
            if r.random() < 0.55:
                args.append(r.choice(["1", "2", "3", "-1", "-2", "-3", "5", "-5", "k", "0"]))
        e = f"{n} {r.choice(['in', 'in', 'not in'])} range({', '.join(args)})"
        k = r.random()
        if k < 0.1:
            return f"not {e}"
        if k < 0.2:
            return f"({e}) is a"
        if k < 0.3:
            return f"{e} and b"
        return e

    def times_list(self):
        r = self.r
        elt = lambda: r.choice(["[]", "{}", "set()", "list()", "dict()", "[0]", "0", "None", "x", "'a'", "()", "{1}", "[x]", "list(s)", "{**o.d}", "tuple()", "str()", "l", "int()", "([],)"])  # noqa
        e = "[" + ", ".join(elt() for _ in range(r.choice([1, 1, 2]))) + "]"
        return r.choice([f"{e} * 3", f"2 * {e}", f"{e} * len(s)", f"{e} + {e}", f"{e} * x"])

    # ------------------------------------------------------ statements

    def target(self):
        return self.r.choice(["x", "y", "r", "o.n", "l[0]", "l[x]", "s", "l", "k", "g", "o.s", "h", "e"])

    def augment(self):
        r = self.r
        t = self.target()
        lists = t in ("l", "g", "h", "e")
        v = r.choice(["[1]", "[x, 2]", "q", "[]"]) if lists else r.choice(["'ab'", "t", "str(x)"]) if t in ("s", "o.s") else self.num()
        op = "+" if lists or t in ("s", "o.s") else r.choice(["+", "-", "*", "//", "%", "|", "&", "^", "+", "<<"])
        if op in "|&^<<":
            v = r.choice(["1", "2", "len(s)", "3"])
        if op == "*":  # numbers do not grow beyond measure
            v = r.choice(["1", "2", "7", "z", "z - 1"])
        e = r.choice([f"{t} {op} {v}", f"{t} {op} {self.paren(v)}", f"{t} {op} ({v})", f"({t}) {op} {self.paren(v)}", f"{self.paren(v)} {op} {t}", f"{self.paren(v)} {op} {t}", f"{t} {op} {v} {op} {v}", f"{t} {op} ({v} {op} {v})"])
        if t == "e" and r.random() < 0.3:
            e = r.choice([f"{t} * 2", f"2 * {t}"])
        k = r.random()
        if k < 0.85:
            return f"{t} = {e}"
        if k < 0.93:
            return f"{t} = {r.choice(['v', 'o.n', 'y'])} = {e}" if r.random() < 0.5 else f"v = {t} = {e}"
        return f"{t}: object = {e}"

    def append(self):
        r = self.r
        t = r.choice(["l", "q", "g", "o.l", "o.d['k']", "(l)", "h"])
        v = r.choice([f"[{self.num()}]", f"[{self.num()}]", "[[1]]", "[(1, 2)]", "[x, y]", "[]", "[*q]", "[*'ab']", "q", "[x for x in q]", "[x if a else y]", "[lambda: x]", "['a' 'b']", "(x,)", "{x}", "[(yield)]" if False else "[None]", "[a or b]"])
        if r.random() < 0.5:
            return f"{t} += {v}"
        e = f"{t}.extend({v})"
        return r.choice([e, e, e, f"r = {e}", f"p({self.tick()}, {e})"])

    def redundant_aug(self):
        r = self.r
        t = r.choice(["x", "y", "o.n", "l[0]", "l[x]"])
        op = r.choice(["+", "-", "*", "/", "//", "%", "**"])
        return f"{t} {op}= {r.choice(['0', '1', '2'] if '*' in op else ['0', '1', '2', t, t, '-1', '1.0', 'y', self.num()])}"

    def elif_(self, ind, loop):
        r = self.r
        c = self.cond()
        ls = [f"if {c}:"] + self.block(1, loop) + [f"elif {self.negated(c)}:"] + self.block(1, loop)
        k = r.random()
        if k < 0.45:
            ls += ["else:"] + self.block(1, loop)
        elif k < 0.6:
            ls += [f"elif {self.cond()}:"] + self.block(1, loop) + ["else:"] + self.block(1, loop)
        if r.random() < 0.15:
            ls = [f"if {self.cond()}:"] + self.block(1, loop) + ["el" + ls[0]] + ls[1:]
        return ls

    def early(self, ind, loop):
        r = self.r
        ends = ["return", f"return {self.num()}", "return None"] + (["break", "continue"] if loop else [])

        def ending(i):
            pad = "    " * i
            e = r.choice(ends)
            if r.random() < 0.2:
                return [pad + f"if {r.choice(BOOLS)}:", pad + "    " + e, pad + "else:", pad + "    " + r.choice(ends + [self.simple()])]
            return ([pad + self.simple()] if r.random() < 0.3 else []) + [pad + e]
        long = [f"    {self.simple()}" for _ in range(r.choice([2, 3, 4, 4, 5]))]
        if r.random() < 0.4:
            long[-1:] = ["    " + x for x in self.small(loop)]
        ls = [f"if {self.cond()}:"] + long
        k = r.random()
        if k < 0.5:
            ls += ["else:"] + ending(1)
        elif k < 0.65:
            ls += [f"elif {self.cond()}:"] + ending(1) + (["else:"] + ending(1) if r.random() < 0.6 else [])
        else:
            ls += ending(1)
            tail = ending(0)
            if r.random() < 0.2:
                tail = [self.simple()] + tail
            ls += tail
            return ls
        if r.random() < 0.5:
            ls += [self.simple()]
        return ls

    def small(self, loop):
        r = self.r
        if r.random() < 0.5:
            return [self.simple()]
        return [f"if {self.cond()}:", "    " + r.choice(["return x", self.simple()]), "else:", "    " + r.choice(["return", self.simple()])]

    def block(self, ind, loop):
        r = self.r
        pad = "    " * ind
        if r.random() < 0.2:
            return [pad + r.choice(["return x", "return"] + (["break", "continue"] if loop else []))]
        return [pad + self.simple() for _ in range(r.choice([1, 1, 2]))]

    def stmt(self, ind, loop):
        r = self.r
        pad = "    " * ind
        k = r.random()
        if k < 0.5:
            e = self.expr()
            ls = [r.choice([f"r = {e}", f"p({self.tick()}, {e})", f"if {e}:\n{pad}    p({self.tick()})", f"return {e}", f"r = [{e}, 1]", f"r = f({e})" if "[" not in e[:1] else f"r = {e}", f"r = ({e}) if a else 0", f"p([({e}) for v in (1, 2)])"])]
        elif k < 0.62:
            ls = [self.augment()]
        elif k < 0.69:
            ls = [self.append()]
        elif k < 0.73:
            ls = [self.redundant_aug()]
        elif k < 0.85:
            ls = self.elif_(ind, loop)
        else:
            ls = self.early(ind, loop)
        return [pad + x for x in ls]

    def body(self, ind, loop=False, d=2):
        r = self.r
        out = []
        for _ in range(r.choice([1, 1, 2, 3])):
            pad = "    " * ind
            if d > 0 and r.random() < 0.25:
                h = r.choice(["for i in range(4):", "for v in (0, 1):", "try:", "with o:", "while u(True):", "if a:", "for j in range(x, 9, 4):"])
                lp = loop or h.startswith(("for", "while"))
                out += [pad + h] + self.body(ind + 1, lp, d - 1)
                if h.startswith("while"):
                    out.append(pad + "    break")
                if h == "try:":
                    out += [pad + r.choice(["finally:", "except ValueError:"])] + [pad + "    " + self.simple()]
            elif r.random() < 0.2:
                out.append(pad + self.simple())
            else:
                out += self.stmt(ind, loop)
        return out

    def function(self, i):
        r = self.r
        pre = [f"def f{i}({PARAMS}):", "    r = v = None", "    i = j = 0"]
        pre.append("    m = " + r.choice(["3", "len(s)", "int(y)", "x", "7 // 2", "x % 5", "abs(int(z))"]))
        pre.append("    k = " + r.choice(["2", "len(t)", "int(x)", "z", "4 // 3", "y % 4", "m", "m + 1", "int(z) - 1", "ord('a') - 95", "s.count('a')", "-m"]))
        pre.append("    w = " + r.choice(["k", "m * 2", "1 if a else 2", "x", "len(l)", "int(x) or 1", "m / 2", "7 / 2", "2.5", "float(x)", "0.5 if a else 1", "k * 0.5", "abs(2.5)", "m ** 2", "sum([1.5, 2])", "'a'", "bool(x)"]))
        pre.append("    g = " + r.choice(["[]", "[0]", "l", "q", "l + q", "(1,)", "list(q)", "sorted(q)", "[v for v in q]", "q[:]", "o.l", "[] if a else q"]))
        pre.append("    e = " + r.choice(["[]", "[0]", "list(q)", "sorted(q)", "[v for v in q]", "q + [1]", "[1] * 2", "[0] if a else [1]"]))
        pre.append("    h = " + r.choice(["g", "e", "e", "g + []", "[g][0]", "q", "(2,)", "'ab'", "list('ab')"]))
        return "\n".join(pre + self.body(1) + ["    p('end', r, s, a, x, y, l, q, g, h, k, e)"] + (["    return r"] if r.random() < 0.5 else []))


def scenario(r):
    g = Gen(r)
    out = []
    for i in range(8):
        for _ in range(20):
            t = g.function(i)
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    compile(t, "f", "exec")
                break
            except SyntaxError:
                continue
        else:
            t = "def f():\n    pass"
        out.append(t)
    return {"text": "\n\n\n".join(out) + "\n"}


# ------------------------------------------------------------------ execution

class Obj:
    def __init__(self, inner=True):
        self.flag, self.n, self.l, self.d, self.s = False, 3, [4], {"k": [5]}, "os"
        self.it = itertools.count(1)
        if inner:
            self.o = Obj(False)

    def __enter__(self):
        return self

    def __exit__(self, *_):
        return False

    def seen(self):
        return [self.flag, self.n, self.l, self.d, self.s, repr(self.it)]


def strip(text):
    return re.sub(r" at 0x\w+", "", text)


class Stop(Exception):
    pass


class Limited(ast.NodeTransformer):
    """keeps results small: a run with huge numbers is given up"""

    def wrap(self, e, k):
        return ast.Call(ast.Name("small_", ast.Load()), [e, ast.Constant(k)], [])

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, (ast.Mult, ast.Pow, ast.LShift)):
            n.left = self.wrap(n.left, 10 ** 300)
            n.right = self.wrap(n.right, 10 ** 6 if isinstance(n.op, ast.Mult) else 64)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, (ast.Mult, ast.Pow, ast.LShift)):
            n.value = self.wrap(n.value, 10 ** 6 if isinstance(n.op, ast.Mult) else 64)
        return n


def small(v, k):
    if isinstance(v, int) and abs(v) > k or isinstance(v, (list, tuple, str)) and len(v) > 10000:
        raise Stop
    return v


def build(tree):
    tree = Limited().visit(tree)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        code = compile(ast.fix_missing_locations(tree), "m", "exec")
    name = tree.body[0].name

    def call(args, extra=None):
        log, n = [], [0]
        args = copy.deepcopy(args)

        def p(*xs):
            n[0] += 1
            if n[0] > 200 or len(args[9]) > 5000 or len(args[8]) > 5000:
                raise Stop
            log.append(strip(repr(xs)))

        def u(v):
            p("u", v)
            return v

        def f(v):
            return v
        ns = {"p": p, "u": u, "f": f, "small_": small}
        ns.update(extra or {})
        exec(code, ns)
        o = Obj()
        try:
            with core.time_limit(5):
                out = "returned " + strip(repr(ns[name](*args, o)))
            return out, log, strip(repr(args)), strip(repr(o.seen()))
        except (Stop, OverflowError, MemoryError, core.TimeLimit):
            return None
        except Exception as e:
            out = "raised " + type(e).__name__
            try:
                return None if "Exceeds the limit" in str(e) else (out, log, strip(repr(args)), strip(repr(o.seen())))
            except ValueError:  # numbers too large to be printed
                return None

    return call


STRINGS = ["a", "", "ab", "z9", "A", "0", "9", "~x", " ", "5", "12"]


def inputs(r, n, nonneg=False):
    res = []
    nums = [0, 1, 2, 3, 4, 5, 7, 9, 10] if nonneg else [-7, -3, -2, -1, 0, 1, 2, 3, 4, 5, 7, 9, 10, 11]
    for bs in itertools.product([False, True], repeat=3):
        for _ in range(n):
            res.append((*bs, *(r.choice(nums) for _ in range(3)), r.choice(STRINGS), r.choice(STRINGS), r.choice([[1, 2], [0], [], [3, 3, 4, 8]]), r.choice([[5], [6, 7]])))
    return res


# --------------------------------------------------------------- applications

MSGS = {
    "R6601": r"Use (.*)\.append\((.*)\) instead of (.*)\.$", "R6602": r"Use integral division //\.$", "R6607": r"Use (multiplication|exponentiation) instead of repeated (addition|muliplication) in (.*)\.$",
    "R6608": r"Redundant arithmetic: (.*)$", "R6609": r"Use augmented assignment: '(.*?) (\S+)= (.*)'$", "R6610": r"Do not multiply list with mutable content\.$", "R6611": r"Use else instead of elif\.$",
    "R6612": r"Unreachable else\.$", "R6613": r"Use '(.*)' directly rather than as '(.*)'\.$", "R6614": r'Use "(.*)" instead of using the magical constant (-?\d+)\.$',
    "R6615": r"Remove the call to 'ord' and compare to the string directly \"(.*)\" instead of using the magical constant (-?\d+)\.", "R6616": r"Use early return\.$",
    "R6617": r"Consider replacing '(.*)' with '(.*)'$", "R6618": r"Consider replacing '(.*)' with '(.*)'$", "R6619": r"Consider replacing '(.*)' with '(.*)'$",
}
OPS = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b, "==": lambda a, b: a == b, "!=": lambda a, b: a != b}


def parse(text):
    try:
        return ownlint.parse_expr("(" + text + "\n)")
    except (SyntaxError, ValueError):
        raise NotApplicable(f"the text does not parse: {text}")


def need(tree, m, *types):
    n = ownlint.node_at(tree, m, *types)
    if n is None:
        raise NotApplicable("nothing of the kind at the reported place")
    return n


def literal(e):
    try:
        return eval(compile(ast.fix_missing_locations(ast.Expression(copy.deepcopy(e))), "e", "eval"), {"__builtins__": {"ord": ord}})
    except Exception:
        raise NotApplicable("not a constant")


ARITH = {"Add": operator.add, "Sub": operator.sub, "Mult": lambda a, b: operator.mul(small(a, 10 ** 300), small(b, 10 ** 6)), "Div": operator.truediv, "FloorDiv": operator.floordiv, "Mod": operator.mod,
         "Pow": lambda a, b: operator.pow(small(a, 10 ** 300), small(b, 64))}


class Probe:
    """records the values of a group of expressions evaluated at the place of one"""

    def __init__(self, judge):
        self.judge, self.bad, self.seen = judge, None, []

    def __getattr__(self, name):
        if name not in ARITH:
            raise AttributeError(name)

        def op(a, b):
            v = ARITH[name](a, b)
            self.seen.append((v, a, b))
            return v
        return op

    def wrap(self, node, parts):
        args = [copy.deepcopy(p) for p in parts]
        return ast.Call(ast.Name("probe_", ast.Load()), args, [])

    def __call__(self, *vs):
        self.seen.append(vs)
        return vs[0]


def mutable_literal(e):
    return isinstance(e, (ast.List, ast.Set, ast.Dict)) or isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("list", "set", "dict")


def apply(m, tree):
    """carries the suggestion out in the tree; or returns a probe to run the unchanged tree with"""
    code = m["messageId"]
    mt = re.match(MSGS[code], m["message"], re.S)
    if not mt:
        raise NotApplicable("the message does not have the documented text")
    if code == "R6601":
        n = need(tree, m, ast.AugAssign, ast.Call)
        if isinstance(n, ast.AugAssign):
            xs, t = n.value, n.target
            load = copy.deepcopy(t)
            load.ctx = ast.Load()
        else:
            load, xs = n.func.value, n.args[0]
        new = parse(f"{mt[1]}.append({mt[2]})")
        if not isinstance(xs, ast.List) or not isinstance(new, ast.Call):
            raise NotApplicable("not a list")
        if isinstance(n, ast.AugAssign):
            s, i = where(tree, n)
            s[i] = ast.Expr(new)
        else:
            replace_expr(tree, n, new)
    elif code == "R6602":
        n = need(tree, m, ast.Call)
        if not (isinstance(n.func, ast.Name) and n.func.id == "int" and len(n.args) == 1 and isinstance(n.args[0], ast.BinOp) and isinstance(n.args[0].op, ast.Div)):
            raise NotApplicable("not the conversion of a quotient")
        pr = Probe(lambda seen: next((f"int({a} / {b}) is {int(q)}" for q, a, b in seen if all(type(x) is int and 0 <= x < 10 ** 6 for x in (a, b)) and a // b != int(q)), None))
        d = n.args[0]
        n.args[0] = ast.Call(ast.Attribute(ast.Name("probe_", ast.Load()), "Div", ast.Load()), [d.left, d.right], [])
        return pr
    elif code == "R6607":
        n = need(tree, m, ast.BinOp)
        op = ast.Add if mt[1] == "multiplication" else ast.Mult
        leaves = []

        def rec(e):
            if isinstance(e, ast.BinOp) and isinstance(e.op, op):
                rec(e.left), rec(e.right)
            else:
                leaves.append(e)
        rec(n)
        if (mt[2] == "addition") != (op is ast.Add):
            raise NotApplicable("operations do not match")
        k = len(leaves)
        new = ast.BinOp(leaves[0], ast.Mult() if op is ast.Add else ast.Pow(), ast.Constant(k))
        replace_expr(tree, n, new)
    elif code == "R6608":
        n = need(tree, m, ast.BinOp, ast.AugAssign)

        def judge(seen):
            cands = {"left": lambda v, l, r: l, "right": lambda v, l, r: r, "-right": lambda v, l, r: -r, "0": lambda v, l, r: 0, "1": lambda v, l, r: 1}
            for v, l, r in seen:
                if isinstance(l, str) != isinstance(r, str) or isinstance(l, (list, tuple)) or isinstance(r, (list, tuple)):  # not arithmetic
                    continue
                for name in list(cands):
                    try:
                        if cands[name](v, l, r) != v:
                            del cands[name]
                    except TypeError:
                        del cands[name]
                if not cands:
                    return f"is {v} for {l} and {r}, and needed"
            return None
        pr = Probe(judge)
        if isinstance(n, ast.BinOp):
            replace_expr(tree, n, ast.Call(ast.Attribute(ast.Name("probe_", ast.Load()), type(n.op).__name__, ast.Load()), [n.left, n.right], []))
        else:
            s, i = where(tree, n)
            load = copy.deepcopy(n.target)
            load.ctx = ast.Load()
            s[i] = ast.Assign([n.target], ast.Call(ast.Attribute(ast.Name("probe_", ast.Load()), type(n.op).__name__, ast.Load()), [load, n.value], []))
        return pr
    elif code == "R6609":
        n = need(tree, m, ast.Assign, ast.AnnAssign)
        try:
            new = ast.parse(f"{mt[1]} {mt[2]}= {mt[3]}").body[0]
        except SyntaxError:
            raise NotApplicable("the text does not parse")
        s, i = where(tree, n)
        s[i] = new
    elif code == "R6610":
        n = need(tree, m, ast.BinOp)
        if not isinstance(n.op, ast.Mult) or not any(isinstance(e, ast.List) and any(mutable_literal(x) for x in e.elts) for e in (n.left, n.right)):
            raise NotApplicable("no list of mutable objects is multiplied")
    elif code == "R6611":
        n = need(tree, m, ast.If)
        if not (isinstance(getattr(n, "parent", None), ast.If) and n.parent.orelse == [n]):
            raise NotApplicable("not an elif")
        n.parent.orelse = n.body
    elif code == "R6612":
        n = next((n for n in ast.walk(tree) if isinstance(n, ast.If) and n.orelse and (n.orelse[0].lineno, n.orelse[0].col_offset) == (m["line"], m["column"])), None)
        if n is None:
            raise NotApplicable("no else at the reported place")
        n.orelse = [ast.Expr(ast.Call(ast.Name("probe_", ast.Load()), [ast.Constant(1)], []))] + n.orelse
        return Probe(lambda seen: "the else is reached" if seen else None)
    elif code == "R6613":
        n = need(tree, m, ast.Compare)
        ops = [(o, l, r) for o, l, r in zip(n.ops, [n.left] + n.comparators, n.comparators) if isinstance(o, (ast.Is, ast.IsNot)) and isinstance(r, ast.Constant) and r.value in (True, False) and type(r.value) is bool]
        new = parse(mt[1])
        pairs = []
        for o, l, r in ops:
            pair = ast.Compare(copy.deepcopy(l), [o], [r])
            if any(ast.dump(x) == ast.dump(l) for x in ast.walk(new)):
                pairs.append(pair)
        if not pairs:
            raise NotApplicable("the suggested text does not contain what is compared")
        pr = Probe(lambda seen: next((f"'{mt[1]}' is {v[1]} where the comparison is one of {v[2:]}" for v in seen if all(type(x) is bool for x in v[1:]) and v[1] not in v[2:]), None))
        replace_expr(tree, n, pr.wrap(n, [n, new] + pairs))
        return pr
    elif code == "R6614":
        n = need(tree, m, ast.expr)
        value = literal(n)
        if value != int(mt[2]) or literal(parse(mt[1])) != value:
            raise NotApplicable(f"{mt[1]} is not {value}")
        # written in place of the constant
        op = next(p for p in ast.walk(tree) if isinstance(p, ast.BinOp) and (p.left is n or p.right is n))
        text = f"(1000) {'+' if isinstance(op.op, ast.Add) else '-'} " + mt[1] if op.right is n else mt[1] + f" {'+' if isinstance(op.op, ast.Add) else '-'} (1000)"
        want = (1000 + value if isinstance(op.op, ast.Add) else 1000 - value) if op.right is n else (value + 1000 if isinstance(op.op, ast.Add) else value - 1000)
        if literal(parse(text)) != want:
            raise NotApplicable(f"written in place of {value}, {mt[1]} gives another value")
    elif code == "R6615":
        n = need(tree, m, ast.expr)
        value = literal(n)
        if value != int(mt[2]):
            raise NotApplicable(f"the constant is {value}")
        comp = next(p for p in ast.walk(tree) if isinstance(p, ast.Compare) and (p.left is n or p.comparators[-1] is n))
        names = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}
        first = comp.left is n
        op = names.get(type(comp.ops[0] if first else comp.ops[-1]))
        x = re.fullmatch(r"(['\"].*['\"]) (\S+)", mt[1]) if first else re.fullmatch(r"(\S+) (['\"].*['\"])", mt[1])
        if not x or op is None:
            raise NotApplicable("the text is not a comparison")
        letter, op2 = (x[1], x[2]) if first else (x[2], x[1])
        if letter in ("'''", "'\\'"):  # unescaped
            letter = ord(letter[1])
        else:
            letter = ord(literal(parse(letter)))
        for v in range(0, 200):
            if (OPS[op](value, v) if first else OPS[op](v, value)) != (OPS[op2](letter, v) if first else OPS[op2](v, letter)):
                raise NotApplicable(f"differs from the original comparison for chr({v})")
    elif code == "R6616":
        n = need(tree, m, ast.If)
        s, i = where(tree, n)
        if n.orelse:
            other, rest = n.orelse, s[i + 1:]
        else:
            other, rest = s[i + 1:i + 2], s[i + 2:]
            if not other:
                raise NotApplicable("nothing follows")
        s[i:] = [ast.If(ast.UnaryOp(ast.Not(), n.test), other, [])] + n.body + rest
    else:
        n = need(tree, m, ast.Compare)
        replace_expr(tree, n, parse(mt[2]))
    return None


PURE_BOOL = ("R6611", "R6612")


def evaluate(s, res, r):
    text = s["text"]
    ms = ownlint.run(text, "m15.py", enable=CODES)
    tree = ast.parse(text)
    for m in ms:
        code = m["messageId"]
        if code not in MSGS:
            if code.startswith(("E0001", "F0")):
                res.violation("internal", f"{m['message'][:300]}", scenario=s)
            continue
        fn = next((f for f in tree.body if f.lineno <= m["line"] <= f.end_lineno), None)
        src = "\n".join(text.split("\n")[fn.lineno - 1:fn.end_lineno]) if fn else ""
        mm = shifted(m, fn.lineno - 1) if fn else m
        res.case([src, m["message"], mm["line"]])
        res.count(code)
        one = {"text": src + "\n"}
        new = ast.parse(src)
        for x in ast.walk(new):
            for c in ast.iter_child_nodes(x):
                c.parent = x
        try:
            probe = apply(mm, new)
            after = build(new)
        except (NotApplicable, SyntaxError, ValueError) as e:
            res.violation(f"not-applicable:{code}", f"{code} '{m['message']}' at line {mm['line']}: {e}\n{src}", scenario=one)
            continue
        if probe is not None:
            for args in inputs(r, 4, code == "R6602"):
                k = len(probe.seen)
                after(args, {"probe_": probe})
                res.count("runs")
                res.count("probed", len(probe.seen) - k)
            bad = probe.judge(probe.seen)
            if bad:
                res.violation(f"untrue:{code}", f"{code} '{m['message']}' at line {mm['line']}: {bad}\n{src}", scenario=one)
            continue
        if code in ("R6610", "R6614", "R6615"):
            res.count("runs")
            continue
        before = build(ast.parse(src))
        for args in inputs(r, 4):
            u = before(args)
            if u is None or code == "R6601" and u[0] == "raised TypeError" or code >= "R6617" and u[0] in ("raised ValueError", "raised TypeError"):  # the suggestion presumes lists; the conversion is not evaluated
                continue
            v = after(args)
            res.count("runs")
            if v is None or code == "R6601" and v[0] == "raised AttributeError":
                continue
            if u != v:
                res.violation(f"differs:{code}", f"{code} '{m['message']}' at line {mm['line']}: with {args} the original gives {str(u)[:300]}, the rewritten {str(v)[:300]}\n{src}", scenario=one)
                break
        res.sample({"message": m["message"], "function": src})


def task(arg):
    seed, lo, hi = arg
    res = Result()
    for i in range(lo, hi):
        r = rng_for("C15", seed, i)
        evaluate(scenario(r), res, r)
    return res


def replay_task(s):
    res = Result()
    evaluate(s, res, rng_for("replay"))
    return res


def run(ctx):
    if ctx.replay:
        return core.pmerge(replay_task, [ctx.replay["scenario"]], workers=1)
    n, k = ctx.n(1200, 24000), ctx.n(15, 100)
    return core.pmerge(task, [(ctx.seed, i, min(n, i + k)) for i in range(0, n, k)])
