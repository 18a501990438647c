"""C09: suggested replacements of ifs and conditions are equivalent."""
import ast
import copy
import itertools
import os
import re
import warnings

from vlib import core, ownlint
from vlib.core import Result, rng_for

LEVEL = "exploration"
RULE = ("random functions over boolean and integer parameters whose ifs, conditional expressions and conditions have the shapes the messages speak about and near misses of them, in many contexts; each suggestion is "
        "carried out on Python's own tree and both versions are run on a grid of inputs, comparing results, printed values and raised exceptions; non-trivial = every suggestion run; distinct = function and suggestion")
ASSUMPTIONS = ["expressions astroid itself writes without needed parentheses (comparisons of comparisons, walruses in operands) do not occur", "boolean suggestions are run with boolean operands, comparisons with integers and halves, remainders with integers"]
MINIMUM = {"evaluations": 12000, "runs": 1200000}
MINIMUM.update({c: 100 for c in ["R6201", "R6202", "R6203", "R6204", "R6205", "R6206", "R6207", "R6208", "R6209", "R6210", "R6211", "R6212", "R6213", "R6214", "R6215"]})
CODES = sorted(c for c in MINIMUM if c.startswith("R62"))

BOOLS = ["a", "b", "c"]
NUMS = ["x", "y", "z"]


# ------------------------------------------------------------------- programs

class Gen:
    def __init__(self, r):
        self.r = r
        self.k = 0
        self.temps = 0

    def tick(self):
        self.k += 1
        return self.k

    def boolean(self, d=2):
        """an expression whose value is a bool"""
        r = self.r
        k = r.random()
        if d <= 0 or k < 0.3:
            return r.choice(BOOLS)
        if k < 0.5:
            return f"{r.choice(NUMS)} {r.choice(['<', '<=', '>', '>=', '==', '!='])} {r.choice(NUMS + ['0', '1', '2', '-1'])}"
        if k < 0.6:
            return f"not {self.wrap(self.boolean(d - 1))}"
        if k < 0.8:
            op = r.choice(["and", "or"])
            return f" {op} ".join(self.wrap(self.boolean(d - 1)) for _ in range(r.choice([2, 2, 3])))
        if k < 0.86:
            return f"t({self.tick()}, {r.choice(BOOLS)})"
        if k < 0.89:
            e = f"{self.wrap(self.boolean(d - 1))} if {self.wrap(self.boolean(d - 1))} else {self.wrap(self.boolean(d - 1))}"
            return e
        if k < 0.92:
            return r.choice([f"{r.choice(NUMS)} in ({r.choice(NUMS)}, 1)", f"{r.choice(BOOLS)} is {r.choice(BOOLS)}", f"{r.choice(NUMS)} < {r.choice(NUMS)} < {r.choice(NUMS)}", f"bool({r.choice(NUMS)})",
                             f"o.flag", f"{r.choice(BOOLS)} ^ {r.choice(BOOLS)}", f"any(n > 1 for n in ({r.choice(NUMS)}, 2))", "(lambda: a)()", f"{r.choice(BOOLS)} == {r.choice(BOOLS)}"])
        return r.choice(["True", "False"]) if k > 0.98 else r.choice(BOOLS)

    def wrap(self, e):
        return e if e.isidentifier() or re.fullmatch(r"\w+\([^()]*\)", e) else f"({e})"

    def value(self):
        return self.r.choice(["True", "False", "True", "False", self.boolean(1), self.boolean(2)])

    def num(self, d=1):
        r = self.r
        k = r.random()
        if k < 0.6 or d <= 0:
            return r.choice(NUMS)
        return r.choice([f"abs({self.num(0)})", f"{self.num(0)} + {self.num(0)}", f"{self.num(0)} - 1", f"-{self.num(0)}", f"{self.num(0)} * 2", f"abs({self.num(0)}) {r.choice('+-')} {self.num(0)}",
                         f"len(str({self.num(0)}))", f"max({self.num(0)}, {self.num(0)})", f"min({self.num(0)}, {self.num(0)})", f"max({self.num(0)}, 1) + {self.num(0)}", f"min({self.num(0)}, {self.num(0)}) - {self.num(0)}",
                         f"({self.num(0)} if {r.choice(BOOLS)} else {self.num(0)})", f"({r.choice(BOOLS)} or {self.num(0)})", f"max([{self.num(0)}, {self.num(0)}])", f"o.n", f"({self.num(0)}, {self.num(0)})[0]",
                         f"min(({self.num(0)}, {self.num(0)}))", f"max({self.num(0)}, {self.num(0)}, key=abs)", f"(not {r.choice(BOOLS)})", f"abs({self.num(0)} - 1)", f"{self.num(0)} // 2",
                         f"sum([{self.num(0)}, 1])", f"(-{self.num(0)}) ** 2"])

    def const(self):
        return self.r.choice(["0", "1", "2", "3", "-1", "-2", "-3", "1", "2", "-2", "0", "1.5", "-1.5", "2.0", "10"])

    def comparisons(self):
        """conjunctions or disjunctions of comparisons"""
        r = self.r
        op = r.choice(["and", "or"])
        es = [self.num() for _ in range(r.choice([1, 1, 1, 2]))]
        if r.random() < 0.3:  # two bounds of one expression, equal or opposite
            e, c = es[0], r.choice(["0", "1", "2", "3", "1.5", "10"])
            up, low = r.choice(["<", "<="]), r.choice([">", ">="])
            d = r.choice([c, "-" + c, "-" + c]) if c != "0" else c
            two = [f"{e} {up} {c}" if r.random() < 0.8 else f"{c} {low} {e}", f"{e} {low} {d}" if r.random() < 0.8 else f"{d} {up} {e}"]
            if r.random() < 0.5:
                two = [f"{e} {low} {c}", f"{e} {up} {d}"]
            if r.random() < 0.5:
                two = [f"{e} >= {c}", f"{e} <= {c}"] if r.random() < 0.5 else [f"{e} > {c}", f"{e} < {c}"]
            if r.random() < 0.3:
                two.insert(r.randrange(3), r.choice(BOOLS))
            r.shuffle(two)
            return f" {op} ".join(two)
        parts = []
        c0 = self.const()
        for _ in range(r.choice([2, 2, 2, 3, 3, 4])):
            e = r.choice(es)
            k = r.random()
            o = r.choice(["<", "<=", ">", ">=", "<", "<=", ">", ">=", "<", "<=", ">", ">=", "==", "!="])
            if k < 0.55:
                c = r.choice([c0, c0, c0.lstrip("-"), "-" + c0.lstrip("-"), self.const()])
                if c == "-0":
                    c = "0"
                parts.append(f"{e} {o} {c}" if r.random() < 0.75 else f"{c} {o} {e}")
            elif k < 0.9:
                v = self.num() if r.random() < 0.5 else r.choice(NUMS)
                parts.append(f"{e} {o} {v}" if r.random() < 0.75 else f"{v} {o} {e}")
            else:
                parts.append(self.wrap(self.boolean(1)))
        return f" {op} ".join(parts)

    def remainders(self):
        r = self.r
        m = r.choice([2, 2, 2, 3, 3])
        es = r.sample(["x", "y", "z", "x + y", "(x + 1)", "-y", "abs(z)", "x - z"], 2)

        def cmp(e, v, neg):
            e = e if e.isidentifier() or e.startswith(("(", "abs")) else f"({e})"
            v = str(v)
            o = "!=" if neg else "=="
            s = f"{e} % {m}"
            return f"{s} {o} {v}" if r.random() < 0.8 else f"{v} {o} {s}"

        mode = r.choice(["eq", "eq", "ne", "ne", "mixed", "wrong"])
        parts = []
        for v in range(m):
            if mode == "eq":
                parts.append((es[0], v, False, es[1], v, False))
            elif mode == "ne":
                if r.random() < 0.4:
                    for w in range(m):
                        if w != v:
                            parts.append((es[0], v, False, es[1], w, False))
                else:
                    parts.append((es[0], v, False, es[1], v, True))
            elif mode == "mixed":
                parts.append((es[0], v, r.random() < 0.5, es[1], v, r.random() < 0.3))
            else:
                parts.append((es[0], r.randint(0, m), r.random() < 0.3, es[1], r.randint(0, m), r.random() < 0.3))
        if r.random() < 0.2:
            parts.append((es[0], r.randrange(m), r.random() < 0.5, es[1], r.randrange(m), r.random() < 0.5))
        if r.random() < 0.15:
            parts.pop()
        r.shuffle(parts)
        out = []
        for e1, v1, n1, e2, v2, n2 in parts:
            p, q = cmp(e1, v1, n1), cmp(e2, v2, n2)
            if r.random() < 0.3:
                p, q = q, p
            out.append(f"{p} and {q}")
        if r.random() < 0.2:
            out.insert(r.randrange(len(out) + 1), r.choice(BOOLS))
        return (" or " if r.random() < 0.93 else " and ").join(f"({p})" if r.random() < 0.3 else p for p in out)

    def cond(self):
        k = self.r.random()
        if k < 0.03:
            return f"(w := {self.boolean()})"
        return self.boolean() if k < 0.7 else self.comparisons() if k < 0.9 else self.remainders()

    def simple(self):
        r = self.r
        return r.choice([f"p({self.tick()})", f"p({self.tick()}, {r.choice(NUMS)})", f"a = {self.boolean(1)}", f"x = {self.num()}", f"r = {self.value()}", f"y += 1"])

    def target(self):
        return self.r.choice(["r", "r", "a", "b", "o.flag", "o.flag", "x", "d[0]", "s", "r, s", "o.n"])

    def assign(self, t, v):
        k = self.r.random()
        if "," in t:
            return f"{t} = {v}, {self.value()}"
        if k < 0.82:
            return f"{t} = {v}"
        if k < 0.9:
            return f"{t} {self.r.choice(['+='] if t in ('x', 'o.n') else ['|=', '&=', '^='])} {v}"
        if k < 0.95 and t.isidentifier():
            return f"{t}: bool = {v}"
        return f"{t} = s = {v}"

    def shape(self, ind, loop, d=1):
        """lines with something the messages speak about"""
        r = self.r
        pad = "    " * ind
        k = r.choice(["return", "return", "assign", "assign", "ifexp", "pass", "nested", "seq", "cmp", "cmp", "mod", "chain", "none"])
        c = self.cond()
        if k == "return":
            v1, v2 = self.value(), self.value()
            ls = [f"if {c}:", f"    return {v1}"]
            if r.random() < 0.1:
                ls.insert(1, "    " + self.simple())
            m = r.random()
            if m < 0.5:
                ls += ["else:", f"    return {v2}"]
            elif m < 0.9:
                ls += [f"return {v2}"]
            else:
                ls += [f"elif {self.boolean()}:", f"    return {v2}", "else:", f"    return {self.value()}"]
            if r.random() < 0.1:
                ls = [f"if {self.boolean()}:", f"    return {self.value()}"] + ls
        elif k == "none":
            v1, v2 = r.choice([("", " True"), (" a", ""), ("", ""), (" None", ""), (" x", "")])
            ls = [f"if {c}:", f"    return{v1}"] + (["else:", f"    return{v2}"] if r.random() < 0.5 else [f"return{v2}"])
        elif k == "assign":
            t = self.target()
            t2 = t if r.random() < 0.9 else self.target()
            ls = [f"if {c}:", "    " + self.assign(t, self.value()), "else:", "    " + self.assign(t2, self.value())]
            if r.random() < 0.15:
                ls[2:2] = [f"elif {self.boolean()}:", "    " + self.assign(t, self.value())]
        elif k == "ifexp":
            c = c if ":=" not in c else self.boolean()
            e = f"{r.choice(['True', 'False', r.choice(BOOLS)])} if {c} else {r.choice(['True', 'False', r.choice(BOOLS)])}"
            ls = [r.choice([f"r = {e}", f"p({self.tick()}, {e})", f"r = not ({e})", f"r = ({e}) == {r.choice(BOOLS)}", f"return {e}", f"r = [{e}]", f"r = ({e}) and {r.choice(BOOLS)}", f"r = {r.choice(BOOLS)} or ({e})",
                            f"s = a if b else ({e})", f"if {e}:\n{pad}    p({self.tick()})", f"r = [({e}) for x in (1, 2, 3)]", f"r = (lambda: {e})()"])]
        elif k == "pass":
            ls = [f"if {c}:", "    pass", "else:" if r.random() < 0.7 else f"elif {self.boolean()}:"] + self.block(1, loop, d)
            if ls[2] != "else:" and r.random() < 0.5:
                ls += ["else:"] + self.block(1, loop, d)
        elif k == "nested":
            ls = [f"if {c}:", f"    if {self.cond()}:"] + self.block(2, loop, d)
            if r.random() < 0.2:
                ls += ["    else:"] + self.block(2, loop, d)
            if r.random() < 0.2:
                ls += ["else:"] + self.block(1, loop, d)
            if r.random() < 0.2:
                ls = [f"if {self.boolean()}:"] + self.block(1, loop, d) + ["el" + ls[0]] + ls[1:]
        elif k == "seq":
            v = self.value()
            odd = r.random() < 0.3
            ls = []
            for i in range(r.choice([2, 2, 2, 3])):
                ls += [f"if {self.boolean(1)}:"]
                if odd and r.random() < 0.4:
                    ls += ["    " + self.simple()]
                ls += [f"    return {v if i == 0 or r.random() < 0.85 else self.value()}" if not odd or r.random() < 0.95 else "    pass"]
            if odd and r.random() < 0.3:
                ls += ["else:", "    " + self.simple()]
            if r.random() < 0.5:
                ls += [self.simple()]
        elif k in ("cmp", "mod"):
            e = self.comparisons() if k == "cmp" else self.remainders()
            ls = [r.choice([f"r = {e}", f"if {e}:\n{pad}    p({self.tick()})", f"return {e}", f"r = not ({e})", f"r = [x for x in (1, 2) if {e}]", f"r = a if {e} else b", f"p({self.tick()}, {e})", f"r = ({e}) and a",
                            f"r = b or ({e})", f"while {e}:\n{pad}    p({self.tick()})\n{pad}    break"])]
        else:
            ls = [f"if {c}:"] + self.block(1, loop, d) + [f"elif {self.cond()}:"] + self.block(1, loop, d)
            if r.random() < 0.6:
                ls += ["else:"] + self.block(1, loop, d)
        return [pad + x for x in ls]

    def block(self, ind, loop, d):
        r = self.r
        if d > 0 and r.random() < 0.3:
            return self.shape(ind, loop, d - 1)
        pad = "    " * ind
        k = r.random()
        if k < 0.25:
            return [pad + f"return {self.value()}"]
        if k < 0.3 and loop:
            return [pad + r.choice(["break", "continue"])]
        return [pad + self.simple() for _ in range(r.choice([1, 1, 2]))]

    def body(self, ind, loop=False, d=2):
        r = self.r
        out = []
        for _ in range(r.choice([1, 1, 2, 3])):
            pad = "    " * ind
            k = r.random()
            if d > 0 and k < 0.3:
                h = r.choice(["for i in (1, 2):", "for x in (0, 1):", "try:", "with o:", "while t(0, True):", "if a:", "match x:", "def inner():"])
                out.append(pad + h)
                lp = loop and not h.startswith("def") or h.startswith(("for", "while"))
                if h.startswith("match"):
                    out += [pad + "    case 1:"] + self.body(ind + 2, lp, d - 1) + [pad + "    case _:"] + self.body(ind + 2, lp, d - 1)
                else:
                    if h.startswith("def"):
                        out.append(pad + "    nonlocal a, b, x, y, r, s")
                    out += self.body(ind + 1, lp, d - 1)
                if h.startswith("while"):
                    out.append(pad + "    break")
                if h == "try:":
                    out += [pad + r.choice(["finally:", "except ValueError:"])] + self.body(ind + 1, loop, d - 1)
                elif h.startswith("def"):
                    out.append(pad + f"s = inner()")
                elif h.startswith(("for", "while", "if")) and r.random() < 0.2:
                    out += [pad + "else:"] + self.body(ind + 1, loop, d - 1)
            elif k < 0.45:
                out.append(pad + self.simple())
            else:
                out += self.shape(ind, loop)
        return out

    def function(self, i):
        return "\n".join([f"def f{i}(a, b, c, x, y, z, o, d):", "    r = s = None"] + self.body(1) + ["    p('end', r, s, a, b, x, y)"] + (["    return r"] if self.r.random() < 0.5 else []))


def scenario(r):
    g = Gen(r)
    out = []
    for i in range(r.choice([6, 8])):
        for _ in range(20):
            t = g.function(i)
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    compile(t, "f", "exec")
                break
            except SyntaxError:
                continue
        else:
            t = "def f():\n    pass"
        out.append(t)
    return {"text": "\n\n\n".join(out) + "\n"}


# ------------------------------------------------------------------ execution

class Obj:
    def __init__(self):
        self.flag, self.n = False, 2

    def __enter__(self):
        return self

    def __exit__(self, *_):
        return False


class Stop(Exception):
    pass


GRID_BOOL = list(itertools.product([False, True], repeat=3))
GRID_NUM = [-3, -2, -1.5, -1, -0.5, 0, 0.5, 1, 1.5, 2, 2.5, 3, 9, 10, 11]
GRID_INT = [v for v in GRID_NUM if isinstance(v, int)]


def namespace(log):
    count = [0]

    def p(*args):
        count[0] += 1
        if count[0] > 300:
            raise Stop
        log.append(repr(args))

    def t(k, v):
        count[0] += 1
        if count[0] > 300:
            raise Stop
        log.append(k)
        return v

    return {"p": p, "t": t}


def build(tree, extra=None):
    """-> function(args) -> observation"""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        code = compile(ast.fix_missing_locations(tree), "m", "exec")
    name = tree.body[0].name

    def call(args):
        log = []
        ns = namespace(log)
        ns.update(extra or {})
        exec(code, ns)
        o, d = Obj(), [False]
        try:
            v = ns[name](*args, o, d)
            out = "returned " + repr(v)
        except Stop:
            return None
        except Exception as e:
            out = "raised " + type(e).__name__ + ("" if isinstance(e, UnboundLocalError) else str(e))
        return out, log, sorted(vars(o).items()), d

    return call


def inputs(r, ints, n):
    res = []
    for bs in GRID_BOOL:
        for _ in range(n):
            res.append((*bs, *(r.choice(GRID_INT if ints else GRID_NUM) for _ in range(3))))
    for v in (GRID_INT if ints else GRID_NUM):
        res.append((*r.choice(GRID_BOOL), v, v, v))
        res.append((*r.choice(GRID_BOOL), v, r.choice(GRID_INT), -v))
        res.append((*r.choice(GRID_BOOL), v, -v, r.choice(GRID_INT)))
    return res


# --------------------------------------------------------------- applications

class NotApplicable(Exception):
    """the message cannot be carried out"""


def where(tree, node):
    """-> (list holding the statement, index)"""
    for n in ast.walk(tree):
        for f, v in ast.iter_fields(n):
            if isinstance(v, list):
                for i, x in enumerate(v):
                    if x is node:
                        return v, i
    raise NotApplicable("statement not found")


def replace_expr(tree, node, new):
    for n in ast.walk(tree):
        for f, v in ast.iter_fields(n):
            if v is node:
                setattr(n, f, new)
                return
            if isinstance(v, list):
                for i, x in enumerate(v):
                    if x is node:
                        v[i] = new
                        return
    raise NotApplicable("expression not found")


def readings(text):
    res = []
    for t in ownlint.denegated(text):
        try:
            res.append(ownlint.parse_expr(t))
        except (SyntaxError, ValueError):
            pass
    return res


def negation_matches(expr, test):
    """among the readings of <negated ...> the one that negates the test"""
    return any(isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not) and ast.dump(n.operand) == ast.dump(test) for n in ast.walk(expr))


def suggested(text, test):
    rs = readings(text)
    if not rs:
        raise NotApplicable(f"the suggested text does not parse: {text}")
    if "<negated" in text:
        return next((e for e in rs if negation_matches(e, test)), rs[0])
    return rs[0]


MSGS = {
    "R6201": r"The if statement can be replaced with 'return (.*)'$", "R6202": r"The if statement can be replaced with 'return (.*)'$",
    "R6203": r"The conditional assignment can be replaced with '(.*?) = (.*)'$", "R6210": r"The conditional assignment can be replaced with '(.*?) = (.*)'$",
    "R6204": r"The if expression can be replaced with '(.*)'$", "R6209": r"The if expression can be replaced with '(.*)'$",
    "R6205": r"Use 'if (.*): <else body>' instead of 'pass'$", "R6206": r"Both branches should return a value explicitly",
    "R6207": r"The if statement can be merged with the nested one to 'if (.*):'$", "R6208": r"The if statement can be merged with the following one to 'if (.*):'$",
    "R6211": r"'(.*)' can be replaced with '(.*)'$", "R6212": r"'(.*)' can be simplified to '(.*)'\. Simplify the condition", "R6213": r"'(.*)' can be replaced with '(.*)'$",
    "R6214": r"'(.*)' can be replaced with '(.*)'$", "R6215": r"'(.*)' can be replaced with '(.*)'$",
}
SWITCH = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}


def canon(e):
    """comparison -> order-independent form; numbers by value"""
    e = copy.deepcopy(e)

    class T(ast.NodeTransformer):
        def visit_UnaryOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant) and type(n.operand.value) in (int, float):
                return ast.Constant(-n.operand.value)
            return n

    e = T().visit(e)
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and type(e.ops[0]) in SWITCH:
        a, o, b = ast.dump(e.left), type(e.ops[0]), ast.dump(e.comparators[0])
        if a > b:
            a, o, b = b, SWITCH[o], a
        return (a, o.__name__, b)
    return ast.dump(e)


def apply(m, tree):
    """carries the suggestion out in the tree"""
    code = m["messageId"]
    mt = re.match(MSGS[code], m["message"], re.S)
    if not mt:
        raise NotApplicable("the message does not have the documented text")
    if code in ("R6204", "R6209"):
        node = ownlint.node_at(tree, m, ast.IfExp)
        if node is None:
            raise NotApplicable("no conditional expression at the reported place")
        replace_expr(tree, node, suggested(mt[1], node.test))
        return
    if code >= "R6211":
        node = ownlint.node_at(tree, m, ast.BoolOp)
        if node is None:
            raise NotApplicable("no condition at the reported place")
        try:
            old, new = ownlint.parse_expr(mt[1]), ownlint.parse_expr(mt[2])
        except (SyntaxError, ValueError):
            raise NotApplicable("the text does not parse")
        if not (isinstance(old, ast.BoolOp) and type(old.op) is type(node.op)):
            raise NotApplicable("the original part is not a part of the condition")
        rest = list(node.values)
        first = None
        for v in old.values:
            i = next((i for i, w in enumerate(rest) if canon(w) == canon(v)), None)
            if i is None:
                raise NotApplicable(f"'{ast.unparse(v)}' is not an operand of the condition")
            rest.pop(i)
            first = i if first is None else first
        rest.insert(first, new)
        replace_expr(tree, node, ast.BoolOp(node.op, rest) if len(rest) > 1 else rest[0])
        return
    node = ownlint.node_at(tree, m, ast.If)
    if node is None:
        raise NotApplicable("no if at the reported place")
    stmts, i = where(tree, node)
    if code in ("R6201", "R6202"):
        stmts[i] = ast.Return(suggested(mt[1], node.test))
        if not node.orelse:
            if i + 1 >= len(stmts):
                raise NotApplicable("no statement follows")
            del stmts[i + 1]
    elif code in ("R6203", "R6210"):
        try:
            t = ast.parse(f"{mt[1]} = 0").body[0]
        except SyntaxError:
            raise NotApplicable("the target does not parse")
        t.value = suggested(mt[2], node.test)
        stmts[i] = t
    elif code == "R6205":
        stmts[i] = ast.If(suggested(mt[1], node.test), node.orelse, [])
    elif code == "R6206":
        def has(ss):
            return len(ss) == 1 and isinstance(ss[0], ast.Return) and (ss[0].value is not None)
        a, b = node.body, node.orelse or stmts[i + 1:i + 2]
        if not all(len(s) == 1 and isinstance(s[0], ast.Return) for s in (a, b)) or has(a) == has(b):
            raise NotApplicable("not one return with a value and one without")
        # an explicit None does not change anything
        for s in a + b:
            if s.value is None:
                s.value = ast.Constant(None)
    elif code == "R6207":
        inner = node.body[0]
        if len(node.body) != 1 or not isinstance(inner, ast.If):
            raise NotApplicable("no nested if")
        stmts[i] = ast.If(suggested(mt[1], node.test), inner.body, [])
    elif code == "R6208":
        if i + 1 >= len(stmts) or not isinstance(stmts[i + 1], ast.If):
            raise NotApplicable("no following if")
        stmts[i] = ast.If(suggested(mt[1], node.test), node.body, [])
        del stmts[i + 1]


def shifted(m, by):
    return dict(m, line=m["line"] - by, endLine=None if m["endLine"] is None else m["endLine"] - by)


def evaluate(s, res, r, only=None):
    text = s["text"]
    ms = ownlint.run(text, "m9.py", enable=CODES)
    tree = ast.parse(text)
    for m in ms:
        if m["messageId"] not in MSGS:
            if m["messageId"].startswith(("E0001", "F0")):
                res.violation("internal", f"{m['message'][:300]}", scenario=s)
            continue
        fn = next((f for f in tree.body if f.lineno <= m["line"] <= f.end_lineno), None)
        lines = text.split("\n")[fn.lineno - 1:fn.end_lineno] if fn else []
        src = "\n".join(lines)
        mm = shifted(m, fn.lineno - 1) if fn else m
        res.case([src, m["message"], mm["line"]])
        res.count(m["messageId"])
        one = {"text": src + "\n"}
        try:
            new = ast.parse(src)
            apply(mm, new)
            after = build(new)
        except (NotApplicable, SyntaxError, ValueError) as e:
            res.violation(f"not-applicable:{m['messageId']}", f"{m['messageId']} '{m['message']}' at line {mm['line']}: {e}\n{src}", scenario=one)
            continue
        before = build(ast.parse(src))
        for args in inputs(r, "%" in m["message"] or m["messageId"] == "R6215", 6):
            u = before(args)
            if u is None:
                continue
            v = after(args)
            res.count("runs")
            if u != v:
                res.violation(f"differs:{m['messageId']}", f"{m['messageId']} '{m['message']}' at line {mm['line']}: with {args} the original gives {str(u)[:300]}, the rewritten {str(v)[:300]}\n{src}", scenario=one)
                break
        if len(res.samples) < 3:
            res.sample({"message": m["message"], "function": src})


def task(arg):
    seed, lo, hi = arg
    res = Result()
    for i in range(lo, hi):
        r = rng_for("C09", seed, i)
        evaluate(scenario(r), res, r)
    return res


def replay_task(s):
    res = Result()
    evaluate(s, res, rng_for("replay"))
    return res


def run(ctx):
    if ctx.replay:
        return core.pmerge(replay_task, [ctx.replay["scenario"]], workers=1)
    n, k = ctx.n(1600, 24000), ctx.n(20, 100)
    return core.pmerge(task, [(ctx.seed, i, min(n, i + k)) for i in range(0, n, k)])
