"""C10: conditions claimed always true, false, redundant or unreachable are."""
import ast
import copy
import re
import warnings

from checks import c09
from checks.c09 import NotApplicable, build, replace_expr, where
from vlib import core, ownlint
from vlib.core import Result, rng_for

LEVEL = "exploration"
RULE = ("random functions over integers, halves and booleans with conditions on the same few variables and constants, elif chains, consecutive ifs and assignments between them; every claim is carried out on Python's own "
        "tree (dropped operand, reordered chain, merged ifs) or guarded by an assertion (always true, never reached) and both versions are run on a grid of inputs; distinct = function and message")
ASSUMPTIONS = ["numbers are integers and multiples of a quarter, so that no rounding happens", "variables get their values from expressions of a known numeric type, operands of % 2 are integers", "inputs on which the original program raises an exception (also that of an assert) and divisions by zero no longer guarded by a redundant operand are left out", "an else with nothing but an if in it counts as an elif"]
MINIMUM = {"evaluations": 6000, "runs": 1000000}
MINIMUM.update({"R6216": 1000, "R6217": 800, "R6218": 800, "R6219": 150, "R6220": 100, "R6221": 250, "R6222": 1500, "R6223": 400, "R6224": 15})
CODES = sorted(c for c in MINIMUM if c.startswith("R62"))


class Gen:
    def __init__(self, r):
        self.r = r
        self.k = 0
        self.ints = r.sample(["x", "y", "z"], r.choice([1, 2, 2]))
        self.reals = ["f"] if r.random() < 0.25 else []
        self.bools = ["b"] if r.random() < 0.3 else []
        self.consts = r.sample(["0", "1", "2", "3", "-1", "4"], r.choice([2, 3]))
        if self.reals:
            self.consts += ["0.5", "1.5"]
        self.exprs = [self.expr() for _ in range(r.choice([1, 2, 3]))] + self.ints

    def tick(self):
        self.k += 1
        return self.k

    def var(self):
        return self.r.choice(self.ints + self.ints + self.reals)

    def expr(self):
        r = self.r
        v, w = self.r.choice(self.ints), self.r.choice(self.ints)
        k = r.random()
        if k < 0.35:
            return self.var()
        if k < 0.42:
            return r.choice([f"{v} % -2", f"{v} % -3", f"{v} % -4", f"{v} % 1", f"{v} % -1", f"{v} // -1", f"({v} + {w}) % -3", f"-{v} % -3", f"{v} // 1", f"abs({v}) % -3", f"{v} % 4"])
        return r.choice([f"{v} % 2", f"{v} % 3", f"{v} // 2", f"{v} // 3", f"{v} // -2", f"{v} // -3", f"abs({v})", f"{v} + {w}", f"{v} - {w}", f"{v} + 1", f"2 * {v}", f"-{v}", f"{v} / 2", f"({v} + {w}) % 2", f"{v} * {w}",
                         f"abs({v} - {w})", f"{v} % {w}", f"{v} ** 2", f"{v} / -4", f"abs({v}) % 2", f"-{v} // 2", f"({v} - 1) // -2", f"len(str({v}))", f"max({v}, {w})", f"abs({self.var()})", f"{v} % 2 + {w}", f"+{v}",
                         f"{self.var()} - {self.var()}", f"int({self.var()})", f"{v} // 2 * 2"])

    def atom(self):
        r = self.r
        k = r.random()
        if k < 0.78:
            e = r.choice(self.exprs)
            o = r.choice(["<", "<=", ">", ">=", "==", "!="])
            t = r.choice(self.consts) if r.random() < 0.75 else r.choice(self.exprs)
            return f"{e} {o} {t}" if r.random() < 0.85 else f"{t} {o} {e}"
        if k < 0.88:
            return r.choice(self.bools or self.ints)
        if k < 0.93:
            return r.choice(self.exprs)
        if k < 0.97:
            return "not " + r.choice(self.bools + self.ints)
        return r.choice(["True", "False", "1", "0", "2 > 1"])

    def cond(self, d=2):
        r = self.r
        k = r.random()
        if d == 0 or k < 0.45:
            return self.atom()
        if k < 0.55:
            return f"not ({self.cond(d - 1)})"
        op = r.choice(["and", "or"])
        return f" {op} ".join(self.par(self.cond(d - 1)) for _ in range(r.choice([2, 2, 3])))

    def par(self, e):
        return f"({e})" if " and " in e or " or " in e else e

    def small(self):
        """an expression whose repeated assignment does not grow too fast"""
        return self.r.choice([e for e in self.exprs if "*" not in e])

    def number(self):
        r = self.r
        return r.choice([r.choice(self.consts), r.choice(self.consts), self.small(), self.var(), f"{self.var()} + 1", f"{self.var()} - 1", f"-{self.var()}", f"2 * {self.var()}"])

    def simple(self, assigning):
        r = self.r
        if not assigning or r.random() < 0.55:
            return f"p({self.tick()})" if r.random() < 0.8 else f"p({self.tick()}, {self.var()})"
        k = r.random()
        v = self.var()
        if k < 0.4:
            return f"{v} = {self.number()}"
        if k < 0.6:
            op = r.choice(['+=', '-=', '+=', '-=', '*=', '//=', '/='])
            return f"{v} {op} {r.choice(['1', '2', '1', self.small() if "*" not in op else '2'])}"
        if k < 0.7:
            return f"{v} = {self.number()} if {self.atom()} else {self.number()}"
        if k < 0.78 and len(self.ints) > 1:
            return f"{self.ints[0]}, {self.ints[1]} = {self.number()}, {self.number()}"
        if k < 0.84 and self.bools:
            return f"b = {self.atom()}"
        if k < 0.88:
            return f"assert {self.atom()}"
        if k < 0.92:
            return f"{v}: int = {self.number()}"
        return f"r = {self.cond()}"

    def block(self, ind, loop, d, assigning):
        r = self.r
        pad = "    " * ind
        out = []
        for _ in range(r.choice([1, 1, 1, 2])):
            if d > 0 and r.random() < 0.12:
                out += self.chain(ind, loop, d - 1, assigning)
            else:
                out.append(pad + self.simple(assigning))
        if r.random() < 0.12:
            out.append(pad + r.choice(["return 1", f"return {self.cond()}"] + (["break", "continue"] if loop else [])))
        return out

    def chain(self, ind, loop, d=1, assigning=False, else_ok=True):
        r = self.r
        pad = "    " * ind
        out = [pad + f"if {self.cond()}:"] + self.block(ind + 1, loop, d, assigning)
        first = out[0].strip()[3:-1]
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            k = r.random()
            c = self.cond()
            if k < 0.15:
                c = self.negation(first)
            elif k < 0.35:
                c = f"{self.par(self.negation(first))} {r.choice(['and', 'or'])} {self.par(c)}"
            out += [pad + f"elif {c}:"] + self.block(ind + 1, loop, d, assigning)
        if else_ok and r.random() < 0.5:
            out += [pad + "else:"] + self.block(ind + 1, loop, d, assigning)
        return out

    def negation(self, c):
        neg = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}
        m = re.fullmatch(r"([^<>=!]+) (<|<=|>|>=|==|!=) ([^<>=!]+)", c)
        if m and " and " not in c and " or " not in c and self.r.random() < 0.8:
            return f"{m[1]} {neg[m[2]]} {m[3]}"
        return f"not ({c})"

    def consecutive(self, ind, loop):
        """ifs after one another, on one variable"""
        r = self.r
        pad = "    " * ind
        out = []
        e = r.choice(self.exprs)
        vals = list(dict.fromkeys(self.consts + ["5", "6"]))
        r.shuffle(vals)
        assigning = r.random() < 0.7
        for i in range(r.choice([2, 2, 3, 4])):
            k = r.random()
            c = f"{e} == {vals[i % len(vals)]}" if k < 0.6 else self.atom() if k < 0.85 else self.cond()
            if k > 0.9 and out:
                c = self.negation(out[0].strip()[3:-1])
            out += [pad + f"if {c}:"] + self.block(ind + 1, loop, 1 if r.random() < 0.15 else 0, assigning)
            while r.random() < 0.15:
                out += [pad + f"elif {self.cond(1)}:"] + self.block(ind + 1, loop, 0, assigning)
            if r.random() < 0.05:
                out += [pad + "else:"] + self.block(ind + 1, loop, 0, assigning)
        return out

    def body(self, ind, loop=False, d=1):
        r = self.r
        out = []
        for _ in range(r.choice([1, 2, 3])):
            pad = "    " * ind
            k = r.random()
            if d > 0 and k < 0.15:
                h = r.choice(["for i in range(2):", "while p(0) is None:", "if p(0) is None:", "try:"])
                out.append(pad + h)
                out += self.body(ind + 1, loop or h[0] in "fw", d - 1)
                if h == "try:":
                    out += [pad + "finally:", pad + f"    p({self.tick()})"]
                if h.startswith("while"):
                    out.append(pad + "    break")
            elif k < 0.3:
                out.append(pad + self.simple(True))
            elif k < 0.5:
                out.append(pad + r.choice([f"r = {self.cond()}", f"p({self.tick()}, {self.cond()})", f"r = not ({self.cond()})", f"r = [v for v in (1, 2) if {self.cond()}]", f"r = 1 if {self.cond()} else 2",
                                           f"return {self.cond()}", f"r = 5 and ({self.cond()})", f"r = ({self.cond()}) == ({self.cond()})"]))
            elif k < 0.75:
                out += self.chain(ind, loop, 1, r.random() < 0.3)
            else:
                out += self.consecutive(ind, loop)
        return out

    def function(self, i):
        r = self.r
        head = [f"def f{i}(a, b, c, p0, p1, p2, o, d):", "    r = None"]
        src = ["p0", "p1", "p2"]
        self.vars = []
        for v, s in zip(self.ints, src):
            head.append("    " + r.choice([f"{v} = int({s})", f"{v} = int({s})", f"{v}: int = int({s}) - 1", f"{v} = int({s})\n    if a:\n        {v} = {v} + 2", f"{v} = len(str({s}))", f"{v} = int({s}) // 2",
                                           f"{v} = -int({s})", f"{v} = int({s}) % 5"]))
        if self.reals:
            head.append("    " + r.choice(["f = float(p2)", "f = float(p2) / 2", "f = abs(float(p2))", "f = 2 * float(p2)", "f = float(p2) - 0.5", "f = int(p2) / 4", "f = float(p2) % 3", "f = 2 ** -abs(int(p2))"]))
            if r.random() < 0.5:
                self.exprs += r.sample(["f % 3", "f // 2", "f * 2", "f + 1", "-f"], 2)
        if self.bools:
            head.append("    " + r.choice(["b = p1 > 0", "b = not a", "b = p1 == p2", "b = True"]))
        return "\n".join(head + self.body(1) + ["    p('end', r, " + ", ".join(self.ints + self.reals + self.bools) + ")"])


def scenario(r):
    out = []
    for i in range(6):
        for _ in range(30):
            t = Gen(r).function(i)
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    compile(t, "f", "exec")
                break
            except SyntaxError:
                continue
        else:
            t = "def f():\n    pass"
        out.append(t)
    return {"text": "\n\n\n".join(out) + "\n"}


# ---------------------------------------------------------------------- claims

def boom_stmt(what):
    return ast.parse(f"boom({what!r})").body[0]


def split_args(text):
    out, depth, cur = [], 0, ""
    i = 0
    while i < len(text):
        ch = text[i]
        depth += ch in "([{"
        depth -= ch in ")]}"
        if depth == 0 and text.startswith(", ", i):
            out.append(cur)
            cur = ""
            i += 2
            continue
        cur += ch
        i += 1
    return out + [cur]


def parent_if(tree, node):
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and len(n.orelse) == 1 and n.orelse[0] is node:
            return n
    raise NotApplicable("not an elif")


def expr_of(text):
    try:
        return ownlint.parse_expr(text)
    except (SyntaxError, ValueError):
        raise NotApplicable(f"the text does not parse: {text}")


class Flat(ast.NodeTransformer):
    """astroid writes (a and b) and c without the parentheses"""

    def visit_BoolOp(self, n):
        self.generic_visit(n)
        vs = []
        for v in n.values:
            vs += v.values if isinstance(v, ast.BoolOp) and type(v.op) is type(n.op) else [v]
        return ast.BoolOp(n.op, vs)


def same(a, b):
    return ast.dump(Flat().visit(copy.deepcopy(a))) == ast.dump(Flat().visit(copy.deepcopy(b)))


def apply(m, tree, src):
    code, text = m["messageId"], m["message"]
    def node_of(*types):
        n = ownlint.node_at(tree, m, *types)
        if n is None:
            raise NotApplicable("nothing of the kind at the reported place")
        return n

    def match(p):
        mt = re.fullmatch(p, text, re.S)
        if not mt:
            raise NotApplicable("the message does not have the documented text")
        return mt

    if code == "R6216":
        mt = match(r"'(.*)' can be replaced with '(.*)'")
        old, new = expr_of(mt[1]), expr_of(mt[2])
        n = next((n for n in ast.walk(tree) if isinstance(n, ast.BoolOp) and (n.lineno, n.col_offset, n.end_lineno, n.end_col_offset) == (m["line"], m["column"], m["endLine"], m["endColumn"])), None)
        if n is None or not same(n, old):
            raise NotApplicable("the condition at the reported place is another: " + str(n and ast.unparse(n)) + str((m["line"], m["column"], m["endLine"], m["endColumn"])))
        replace_expr(tree, n, new)
    elif code == "R6222":
        value = match(r"This condition is always (True|False)\.")[1]
        n = node_of(ast.BoolOp, ast.Compare)
        replace_expr(tree, n, ast.Call(ast.Name("always", ast.Load()), [n, ast.Constant(value == "True")], []))
    elif code == "R6217":
        kind = match(r"This '(elif|else)' is unreachable\.")[1]
        if kind == "elif":
            n = node_of(ast.If)
            parent_if(tree, n)
            n.test = ast.Call(ast.Name("boom", ast.Load()), [ast.Constant("unreachable elif")], [])
        else:
            n = ownlint.node_at(tree, m, ast.stmt)
            st = next((i for i in ast.walk(tree) if isinstance(i, ast.If) and i.orelse and i.orelse[0] is n), None)
            if st is None:
                raise NotApplicable("not the first statement of an else")
            st.orelse.insert(0, boom_stmt("unreachable else"))
    elif code == "R6218":
        match(r"This 'elif' can be replaced with just 'else'\.")
        n = node_of(ast.If)
        parent_if(tree, n).orelse = n.body
    elif code == "R6219":
        mt = match(r"'(.*)' can be replaced with '(.*)', because some operands of the '(and|or)' are always (True|False)\.")
        n = node_of(ast.If)
        parent_if(tree, n)
        if not same(n.test, expr_of(mt[1])):
            raise NotApplicable("the condition at the reported place is another: " + str(n and ast.unparse(n)) + str((m["line"], m["column"], m["endLine"], m["endColumn"])))
        if (mt[3] == "and") != (mt[4] == "True") or not isinstance(n.test, ast.BoolOp) or isinstance(n.test.op, ast.And) != (mt[3] == "and"):
            raise NotApplicable("wrong operation named")
        n.test = expr_of(mt[2])
    elif code == "R6220":
        mt = match(r"Conditions in the if statement can be simplified by reordering elif blocks, we suggest this order: '([\d., ]*)' with these possibly simplified test conditions respectively: '(.*)'\.")
        n = node_of(ast.If)
        blocks = {}
        cur, i = n, 1
        while True:
            blocks[i] = cur.body
            i += 1
            if len(cur.orelse) == 1 and isinstance(cur.orelse[0], ast.If):
                cur = cur.orelse[0]
            else:
                break
        if cur.orelse:
            blocks[i] = cur.orelse
        order = [int(k.rstrip(".")) for k in mt[1].split(", ")]
        conds = split_args(mt[2])
        if len(order) != len(conds) or len(set(order)) != len(order) or not set(order) <= set(blocks):
            raise NotApplicable("order and conditions do not fit the statement")
        new = []
        for k, c in list(zip(order, conds))[::-1]:
            if c == "else block":
                if new:
                    raise NotApplicable("else before another branch")
                new = blocks[k]
            else:
                new = [ast.If(expr_of(c), blocks[k], new)]
        stmts, j = where(tree, n)
        stmts[j:j + 1] = new
    elif code == "R6221":
        match(r"The body of this 'elif' is never executed, because its condition is always False when reached\.")
        n = node_of(ast.If)
        parent_if(tree, n)
        n.body.insert(0, boom_stmt("body never executed"))
    else:
        k = int(match(r"The next (\d+) if statements after this one can be elif statements\.")[1])
        n = node_of(ast.If)
        stmts, j = where(tree, n)
        ifs = stmts[j:j + k + 1]
        if k < 1 or len(ifs) != k + 1 or not all(isinstance(s, ast.If) for s in ifs):
            raise NotApplicable(f"{k} ifs do not follow")
        del stmts[j + 1:j + k + 1]
        for a, b in zip(ifs, ifs[1:]):
            while len(a.orelse) == 1 and isinstance(a.orelse[0], ast.If):
                a = a.orelse[0]
            if a.orelse:
                raise NotApplicable("an else is in the way")
            a.orelse = [b]


class Wrong(BaseException):
    pass


def guards():
    def boom(what):
        raise Wrong(what)

    def always(v, claimed):
        if bool(v) != claimed:
            raise Wrong(f"condition is {v!r}")
        return v

    return {"boom": boom, "always": always}


def inputs(r, n):
    res = []
    for _ in range(n):
        res.append((*(r.random() < 0.5 for _ in range(3)), *(r.choice([-4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 0.5, 1.5, -0.5, 2.5, -2.5, 0.25, 9]) for _ in range(3))))
    for v in range(-5, 7):
        for w in range(-3, 5):
            res.append((*(r.random() < 0.5 for _ in range(3)), v, w, r.choice([v, w, 0.5, -v])))
    return res


def evaluate(s, res, r):
    ms = ownlint.run(s["text"], "m10.py", enable=CODES)
    tree = ast.parse(s["text"])
    for m in ms:
        if m["messageId"] not in CODES:
            continue
        fn = next(f for f in tree.body if f.lineno <= m["line"] <= f.end_lineno)
        src = "\n".join(s["text"].split("\n")[fn.lineno - 1:fn.end_lineno])
        mm = c09.shifted(m, fn.lineno - 1)
        res.case([src, m["message"], mm["line"]])
        res.count(m["messageId"])
        one = {"text": src + "\n"}
        what = f"{m['messageId']} '{m['message']}' at line {mm['line']}"
        try:
            new = ast.parse(src)
            apply(mm, new, src)
            after = build(new, guards())
        except (NotApplicable, SyntaxError, ValueError) as e:
            res.violation(f"not-applicable:{m['messageId']}", f"{what}: {e}\n{src}", scenario=one)
            continue
        before = build(ast.parse(src))
        for args in inputs(r, 40):
            u = before(args)
            if u is None or u[0].startswith("raised"):
                continue
            try:
                v = after(args)
            except Wrong as e:
                v = f"contradicted: {e}"
            res.count("runs")
            if v is not None and v[0].startswith("raised ZeroDivisionError"):  # an operand that guarded a division is redundant all the same
                continue
            if u != v:
                res.violation(f"differs:{m['messageId']}", f"{what}: with {args} the original gives {str(u)[:300]}, the rewritten {str(v)[:300]}\n{src}", scenario=one)
                break
        if len(res.samples) < 3:
            res.sample({"message": m["message"], "function": src})


def task(arg):
    seed, lo, hi = arg
    res = Result()
    for i in range(lo, hi):
        r = rng_for("C10", seed, i)
        evaluate(scenario(r), res, r)
    return res


def replay_task(s):
    res = Result()
    evaluate(s, res, rng_for("replay"))
    return res


def run(ctx):
    if ctx.replay:
        return core.pmerge(replay_task, [ctx.replay["scenario"]], workers=1)
    n, k = ctx.n(800, 16000), ctx.n(20, 80)
    return core.pmerge(task, [(ctx.seed, i, min(n, i + k)) for i in range(0, n, k)])
