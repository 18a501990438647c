"""Random syntactically valid Python 3.12 programs over the whole grammar, mixed with idioms the checks look for.

Programs are not meant to be run. Everything is a function of the given random.Random.
"""
import ast
import random
import re
import textwrap

NAMES = ["x", "y", "z", "i", "j", "n", "lst", "d", "s", "foo", "res", "l", "O", "řeka", "_", "__p", "self", "cls", "len", "range", "sum", "print", "N", "CONST"]
ATTRS = ["a", "b", "append", "items", "keys", "value", "__init__", "isdecimal", "copy", "x", "sort", "pop"]
FUNCS = ["len", "range", "f", "g", "print", "abs", "max", "min", "sum", "list", "dict", "set", "str", "int", "enumerate", "zip", "ord", "chr", "isinstance", "sorted",
         "map", "filter", "open", "eval", "exec", "super", "input", "any", "all", "tuple", "bool", "float", "reversed", "next", "iter", "type"]
MODS = ["os", "sys", "math", "os.path", "collections", "random", "ib111", "re"]
CONSTS = [0, 1, 2, 3, -1 + 0, 10, 100, 2 ** 70, 0.0, 1.5, 1e308 * 10, 3j, True, False, None, Ellipsis, "", "a", "A", "z", "0", "abc", "it's", 'q"', "a\nb", "ř", "%s", "{}",
          b"", b"xy\xff", "\\", "\t", "very long " * 8]


class Gen:
    def __init__(self, r: random.Random, names=None):
        self.r = r
        self.names = names or NAMES
        self.budget = 0
        self.cond_names = r.sample(self.names, min(2, len(self.names)))

    # ------------------------------------------------------------ expressions

    def name(self):
        return self.r.choice(self.names)

    def const(self):
        r = self.r
        k = r.random()
        if k < 0.5:
            return ast.Constant(r.choice([0, 1, 2, 3, 5, 10]))
        return ast.Constant(r.choice(CONSTS))

    def expr(self, d, c):
        """c: context dict(func, async_, loop, cls, comp)"""
        r = self.r
        if d <= 0 or r.random() < 0.22:
            k = r.random()
            return ast.Name(self.name(), ast.Load()) if k < 0.6 else self.const()
        k = r.choice(["bool", "bin", "bin", "un", "cmp", "cmp", "call", "call", "attr", "sub", "sub", "ifexp", "list", "tuple", "dict", "set", "comp", "lambda", "fstr", "walrus",
                      "await", "yield", "starcall", "slice", "meth", "not", "idiom", "mod"])
        e = lambda: self.expr(d - 1, c)  # noqa
        if k == "bool":
            return ast.BoolOp(r.choice([ast.And(), ast.Or()]), [e() for _ in range(r.randint(2, 4))])
        if k == "bin":
            return ast.BinOp(e(), r.choice([ast.Add(), ast.Sub(), ast.Mult(), ast.Div(), ast.FloorDiv(), ast.Mod(), ast.Pow(), ast.LShift(), ast.RShift(), ast.BitOr(),
                                            ast.BitAnd(), ast.BitXor(), ast.MatMult()]), e())
        if k == "un":
            return ast.UnaryOp(r.choice([ast.UAdd(), ast.USub(), ast.Invert(), ast.Not()]), e())
        if k == "not":
            return ast.UnaryOp(ast.Not(), e())
        if k == "cmp":
            n = 1 if r.random() < 0.75 else r.randint(2, 3)
            return ast.Compare(e(), [r.choice([ast.Eq(), ast.NotEq(), ast.Lt(), ast.LtE(), ast.Gt(), ast.GtE(), ast.Is(), ast.IsNot(), ast.In(), ast.NotIn()]) for _ in range(n)],
                               [e() for _ in range(n)])
        if k == "call":
            return ast.Call(ast.Name(r.choice(FUNCS), ast.Load()), [e() for _ in range(r.randint(0, 3))],
                            [ast.keyword(self.name(), e())] if r.random() < 0.15 else [])
        if k == "starcall":
            return ast.Call(e(), [ast.Starred(e(), ast.Load()), e()], [ast.keyword(None, e())] if r.random() < 0.5 else [])
        if k == "meth":
            return ast.Call(ast.Attribute(e(), r.choice(ATTRS), ast.Load()), [e() for _ in range(r.randint(0, 2))], [])
        if k == "mod":
            return ast.BinOp(ast.Name(self.name(), ast.Load()), ast.Mod(), ast.Constant(r.randint(0, 5)))
        if k == "attr":
            return ast.Attribute(e(), r.choice(ATTRS), ast.Load())
        if k == "sub":
            return ast.Subscript(e(), e(), ast.Load())
        if k == "slice":
            sl = ast.Slice(*[e() if r.random() < 0.5 else None for _ in range(3)])
            if r.random() < 0.2:
                sl = ast.Tuple([sl, e()], ast.Load())
            return ast.Subscript(e(), sl, ast.Load())
        if k == "ifexp":
            return ast.IfExp(e(), e(), e())
        if k in ("list", "set"):
            elts = [e() for _ in range(r.randint(0 if k == "list" else 1, 4))]
            if r.random() < 0.1:
                elts.append(ast.Starred(e(), ast.Load()))
            return ast.List(elts, ast.Load()) if k == "list" else ast.Set(elts)
        if k == "tuple":
            return ast.Tuple([e() for _ in range(r.randint(0, 3))], ast.Load())
        if k == "dict":
            n = r.randint(0, 3)
            return ast.Dict([e() if r.random() < 0.9 else None for _ in range(n)], [e() for _ in range(n)])
        if k == "comp":
            c2 = dict(c, comp=True)
            gens = [ast.comprehension(self.target(1, c2, simple=True), self.expr(d - 1, dict(c, nowalrus=True)), [self.expr(d - 1, c2) for _ in range(r.choice([0, 0, 1, 2]))],
                                      1 if c.get("async_") and r.random() < 0.2 else 0) for _ in range(r.choice([1, 1, 1, 2, 3]))]
            kk = r.random()
            if kk < 0.25:
                return ast.DictComp(self.expr(d - 1, c2), self.expr(d - 1, c2), gens)
            return r.choice([ast.ListComp, ast.SetComp, ast.GeneratorExp])(self.expr(d - 1, c2), gens)
        if k == "lambda":
            return ast.Lambda(self.args(d - 1, c, annotations=False), self.expr(d - 1, dict(c, func=True, async_=False, comp=False)))
        if k == "fstr":
            vals = []
            for _ in range(r.randint(1, 3)):
                if r.random() < 0.5:
                    vals.append(ast.Constant(r.choice(["a", "%", " x ", "{", "ř"])))
                else:
                    spec = ast.JoinedStr([ast.Constant(r.choice([">10", ".2f", "x"]))]) if r.random() < 0.3 else None
                    vals.append(ast.FormattedValue(self.expr(min(d - 1, 1), dict(c, nowalrus=True)), r.choice([-1, -1, 114, 115]), spec))
            return ast.JoinedStr(vals)
        if k == "walrus" and not c.get("nowalrus") and not (c.get("cls") and c.get("comp")):
            return ast.NamedExpr(ast.Name(self.name(), ast.Store()), e())
        if k == "await" and c.get("async_") and not c.get("comp"):
            return ast.Await(e())
        if k == "yield" and c.get("func") and not c.get("comp") and not c.get("cls"):
            if c.get("async_") or r.random() < 0.6:
                return ast.Yield(e() if r.random() < 0.7 else None)
            return ast.YieldFrom(e())
        if k == "idiom":
            return self.idiom_expr(d, c)
        return ast.Name(self.name(), ast.Load())

    EXPRS = ["{n} == {n}", "{n} > {k} and {n} > {k2}", "{n} > {k} or {n} <= {k}", "{n} == True", "{n} is False", "not {n} == {m}", "{n} == {k} or {n} == {k2} or {n} == {m}",
             "ord({n}) - 97", "chr({n} + 65)", "{n}[ord('a') - {k}]", "'0' <= {n} <= '9'", "'0' <= {n} and {n} <= '9'", "{n} * {n} * {n}", "{n} + {n} + {n}", "[[]] * {k}", "[{{}}] * {n}",
             "{n} + 0", "1 * {n}", "{n} ** 1", "int({n} / {k})", "int({n} / {m})", "{n} // 1", "({n} > {k}) == True", "{n} if {n} > {k} else {m}", "True if {n} else False",
             "False if {n} == {k} else True", "{n} > {m} and {n} < {m}", "{n} >= {k} or {n} == {k}", "{n} > {m} or {n} == {m}", "{n} > -{k} and {n} < {k}", "{n} % 2 == 0 or {n} % 2 == 1",
             "len({n}) == 0", "len({n}) >= 0", "range(len({n}))", "{n} > {k} and {m} > {k} and {n} > {m}", "{n}.append({m})", "{n}[{m}]", "{n}[{m}][{i}]", "{n} < {m} and {m} < {n}",
             "abs({n}) > {k}", "'{n}' + '{n}' + '{n}'", "{n} != {k} and {n} != {k2}", "{n} == {k} and {n} == {k2}", "({n} and {m}) or (not {n} and {m})", "{n} or True", "{n} and False",
             "not ({n} and not {m})", "{n} is None", "type({n}) == int", "{n} == '' or {n} == 'a'", "{n} < ord('z')", "{n} == 65", "chr(97)", "{n} > 1.5 and {n} > 2.5", "10 < {n} < 5"]
    STMTS = [
        "if {e}:\n    return True\nelse:\n    return False", "if {e}:\n    return True\nreturn False", "if {e}:\n    return False\nreturn {e2}", "if {e}:\n    {n} = True\nelse:\n    {n} = False",
        "if {e}:\n    if {e2}:\n        {B}", "if {e}:\n    pass\nelse:\n    {B}", "if {e}:\n    {B}\nelse:\n    if {e2}:\n        {B2}", "if {e}:\n    {B}\nelif {e2}:\n    {B}\nelse:\n    {B}",
        "if {e}:\n    {B}\nelif not {e}:\n    {B2}", "if {n} > {k}:\n    {B}\nelif {n} <= {k}:\n    {B2}\nelse:\n    {B3}", "if {n} == {k}:\n    {B}\nif {n} == {k2}:\n    {B2}\nif {n} == {m}:\n    {B3}",
        "if {n} > {k}:\n    {B}\nif {n} > {k2}:\n    {B}", "if {n} == 1:\n    return 'a'\nif {n} == 2:\n    return 'b'\nif {n} == 3:\n    return 'c'\nreturn None",
        "for {i} in range(len({n})):\n    print({n}[{i}])", "for {i} in range(len({n})):\n    {n}[{i}] = {n}[{i}] + {k}", "for {i} in range({k}, len({n})):\n    {m} = {n}[{i}]\n    {B}",
        "for {i} in range({k}):\n    return {i}", "for {i} in {n}:\n    {i} = {i} + 1\n    {B}", "for {i} in {n}:\n    {n}.remove({i})", "for {i} in {n}:\n    {B}\nelse:\n    {B2}",
        "for {i} in {n}:\n    for {i} in {m}:\n        {B}", "for {n}[0] in {m}:\n    {B}", "for {n}.x in {m}:\n    pass", "while True:\n    if {e}:\n        break\n    {B}", "while True:\n    {B}\n    if {e}:\n        break",
        "{i} = 0\nwhile {i} < {n}:\n    {B}\n    {i} += 1", "{i} = 0\nwhile {i} < len({n}):\n    {m} = {n}[{i}]\n    {i} = {i} + 1", "while {e}:\n    {n} = {n} - 1", "while {n} > 0:\n    {m} += {n} % 10\n    {n} //= 10",
        "while 1:\n    {B}", "while {e}:\n    {B}\n    break", "{n} = {n} + {k}", "{n} = {k} + {n}", "{n} = {n} + [{m}]", "{n} += [{m}]", "{n} = {n} * {n}", "{n} = {e} if {e2} else {e3}", "{n} == {k}",
        "if {e}:\n    {n} += 1\nelse:\n    {n} += 2", "if {e}:\n    print('a', {n})\n    {B}\nelse:\n    print('b', {n})\n    {B}", "{n} = 1\n{m} = {n}\n{n} = 2", "print({n}[0])\nprint({n}[1])\nprint({n}[2])\nprint({n}[3])",
        "{n} = {m} = {k}", "{n}, {m} = {m}, {n}", "({n}, *{m}), {i} = {e}", "{n}: int", "{n}: int = {k}", "{n}.a: int = {k}", "del {n}", "del {n}[{k}], {m}.a", "global {n}", "nonlocal {n}", "assert {e}, {e2}", "raise", "raise {e} from {e2}",
        "try:\n    {B}\nexcept ValueError as {n}:\n    {B2}\nexcept (KeyError, TypeError):\n    pass\nelse:\n    {B3}\nfinally:\n    {B}", "try:\n    {B}\nfinally:\n    {B2}", "try:\n    {B}\nexcept* ValueError as {n}:\n    {B2}", "try:\n    {B}\nexcept:\n    {B2}",
        "with open({n}) as {m}:\n    {B}", "with {e} as ({n}, {m}), {e2}:\n    {B}", "with {n}, {m} as {i}.a:\n    {B}", "import os, sys as {n}", "from os import path as {n}, sep", "from math import *", "from . import {n}", "from ..a.b import c", "import os.path as {n}", "import os.path",
        "match {e}:\n    case {k}:\n        {B}\n    case [{n}, *_] if {e2}:\n        {B2}\n    case _:\n        {B3}", "match {n}:\n    case {{'a': {m}, **{i}}}:\n        {B}\n    case int({m}) | str({m}):\n        {B2}\n    case None | True:\n        pass",
        "match {n}, {m}:\n    case ({k}, {k2}) as {i}:\n        {B}\n    case [*_]:\n        pass\n    case os.sep:\n        pass\n    case -1 | 2.5 | 1+2j | 'a' 'b':\n        pass\n    case {{}}:\n        pass\n    case Cl(a={k}, b=[_, _]):\n        pass\n    case []:\n        pass",
        "class {N}:\n    {B}", "class {N}({n}, metaclass={m}):\n    '''doc'''\n    {n} = {k}\n    def m(self, {n}):\n        self.{n} = {n}\n        {B}", "class {N}[T, *Ts, **P]({e}):\n    pass",
        "def {f}({n}, {m}):\n    {B}\n    return {n}", "def {f}({n}, /, {m}={k}, *args, {i}: int = {k2}, **kwargs) -> int:\n    {B}", "def {f}[T: int, *Ts]({n}: T) -> T:\n    {B}", "async def {f}({n}):\n    async for {i} in {n}:\n        await {m}\n    async with {n} as {m}:\n        {B}\n    return [x async for x in {n}]",
        "@{n}\n@{m}.a({k})\ndef {f}():\n    {B}", "def {f}():\n    yield {e}\n    x = yield\n    yield from {n}", "def {f}():\n    if {e}:\n        return\n    return {k}", "type {N}[T] = list[T]", "type {N} = int", "lambda: (yield)", "print({e})", "return {e}", "return", "break", "continue", "pass", "...", "'''string'''",
        "{n}[{m}] = {e}", "{n}.x += {e}", "{n}[{i}:] = {m}", "*{n}, {m} = {e}", "{n} @= {m}", "{n} **= 2", "if ({n} := {e}) is None:\n    {B}", "{n} = [{i} for {i} in {n} if ({m} := {i})]", "{n} = {{{i}: {m} for {i}, {m} in {n}.items()}}", "__all__ = ['{n}']",
        "if __name__ == '__main__':\n    {B}", "def {f}({n}):\n    def g():\n        nonlocal {n}\n        {n} = 1\n    g()\n    return {n}", "{n} = lambda {m}={k}, *{i}: {m} + {n}", "for {n}, ({m}, *{i}) in {e}:\n    {B}", "async def {f}():\n    return await {n}, [await {m} for {i} in {n}]",
        "{n} = {n} if {n} > {m} else {m}", "if {n} < {m}:\n    {n} = {m}", "if {n} % 2 == 0:\n    {m} = 'a'\nelif {n} % 2 == 1:\n    {m} = 'b'", "if {n}:\n    return {m}\nelif {e}:\n    return {k}\nelse:\n    return {k2}", "if {e}:\n    {f}({n}, 1, 'a')\nelse:\n    {f}({n}, 2, 'a')",
        "with {n}:\n    pass", "{n}()()[{k}].a", "if {e}: {n} = 1; {m} = 2", "while {e}: pass", "try: pass\nexcept Exception: pass", "for {i} in []: pass", "class {N}: pass", "def {f}(): pass", "if {n} == 0:\n    pass\nelif {n} == 1:\n    pass", "exec('x = 1')", "print()", "assert ({e}, 'x')", "{n} = yield_ = {e}",
        "if {n} >= {k} and {n} <= {k2} or {n} >= {m}:\n    {B}", "while not {e}:\n    {B}", "for {i} in range({n}, {m}, -1):\n    {B}", "for {i} in range(len({n}) - 1):\n    if {n}[{i}] > {n}[{i} + 1]:\n        {n}[{i}], {n}[{i} + 1] = {n}[{i} + 1], {n}[{i}]", "for _ in range({k}):\n    print({n}[_])",
    ]

    def fill(self, tpl, d, c):
        r = self.r

        def sub(m):
            k = m.group(1)
            if k in ("n", "m"):
                return self.name()
            if k == "i":
                return r.choice(["i", "j", "k", "idx", "x", "_"])
            if k in ("k", "k2"):
                return str(r.choice([0, 1, 2, 3, 5, 10, -1]))
            if k == "f":
                return r.choice(["f", "g", "h", "foo", "main", "__init__"])
            if k == "N":
                return r.choice(["A", "B", "Node", "x"])
            if k[0] == "e":
                if r.random() < 0.3:
                    return Gen(r, self.cond_names).cond(2)
                return ast.unparse(ast.fix_missing_locations(self.expr(max(d, 1), c)))
            raise AssertionError(k)

        out = []
        for line in tpl.split("\n"):
            m = re.fullmatch(r"(\s*)\{(B\d?)\}", line)
            if m:
                cc = dict(c)
                if re.match(r"\s*(async )?for|while", tpl.lstrip()):
                    cc["loop"] = True
                out.append(textwrap.indent(self.block(d - 1, cc), m.group(1)))
            else:
                line = line.replace("{{", "\x01").replace("}}", "\x02")
                out.append(re.sub(r"\{(\w+)\}", sub, line).replace("\x01", "{").replace("\x02", "}"))
        return "\n".join(out)

    def arith(self, d):
        """arithmetic over few variables and odd constants, as text"""
        r = self.r
        k = r.random()
        if d <= 0 or k < 0.3:
            return r.choice([self.name(), self.name(), self.name(), str(r.choice([0, 1, 2, 3, -1, 10, 2.5, -0.5, "1e400", 10 ** 20, "True", "'a'", "None", "1e-9", "2j", "[]", "()"]))])
        if k < 0.75:
            return f"({self.arith(d - 1)} {r.choice(['+', '-', '*', '//', '%', '/', '**', '&', '<<', '+', '-'])} {self.arith(d - 1)})"
        return r.choice(["abs({})", "len({})", "-{}", "({})", "+{}", "not {}", "{}.a", "{}[0]", "min({}, 1)", "int({})", "f({})", "~{}"]).format(self.arith(d - 1))

    def cond(self, d):
        r = self.r
        k = r.random()
        if d <= 0 or k < 0.35:
            return f"{self.arith(2)} {r.choice(['<', '<=', '>', '>=', '==', '!=', '<', '==', 'is', 'in', 'not in', 'is not'])} {self.arith(1)}"
        if k < 0.45:
            return f"{self.arith(1)} {r.choice(['<', '<=', '=='])} {self.arith(1)} {r.choice(['<', '<=', '>', '!='])} {self.arith(1)}"
        if k < 0.8:
            return "(" + r.choice([" and ", " or "]).join(self.cond(d - 1) for _ in range(r.randint(2, 3))) + ")"
        if k < 0.9:
            return f"not ({self.cond(d - 1)})"
        return self.arith(1)

    def idiom_expr(self, d, c):
        if self.r.random() < 0.35:
            small = Gen(self.r, self.r.sample(self.names, min(2, len(self.names))))
            try:
                return ast.parse(small.cond(2), mode="eval").body
            except SyntaxError:
                pass
        for _ in range(5):
            try:
                return ast.parse(self.fill(self.r.choice(self.EXPRS), 0, c), mode="eval").body
            except SyntaxError:
                pass
        return self.const()

    # ------------------------------------------------------------ targets, arguments, patterns

    def target(self, d, c, simple=False):
        r = self.r
        k = r.random()
        if k < 0.6 or d <= 0:
            return ast.Name(self.name(), ast.Store())
        if k < 0.8:
            ts = [self.target(d - 1, c, simple) for _ in range(r.randint(1, 3))]
            if r.random() < 0.3:
                ts[r.randrange(len(ts))] = ast.Starred(self.target(0, c), ast.Store())
            return r.choice([ast.Tuple, ast.List])(ts, ast.Store())
        if simple and k < 0.95:
            return ast.Name(self.name(), ast.Store())
        if k < 0.9:
            return ast.Attribute(self.expr(d - 1, dict(c, nowalrus=True)), r.choice(ATTRS), ast.Store())
        return ast.Subscript(self.expr(d - 1, dict(c, nowalrus=True)), self.expr(d - 1, dict(c, nowalrus=True)), ast.Store())

    def args(self, d, c, annotations=True):
        r = self.r
        names = [f"p{i}" for i in range(6)] + r.sample(self.names, min(6, len(self.names)))
        c = dict(c, nowalrus=True)
        arg = lambda: ast.arg(names.pop(), self.expr(d - 1, c) if annotations and r.random() < 0.2 else None)  # noqa
        pos, ar, kwo = [arg() for _ in range(r.choice([0, 0, 0, 1]))], [arg() for _ in range(r.choice([0, 1, 2]))], [arg() for _ in range(r.choice([0, 0, 0, 1]))]
        nd = r.randint(0, len(pos) + len(ar)) if r.random() < 0.4 else 0
        return ast.arguments(pos, ar, arg() if r.random() < 0.15 else None, kwo, [self.expr(d - 1, c) if r.random() < 0.5 else None for _ in kwo],
                             arg() if r.random() < 0.15 else None, [self.expr(d - 1, c) for _ in range(nd)])

    def pattern(self, d):
        r = self.r
        k = r.choice(["val", "val", "sing", "seq", "map", "cls", "star", "as", "or", "cap", "wild", "attr"])
        if d <= 0:
            k = r.choice(["val", "sing", "cap", "wild"])
        if k == "val":
            return ast.MatchValue(ast.Constant(r.choice([0, 1, "a", 2.5, b"x", 3])))
        if k == "attr":
            return ast.MatchValue(ast.Attribute(ast.Name(self.name(), ast.Load()), r.choice(ATTRS), ast.Load()))
        if k == "sing":
            return ast.MatchSingleton(r.choice([None, True, False]))
        if k == "seq" or k == "star":
            ps = [self.pattern(d - 1) for _ in range(r.randint(0, 3))]
            if k == "star":
                ps.append(ast.MatchStar(r.choice([None, self.name()])))
            return ast.MatchSequence(ps)
        if k == "map":
            n = r.randint(0, 2)
            return ast.MatchMapping([ast.Constant(x) for x in r.sample(["a", 1, "b", None], n)], [self.pattern(d - 1) for _ in range(n)], r.choice([None, "rest"]))
        if k == "cls":
            return ast.MatchClass(ast.Name(r.choice(["int", "str", "A"]), ast.Load()), [self.pattern(d - 1) for _ in range(r.randint(0, 2))], r.sample(ATTRS, 1), [self.pattern(d - 1)])
        if k == "as":
            return ast.MatchAs(self.pattern(d - 1), self.name())
        if k == "or":
            return ast.MatchOr([ast.MatchValue(ast.Constant(i)) for i in range(r.randint(2, 3))])
        if k == "cap":
            return ast.MatchAs(None, self.name())
        return ast.MatchAs(None, None)

    # ------------------------------------------------------------ statements

    def stmt_ast(self, d, c):
        r = self.r
        e = lambda dd=2: self.expr(dd, c)  # noqa
        kinds = ["assign", "assign", "aug", "expr", "if", "if", "for", "while", "with", "try", "match", "func", "cls", "del", "raise", "assert", "ann", "import", "global"]
        if c.get("func"):
            kinds += ["return"] * 2 + ["nonlocal"]
        if c.get("loop"):
            kinds += ["break", "continue"]
        k = r.choice(kinds if d > 0 else ["assign", "aug", "expr", "del", "raise", "assert", "ann", "import"])
        B = lambda **kw: ast.parse("if 1:\n" + textwrap.indent(self.block(d - 1, dict(c, **kw)), "    ")).body[0].body  # noqa
        opt = lambda p, **kw: B(**kw) if r.random() < p else []  # noqa
        if k == "assign":
            return ast.Assign([self.target(2, c) for _ in range(r.choice([1, 1, 1, 2]))], e(3))
        if k == "aug":
            t = self.target(0, c)
            return ast.AugAssign(t, r.choice([ast.Add(), ast.Sub(), ast.Mult(), ast.FloorDiv(), ast.BitOr()]), e())
        if k == "expr":
            return ast.Expr(e(3))
        if k == "if":
            return ast.If(e(), B(), opt(0.5))
        if k == "for":
            if c.get("async_") and r.random() < 0.4:
                return ast.AsyncFor(self.target(1, c), e(), B(loop=True), opt(0.2))
            it = e()
            if r.random() < 0.4:  # calls of the iterables the checks know, with any number and kind of arguments
                a = [ast.Starred(e(1), ast.Load()) if r.random() < 0.15 else e(1) for _ in range(r.choice([0, 1, 1, 2, 3, 4]))]
                it = ast.Call(ast.Name(r.choice(["range", "range", "enumerate", "zip", "reversed", "len"]), ast.Load()), a,
                              [ast.keyword(r.choice([None, "start"]), e(1))] if r.random() < 0.2 else [])
            return ast.For(self.target(1, c), it, B(loop=True), opt(0.2))
        if k == "while":
            return ast.While(e(), B(loop=True), opt(0.2))
        if k == "with":
            items = [ast.withitem(e(), self.target(1, c) if r.random() < 0.6 else None) for _ in range(r.choice([1, 1, 2]))]
            return (ast.AsyncWith if c.get("async_") and r.random() < 0.4 else ast.With)(items, B())
        if k == "try":
            hs = [ast.ExceptHandler(e(1), r.choice([None, self.name()]), B()) for _ in range(r.randint(0, 2))]
            star = hs and r.random() < 0.15
            if not star and r.random() < 0.3:
                hs.append(ast.ExceptHandler(None, None, B()))
            fin = opt(0.4 if hs else 1)
            return (ast.TryStar if star else ast.Try)(B(), hs, opt(0.3) if hs else [], fin)
        if k == "match":
            return ast.Match(e(), [ast.match_case(self.pattern(2), e(1) if r.random() < 0.3 else None, B()) for _ in range(r.randint(1, 3))])
        if k == "func":
            a = r.random() < 0.15
            kw = dict(func=True, async_=a, loop=False, cls=False, comp=False, nowalrus=False)
            f = (ast.AsyncFunctionDef if a else ast.FunctionDef)(r.choice(["f", "g", "h", self.name()]), self.args(2, c), B(**kw), [e(1) for _ in range(r.choice([0, 0, 0, 1, 2]))],
                                                                 e(1) if r.random() < 0.2 else None)
            f.type_params = [ast.TypeVar("T", None)] if r.random() < 0.08 else []
            return f
        if k == "cls":
            f = ast.ClassDef(r.choice(["A", "B", self.name()]), [e(1) for _ in range(r.choice([0, 0, 1]))], [], B(cls=True, func=False, loop=False, async_=False),
                             [e(1)] if r.random() < 0.15 else [])
            f.type_params = [ast.TypeVar("T", None)] if r.random() < 0.08 else []
            return f
        if k == "del":
            return ast.Delete([r.choice([ast.Name(self.name(), ast.Del()), ast.Subscript(e(1), e(1), ast.Del()), ast.Attribute(e(1), "a", ast.Del())])])
        if k == "raise":
            return r.choice([ast.Raise(None, None), ast.Raise(e(), None), ast.Raise(e(), e(1))])
        if k == "assert":
            return ast.Assert(e(), e(1) if r.random() < 0.3 else None)
        if k == "ann":
            t = r.choice([ast.Name(self.name(), ast.Store()), ast.Attribute(e(1), "a", ast.Store()), ast.Subscript(e(1), e(1), ast.Store())])
            return ast.AnnAssign(t, e(1), e() if r.random() < 0.6 else None, int(isinstance(t, ast.Name) and r.random() < 0.9))
        if k == "import":
            if r.random() < 0.5:
                return ast.Import([ast.alias(r.choice(MODS), r.choice([None, self.name()]))])
            return ast.ImportFrom(r.choice(MODS), [ast.alias(self.name(), r.choice([None, self.name()]))], r.choice([0, 0, 0, 1, 2]))
        if k == "global":
            return ast.Global([self.name()])
        if k == "nonlocal":
            return ast.Nonlocal([self.name()])
        if k == "return":
            return ast.Return(e(3) if r.random() < 0.8 else None)
        if k == "break":
            return ast.Break()
        return ast.Continue()

    def stmt(self, d, c):
        """text of one statement that compiles in a plausible context"""
        for _ in range(8):
            try:
                if self.r.random() < 0.55:
                    tpl = self.r.choice(self.STMTS)
                    if d <= 0 and "{B" in tpl:
                        continue
                    t = self.fill(tpl, min(d, 2), c)
                else:
                    t = ast.unparse(ast.fix_missing_locations(self.fix(self.stmt_ast(d, c))))
                if self.ok(t, c):
                    return t
            except (SyntaxError, ValueError, RecursionError):
                pass
        return "pass"

    @staticmethod
    def fix(node):
        # negative numbers and tuples in odd places are normalised by unparse + parse
        return node

    def ok(self, t, c):
        src = textwrap.indent(t, "        ")
        pre = ""
        if c.get("loop"):
            src = "        while x_:\n" + textwrap.indent(src, "    ")
        if c.get("func"):
            pre = "def outer_(" + ", ".join(n for n in dict.fromkeys(self.names) if n not in ("__p",)) + "):\n"
            pre += "    async def f_():\n" if c.get("async_") else "    def f_():\n"
        elif c.get("cls"):
            pre = "if 1:\n    class C_:\n"
        else:
            pre = "if 1:\n    if 1:\n"
        try:
            compile(pre + src, "x", "exec", dont_inherit=True)
            return True
        except (SyntaxError, ValueError, OverflowError, MemoryError, RecursionError):
            return False

    def block(self, d, c):
        n = self.r.choice([1, 1, 2, 2, 3])
        out = []
        for _ in range(n):
            self.budget -= 1
            if self.budget <= 0:
                out.append("pass")
                break
            out.append(self.stmt(d, c))
        return "\n".join(out)

    def program(self, size=25, depth=3):
        """text of a module"""
        self.budget = size
        parts = []
        while self.budget > 0:
            if self.r.random() < 0.55:
                c = dict(func=True, async_=self.r.random() < 0.1)
                names = self.r.sample([n for n in self.names if n not in ("__p",)], 3)
                t = ("async " if c["async_"] else "") + f"def {self.r.choice(['f', 'g', 'h', 'main', 'solve'])}({', '.join(names)}):\n"
                t += textwrap.indent("\n".join(self.block(depth, c) for _ in range(self.r.randint(1, 3))), "    ")
            else:
                t = self.stmt(depth, {})
            self.budget -= 1
            try:
                compile("\n".join(parts + [t]), "x", "exec", dont_inherit=True)
            except (SyntaxError, ValueError, RecursionError, MemoryError, OverflowError):
                continue
            parts.append(t)
        return "\n".join(parts) + "\n"


def relayout(text, r):
    """the same program in a hostile layout (kept only when it still means the same)"""
    want = ast.dump(ast.parse(text))
    lines = text.split("\n")
    out = []
    for ln in lines:
        k = r.random()
        ind = re.match(r"\s*", ln).group()
        if k < 0.06:
            out.append(ind + r.choice(["# comment", "#", "# edulint: pylint=--disable=R6201", "#: x", "# type: ignore", "# ř " + "x" * 90]))
        elif k < 0.1:
            out.append(r.choice(["", "   ", "\t", "\f"]))
        if k > 0.95 and ln.strip():
            ln = ln + r.choice(["  # noqa", "  # type: int", " ;", "   ", "  # pylint: disable=all", "\t"])
        if 0.9 < k < 0.95:
            ln = re.sub(r" (\+|==|and|or|<|>|=) ", r" \\\n \1 ", ln, count=1)
        out.append(ln)
    t = "\n".join(out)
    k = r.random()
    if k < 0.1:
        t = re.sub(r"^( +)", lambda m: "\t" * (len(m.group(1)) // 4) + " " * (len(m.group(1)) % 4), t, flags=re.M)
    elif k < 0.2:
        t = re.sub(r"^( +)", lambda m: " " * (len(m.group(1)) // 2), t, flags=re.M)
    try:
        if ast.dump(ast.parse(t)) != want:
            t = text
    except SyntaxError:
        t = text
    return t
