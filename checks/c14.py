"""C14: what is said about a loop is true of every execution of it."""
import ast
import copy
import itertools
import re
import warnings

from vlib import core, ownlint
from vlib.core import Result, rng_for

from checks import c15
from checks.c09 import NotApplicable, shifted, where

LEVEL = "exploration"
RULE = ("random functions with for and while loops of the shapes the messages speak about and near misses of them (ranges, limits, increments, jumps, nested loops, lists read and modified); every loop is instrumented and run on a grid of inputs, "
        "and each message is compared with the recorded history of its loop (iterations, values of the control variable and the limit, exits, modifications), or its rewrite is carried out and both versions are compared; "
        "non-trivial = every message whose loop was executed; distinct = function and message")
ASSUMPTIONS = ["numbers compared in loop conditions are integers, exceptions raised in called functions do not count as ends of an infinite loop", "a rewrite is judged by results, printed values and lists"]
CODES = ["R6301", "R6302", "R6303", "R6304", "R6305", "R6307", "R6308", "R6309", "R6310", "R6606", "E9996"]
MINIMUM = {"evaluations": 4000, "runs": 100000}
MINIMUM.update({c: 100 for c in CODES} | {"R6303": 40, "R6310": 40})

BOOLS, NUMS, LISTS = ["a", "b", "c"], ["x", "y", "z"], ["l", "q"]
PARAMS = "a, b, c, x, y, z, l, q, s, o"


class Gen:
    def __init__(self, r):
        self.r = r
        self.k = 0
        self.loops = 0

    def tick(self):
        self.k += 1
        return self.k

    def num(self, d=1):
        r = self.r
        if d <= 0 or r.random() < 0.6:
            return r.choice(NUMS + ["0", "1", "2", "3"])
        return r.choice([f"{self.num(0)} + {self.num(0)}", f"{self.num(0)} - {self.num(0)}", f"len({r.choice(LISTS)})", f"-{r.choice(NUMS)}", f"f({self.num(0)})", f"abs({self.num(0)})", "o.n"])

    def cond(self, vs=()):
        r = self.r
        if vs and r.random() < 0.6:
            v = r.choice(vs)
            return f"{v} {r.choice(['==', '==', '<', '>', '!='])} {r.choice(NUMS + ['0', '1', '2'])}"
        return r.choice([r.choice(BOOLS), f"{r.choice(NUMS)} {r.choice(['<', '<=', '>', '>=', '==', '!='])} {r.choice(NUMS + ['0', '1', '3'])}", f"not {r.choice(BOOLS)}", f"{r.choice(NUMS)} > 1 and {r.choice(BOOLS)}", f"f({r.choice(BOOLS)})"])

    def simple(self, vs=()):
        r = self.r
        k = r.random()
        if vs and k < 0.4:
            v = r.choice(vs)
            return r.choice([f"p({self.tick()}, {v})", f"r += {v}", f"p({self.tick()}, {v} + x)", f"q.append({v})", f"o.n = {v}"])
        return r.choice([f"p({self.tick()})", f"p({self.tick()}, {r.choice(NUMS)})", f"r = {self.num()}", "r += 1", f"{r.choice(NUMS)} = {self.num()}", f"{r.choice(NUMS)} {r.choice('+-')}= 1", f"q.append({self.num(0)})", "pass"])

    def jump(self, loop):
        return self.r.choice((["break", "break", "continue"] if loop else []) + ["return", "return r", f"return {self.num(0)}"])

    def body(self, d, vs=(), loop=True, n=None, plain=0.55):
        r = self.r
        out = []
        for _ in range(n or r.choice([1, 1, 2, 2, 3])):
            k = r.random()
            if k < plain or d <= 0:
                out.append(self.simple(vs))
            elif k < plain + 0.25:
                out += [f"if {self.cond(vs)}:"] + self.ind(self.body(d - 1, vs, loop, r.choice([1, 1, 2])) if r.random() < 0.55 else ([self.simple(vs)] if r.random() < 0.3 else []) + [self.jump(loop)])
                if r.random() < 0.3:
                    out += ["else:"] + self.ind([self.jump(loop)] if r.random() < 0.4 else self.body(d - 1, vs, loop, 1))
            elif k < plain + 0.33:
                out += r.choice([["try:"] + self.ind(self.body(d - 1, vs, loop, 1)) + ["finally:" if r.random() < 0.4 else "except ValueError:"] + self.ind([self.simple(vs)]), ["with o:"] + self.ind(self.body(d - 1, vs, loop, 1))])
            elif self.loops < 3:
                out += self.loop(d - 1, vs)
            else:
                out.append(self.simple(vs))
        return out

    def ind(self, ls):
        return ["    " + x for x in ls]

    def tail(self, ls, vs=()):
        """sometimes a jump at the end"""
        r = self.r
        k = r.random()
        if k < 0.12:
            return ls + [self.jump(True)]
        if k < 0.22:
            return ls + [f"if {self.cond(vs)}:"] + self.ind([self.simple(vs), self.jump(True)]) + ["else:"] + self.ind([self.jump(True)])
        if k < 0.26:
            return ls + ["try:"] + self.ind([self.simple(vs), self.jump(True)]) + [r.choice(["except ValueError:", "finally:"])] + self.ind([self.simple(vs)])
        return ls

    def loop(self, d, vs=()):
        self.loops += 1
        r = self.r
        ls = r.choice([self.any_for, self.bounds, self.bounds, self.modifying, self.control, self.control, self.by_index, self.by_index, self.by_index, self.small_range, self.while_true, self.while_true, self.counting, self.counting,
                       self.counting, self.forever, self.forever, self.forever, self.once])(d, vs)
        if r.random() < 0.06 and "else:" not in ls:
            ls = ls + ["else:"] + self.ind([self.simple()])
        return ls

    def var(self, vs):
        return self.r.choice([v for v in ["i", "j", "k"] if v not in vs] or ["i"])

    def any_for(self, d, vs):
        r = self.r
        v = self.var(vs)
        return [f"for {v} in {r.choice(['range(x)', 'range(x, y)', 'l', 'q', 'range(len(l))', 'range(3)', 's', 'l[:]', 'range(y, x, -1)'])}:"] + self.ind(self.tail(self.body(d, (*vs, v)), (*vs, v)))

    def once(self, d, vs):
        r = self.r
        v = self.var(vs)
        head = r.choice([f"for {v} in {r.choice(['l', 'range(x)', 's'])}:", f"while {self.cond(vs)}:"])
        vs2 = (*vs, v) if head.startswith("for") else vs
        b = self.body(d, vs2, n=r.choice([1, 2]), plain=0.4)
        k = r.random()
        if k < 0.35:
            b += [self.jump(True)]
        elif k < 0.7:
            b += [f"if {self.cond(vs2)}:"] + self.ind([self.simple(vs2), self.jump(True)]) + (["else:"] + self.ind([self.jump(True)]) if r.random() < 0.7 else [self.jump(True)])
        elif k < 0.8:
            b += ["try:"] + self.ind([self.simple(vs2), self.jump(True)]) + ["except ValueError:"] + self.ind([self.jump(True) if r.random() < 0.6 else self.simple(vs2)])
        elif k < 0.9:
            b += [f"match {self.num(0)}:", "    case 1:", "        " + self.jump(True), "    case " + r.choice(["_", "2", "w"]) + ":", "        " + self.jump(True)]
        else:
            b += ["with o:"] + self.ind([self.simple(vs2), self.jump(True)])
        return [head] + self.ind(b)

    def small_range(self, d, vs):
        r = self.r
        v = self.var(vs)
        c = lambda: r.choice(["0", "1", "2", "3", "-1", "5", "x", "len(l)", "-2", "10"])  # noqa
        s = lambda: r.choice(["1", "1", "2", "3", "-1", "-2", "5", "10", "x", "-5"])  # noqa
        k = r.random()
        if k < 0.2:
            a = [r.choice(["0", "1", "2", "-1", "x", "len(l)", "1 - 1", "True", "3 // 2"])]
        elif k < 0.55:
            b = c()
            a = [b, r.choice([b, f"{b} + 1", f"1 + {b}", f"{b} - 1", f"{b} + 2", c(), c()])]
        else:
            b = c()
            a = [b, r.choice([b, f"{b} + 1", f"{b} + 2", f"{b} - 1", f"{b} - 2", c(), c()]), s()]
        return [f"for {v} in range({', '.join(a)}):"] + self.ind(self.body(d, (*vs, v)))

    def bounds(self, d, vs):
        r = self.r
        v = self.var(vs)
        start, stop, step = r.choice(["0", "0", "1", "x", "2", "-1", "x + 1"]), r.choice(["x", "y", "4", "5", "7", "len(l)", "x + 3", "10"]), r.choice(["1", "1", "1", "2", "3", "-1", "z"])
        if step == "-1" and r.random() < 0.7:
            start, stop = stop, start
        args = [stop] if start == "0" and step == "1" and r.random() < 0.6 else [start, stop] if step == "1" and r.random() < 0.7 else [start, stop, step]
        if len(args) == 1:
            start = "0"
        ends = [start, start, f"{stop} - {step}", f"{stop} - {step}", f"{stop} - 1", stop, f"{stop} - 2", f"{start} + {step}", f"{stop} + 1"]
        if re.fullmatch(r"-?\d+", stop):
            ends += [str(int(stop) - k) for k in (1, 1, 1, 2, 3)] + [str(int(stop) - int(step))] * 2 if re.fullmatch(r"-?\d+", step) else []
        e = r.choice(ends)
        op = r.choice(["==", "==", "==", "==", "!=", ">="])
        test = f"{v} {op} {e}" if r.random() < 0.7 else f"{e} {op} {v}"
        ls = [f"if {test}:"] + self.ind([r.choice(["break", "continue", "break", "continue", "return", self.simple((v,))])])
        if r.random() < 0.15:
            ls += ["else:"] + self.ind([self.simple((v,))])
        ls += self.body(d, (*vs, v))
        if r.random() < 0.1:
            ls.insert(0, self.simple((v,)))
        if r.random() < 0.1:
            ls += [r.choice([f"{v} = 0", f"{v} += 1", "x += 1", "y -= 1", "l.append(0)"])]
        return [f"for {v} in range({', '.join(args)}):"] + self.ind(ls)

    def modifying(self, d, vs):
        r = self.r
        v = self.var(vs)
        t = r.choice(["l", "l", "q", "g", "l[:]", "list(l)", "o.l", "d"])
        n = r.choice([t if t.isidentifier() else "l", "l", "q", "g"])
        m = [f"{n}.append({v})", f"{n}.remove({v})", f"{n}.pop()", f"del {n}[0]", f"{n}[0] = {v}", f"{n} += [1]", f"{n} = {n} + [1]", f"{n}.sort()", f"{n}.copy()", f"{n}.index({v})", f"{n}.clear()", f"{n}.extend([1])", f"{n}.insert(0, 9)",
             f"p({self.tick()}, {n}.pop())", f"{n} = []", f"{n}.count(1)", f"f({n})", f"{n} = list({n})", f"{n}[:] = [1]", f"r = {n}.pop(0)", f"f({n}).append(1)", f"p({n}[0])"]
        if t == "d":
            n = r.choice(["d", "d", "l"])
            m = [f"{n}[{v}] = 1", f"{n}.pop({v})", f"{n}[9] = 2", f"{n}.copy()", f"{n}.update({{}})", f"{n}.get(1)", f"{n}.setdefault({v}, 1)"]
        w = self.body(d, (*vs, v), n=r.choice([1, 1, 2]))
        x = [r.choice(m)]
        if r.random() < 0.3:
            x.append(r.choice(["break", "return", "return l"]))
        if r.random() < 0.5:
            x = [f"if {self.cond((v,))}:"] + self.ind(x)
        if r.random() < 0.25:
            w += [r.choice([f"{n} = []", f"{n} = list({n})", f"if a:\n    {n} = q + [2]", f"{n} = l + q"])]
            w = "\n".join(w).split("\n")
        w += x
        if r.random() < 0.2:
            w += [r.choice(m)]
        return [f"for {v} in {t}:"] + self.ind(w)

    def control(self, d, vs):
        r = self.r
        v = self.var(vs)
        ls = self.body(d, (*vs, v), n=1) if r.random() < 0.6 else []
        x = [r.choice([f"{v} += 1", f"{v} -= 1", f"{v} = {self.num()}", f"{v} = {v} + 1", f"{v} = x", f"{v}, r = 1, 2", f"{v} += f({v})", f"{v} = p({self.tick()})"])]
        if r.random() < 0.2:
            x.append(r.choice(["break", "continue", "return", f"return {v}"]))
        if r.random() < 0.5:
            x = [f"if {self.cond((v,))}:"] + self.ind(x)
        ls += x
        if r.random() < 0.4:
            ls += [r.choice([self.simple((v,)), self.simple(), f"p({self.tick()}, {v})", f"while {v} < 3:\n    {v} += 1"])]
        ls = "\n".join(ls).split("\n")
        after = [f"p({self.tick()}, {v})"] if r.random() < 0.25 else []
        pre = [f"{v} = 0"] if after else []
        return pre + [f"for {v} in range({r.choice(['x', 'x, y', '3', 'len(l)', 'y, x, -1', '0, 6, 2'])}):"] + self.ind(ls) + after

    def by_index(self, d, vs):
        r = self.r
        v = self.var(vs)
        t = r.choice(["l", "l", "l", "q", "s", "o.l", "g", "ll[0]", "o.o.l", "ll"])
        e = f"{t}[{v}]"
        use = lambda: r.choice([f"p({self.tick()}, {e})", f"p({self.tick()}, {e})", f"p({e})", f"p({self.tick()}, f({e}))", f"p({self.tick()}, {v}, {e})", f"p({self.tick()}, {v})", f"{e} = 1", f"p({self.tick()}, {t}[{v} - 1])",  # noqa
                                f"p({self.tick()}, len({t}))", f"q.append({e})", f"l[{v}] = {e}", f"p({self.tick()}, l[{v}])", f"if {e}:\n    p({self.tick()}, {e})", f"p({self.tick()}, {e})\nbreak", f"{t}.append(1)", f"{t}.pop()\nbreak",
                                f"{e} += 1", f"p([{e} for _ in l])", f"p([{v} for {v} in l])", f"del {e}", f"p({self.tick()}, {t}[0])", f"p({self.tick()}, {t})", f"{t} = f({t})", f"if a:\n    {t}.append({e})\n    break", f"{v} += 1", f"w = {e}", f"return {e}",
                                f"if {e} == x:\n    return {v}", f"if {e} == x:\n    {e} = 7\n    break", f"p({self.tick()}, {t}[{v}:])", f"p({self.tick()}, {e}, {e})", f"if {e} == 1:\n    {t}.pop()\n    p({self.tick()}, {e})\n    return",
                                f"p((lambda: {e})())", f"l[x] = {v}", f"p({self.tick()}, {t}[x])", f"p(q[{v}])", f"p({self.tick()}, {t}[len({t}) - 1 - {v}])", f"{t}[x % 2] = {e}", f"{t}[x % 2] = 5", f"for j2 in range(2):\n    p({self.tick()}, {e})", f"while {e} == x:\n    p({self.tick()}, {e})\n    break"])
        good = lambda: r.choice([f"p({self.tick()}, {e})", f"if {e} == x:\n    p({self.tick()}, {e})", f"r = {e}", f"p({self.tick()}, {v}, {e})", f"q.append({e})", f"if {e} == y:\n    return {e}", f"if {e}:\n    continue", f"if {e}:\n    break"])  # noqa
        ls = []
        for _ in range(r.choice([1, 1, 2, 3])):
            ls += (use() if r.random() < 0.4 else good()).split("\n")
        if r.random() < 0.15:
            ls += self.body(d, vs, n=1)
        head = r.choice([f"range(len({t}))"] * 8 + [f"range(0, len({t}))", f"range(len({t}) - 1)", f"range(1, len({t}))", f"range(0, len({t}), 1)", "range(len(l))", f"range(0, len({t}), 2)", f"range(sum({t}))", f"range(max({t}))", f"range(abs(len({t}) - 1))", f"range(len({t})) if a else []"])
        after = [f"p({self.tick()}, {v})"] if r.random() < 0.12 else []
        pre = [f"{v} = 0"] if after else []
        return pre + [f"for {v} in {head}:"] + self.ind(ls) + after

    def while_true(self, d, vs):
        r = self.r
        b = [self.simple() for _ in range(r.choice([0, 0, 1, 2]))]
        if r.random() < 0.15:
            b += [f"if {self.cond()}:"] + self.ind([self.jump(True)])
        first = [f"if {self.cond() if r.random() < 0.5 else r.choice(['x > 5', 'r >= 3', 'not l', 'x % 2 == 0 or a', 'x < y < z', 'len(q) > 4'])}:"] + self.ind(b + [r.choice(["break"] * 6 + ["return", "continue"])])
        if r.random() < 0.2:
            first += ["else:"] + self.ind([self.simple()])
        rest = self.body(d, vs, n=r.choice([1, 2])) + [r.choice(["x += 1", "r += 1", "q.append(r)", "a = not a", "x += 1"])]
        if r.random() < 0.1:
            first = [self.simple()] + first
        return [f"while {r.choice(['True', 'True', 'True', '1', 'not False', 'x', '2.5'])}:"] + self.ind(first + rest)

    def counting(self, d, vs):
        r = self.r
        v = r.choice(["x", "w", "w", "i", "o.n"])
        lim = r.choice(["y", "5", "len(l)", "z + 2", "x", "o.n", "len(q)", "y - 1"])
        down = r.random() < 0.3
        op = r.choice([">", ">="] if down else ["<", "<="])
        if r.random() < 0.08:
            op = r.choice(["!=", "==", "<", ">"])
        test = f"{v} {op} {lim}" if r.random() < 0.75 else f"{lim} {({'<': '>', '<=': '>=', '>': '<', '>=': '<='}).get(op, op)} {v}"
        if r.random() < 0.08:
            test += r.choice([" and a", " + 1", " < 9"])
        elif r.random() < 0.1:
            test = r.choice([f"{v} * {v}", f"{v} + 1", f"{v} + {v}", f"-{v}", f"{v} * 2", f"{v} % 4", f"f({v})"]) + f" {op} {lim}"
        elif r.random() < 0.04:
            test = f"{v} {op} {r.choice([f'{v} + 1', f'2 * {v}'])}"
        sign = "-" if down else "+"
        if r.random() < 0.25:
            sign = r.choice("+-")
        inc = r.choice([f"{v} {sign}= 1"] * 4 + [f"{v} = {v} {sign} 1"] * 2 + [f"{v} = 1 + {v}", f"{v} {sign}= 2", f"{v} = 1 - {v}", f"{v} {sign}= x", f"{v} {sign}= True", f"{v} = {v} {sign} (2 - 1)", f"{v} -= -1", f"{v} *= 1", f"{v} = {v} * 1", f"{v} //= 1", f"{v} = x {sign} 1", f"{v} |= 1"])
        b = self.body(d, (*vs, v), n=r.choice([1, 2]), plain=0.45)
        k = r.random()
        if k < 0.6:
            b += [inc]
        elif k < 0.7:
            b.insert(0, inc)
        elif k < 0.8:
            b += [f"if {self.cond((v,))}:"] + self.ind([self.simple(), inc] + ([self.jump(True)] if r.random() < 0.4 else [])) + ["else:"] + self.ind([inc if r.random() < 0.6 else r.choice([f"{v} += 2", f"{v} -= 1", f"{v} += 1", f"{v} -= 2"])])
        elif k < 0.86:
            b += [f"if {self.cond((v,))}:"] + self.ind([inc] + ([self.jump(True)] if r.random() < 0.4 else [])) + [r.choice([inc, self.simple()])]
        elif k < 0.9:
            b += ["try:"] + self.ind([self.simple(), inc]) + ["except ValueError:"] + self.ind([r.choice([inc, self.simple()])])
        elif k < 0.91:
            b += ["with o:"] + self.ind([inc])
        elif k < 0.95:
            b += [r.choice(["for j2 in range(2):", "for j2 in l:", f"while {v} % 3:"])] + self.ind([inc])
        else:
            b += [inc, r.choice([inc, inc, f"if a:\n    {lim if lim.isidentifier() else 'y'} = 0", f"p({v})"])]
        b = "\n".join(b).split("\n")
        pre = [f"{v} = {r.choice(['0', '0', 'x', '1'] if not down else ['5', 'len(l)', 'z', '4'])}"] if v != "x" or r.random() < 0.5 else []
        after = [r.choice([f"p({self.tick()}, {v})", f"return {v}"])] if r.random() < 0.2 else []
        return pre + [f"while {test}:"] + self.ind(b) + after

    def forever(self, d, vs):
        r = self.r
        test = r.choice(["True", "1", "x < y", "a", "not a", "x > 0", "x >= 0 and y >= 0", "x != y", "x == 3", "r < 5", "x + y > 2", "x % 2 == 0", "x < 10 or a", "0 < x < y", "len(l) > 0", "l", "x > y > z", "o.n < 5", "f(a)", "a or b", "x", "'a'", "[1]", "x * 2 >= y"])
        ups = ["x += 1", "x -= 1", "y += 1", "x = x + 2", "x *= 2", "x = 7", "x, y = y, x", "x = abs(x)", "x = x + y", "r += 1", "a = True", "a = not a", "y = x + 1", "x += z", "x = y", "x //= 2", "x = -x", "y -= 1", "x = x * x", "x = z", "l.append(1)", "l.pop()", "l = q",
               "o.n += 1", "o.bump()", "x = f(x)", "x = x % 4", "x += 2", "x = 2 * x - y"]
        b = []
        for _ in range(r.choice([1, 1, 2, 2, 3])):
            k = r.random()
            if k < 0.6:
                b.append(r.choice(ups))
            elif k < 0.85:
                b += [f"if {r.choice([self.cond(), 'x > 3', 'x < y', 'a'])}:"] + self.ind([r.choice(ups)]) + (["else:"] + self.ind([r.choice(ups)]) if r.random() < 0.5 else [])
            elif k < 0.9:
                b += [r.choice(["for i in range(3):", "while y > 0:"])] + self.ind([r.choice(ups), "y -= 1"])
            elif k < 0.94:
                b += [f"if {self.cond()}:"] + self.ind([self.jump(True)])
            else:
                b.append(self.simple())
        if r.random() < 0.5:
            b.insert(r.randrange(len(b) + 1) if all(not x.startswith(" ") for x in b) else 0, f"p({self.tick()}, x)") if all(not x.startswith((" ", "else")) for x in b) else None
        ls = [f"while {test}:"] + self.ind(b)
        if r.random() < 0.1:
            ls = [r.choice(["try:", "for i in range(2):", "if a:", "with o:"])] + self.ind(ls)
            if ls[0] == "try:":
                ls += ["except ValueError:", "    pass"]
        return ls

    def function(self, i):
        r = self.r
        self.loops = 0
        pre = [f"def f{i}({PARAMS}):", "    r = w = 0", "    d = {1: 2, 3: 4}", "    i = j = k = 0" if r.random() < 0.5 else "    ll = [list(l), [1, 2]]", f"    g = {r.choice(['l + q', 'list(l)', '[1, 2]'])}"]
        if "ll" not in pre[3]:
            pre.append("    ll = [[3], l + q]")
        b = []
        if r.random() < 0.3:
            b.append(self.simple())
        b += self.loop(2)
        if r.random() < 0.3:
            b += self.loop(1)
        k = r.random()
        if k < 0.12:
            b = ["while True:"] + self.ind(b + ["x += 1", f"if x > {r.choice([3, 5])}:", "    break"])
        elif k < 0.2:
            b = [f"for {self.var(())} in range(2):"] + self.ind(b)
        return "\n".join(pre + self.ind(b) + (["    p('end', r, x, y, z, a, l, q, g, w, o.n)"] if r.random() < 0.9 else []) + (["    return r"] if r.random() < 0.5 else []))


def scenario(r):
    g = Gen(r)
    out = []
    for i in range(8):
        for _ in range(20):
            t = g.function(i)
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    compile(t, "f", "exec")
                break
            except SyntaxError:
                continue
        else:
            t = "def f():\n    pass"
        out.append(t)
    return {"text": "\n\n\n".join(out) + "\n"}


# ------------------------------------------------------------------ execution

class Stop(BaseException):
    pass


class Traced(list):
    """a list which knows the modifications made to it"""

    changes = None

    def __add__(self, other):
        return Traced(list.__add__(self, other))

    def __getitem__(self, i):
        v = list.__getitem__(self, i)
        return Traced(v) if type(v) is list else v


for _n in ("append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "__setitem__", "__delitem__", "__iadd__", "__imul__"):
    def _m(self, *xs, _f=getattr(list, _n), **kw):
        self.changes = (self.changes or 0) + 1
        return _f(self, *xs, **kw)
    setattr(Traced, _n, _m)


class Obj:
    def __init__(self, depth=2):
        self.n, self.l = 2, Traced([4, 5])
        if depth:
            self.o = Obj(depth - 1)

    def __enter__(self):
        return self

    def __exit__(self, *_):
        return False

    def bump(self):
        self.n += 1


class Trace:
    """histories of the executions of loops: [loop, iterations, done, values, tests]"""

    def __init__(self):
        self.runs, self.stack = [], []

    def enter(self, i):
        e = {"loop": i, "iterations": 0, "done": False, "values": [], "tests": [], "reached": [], "iterated": None, "changed": []}
        self.runs.append(e)
        self.stack.append(e)

    def top(self, i):
        while self.stack[-1]["loop"] != i:
            self.stack.pop()
        return self.stack[-1]

    def iteration(self, i):
        self.top(i)["iterations"] += 1

    def leave(self, i):
        self.top(i)["done"] = True
        self.stack.pop()

    def iterated(self, i, it):
        self.top(i)["iterated"] = it
        return it

    def value(self, i, v):
        self.top(i)["values"].append(v)

    def reached(self, i):
        e = self.top(i)
        e["reached"].append(e["iterations"])

    def test(self, i, v, lim):
        self.top(i)["tests"].append((v, lim))

    def changed(self, i, before, after):
        e = self.top(i)
        e["changed"].append((before, after, e["iterated"]))


def call_(name, *args):
    return ast.Call(ast.Attribute(ast.Name("trace_", ast.Load()), name, ast.Load()), [a if isinstance(a, ast.expr) else ast.Constant(a) for a in args], [])


class Steps(ast.NodeTransformer):
    """ends runs which take too long, and records the loops asked about"""

    def __init__(self, loops=()):
        self.loops = dict(loops)

    def loop(self, n):
        self.generic_visit(n)
        n.body.insert(0, ast.Expr(ast.Call(ast.Name("step_", ast.Load()), [], [])))
        if n in self.loops:
            i = self.loops[n]
            n.body.insert(0, ast.Expr(call_("iteration", i)))
            if isinstance(n, ast.For):
                n.iter = call_("iterated", i, n.iter)
            return [ast.Expr(call_("enter", i)), n, ast.Expr(call_("leave", i))]
        return n

    visit_For = visit_While = loop

    def visit_List(self, n):
        self.generic_visit(n)
        return ast.Call(ast.Name("list_", ast.Load()), [n], []) if isinstance(n.ctx, ast.Load) else n


def build(tree, loops=()):
    tree = c15.Limited().visit(Steps(loops).visit(tree))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        code = compile(ast.fix_missing_locations(tree), "m", "exec")
    name = tree.body[0].name

    def call(args, trace=None):
        log, n = [], [0]
        args = [Traced(x) if isinstance(x, list) else x for x in args]

        def step():
            n[0] += 1
            if n[0] > 120 or any(isinstance(x, list) and len(x) > 1000 for x in args):
                raise Stop

        def p(*xs):
            step()
            log.append(repr(xs))

        ns = {"p": p, "f": lambda v: v, "step_": step, "trace_": trace, "snap_": snap, "small_": c15.small, "list": lambda x=(): Traced(x), "list_": Traced}
        exec(code, ns)
        o = Obj()
        try:
            with core.time_limit(5):
                out = "returned " + repr(ns[name](*args, o))
        except Stop:
            out = "went on"
        except (OverflowError, MemoryError, core.TimeLimit, c15.Stop):
            return None
        except Exception as e:
            out = "raised " + type(e).__name__
        try:
            return out, log, repr(args), repr((o.n, o.l, o.o.l))
        except ValueError:
            return None

    return call


def inputs(r, n):
    res = []
    nums = [-3, -2, -1, 0, 0, 1, 1, 2, 3, 4, 5, 6, 8]
    for bs in itertools.product([False, True], repeat=3):
        for _ in range(n):
            res.append((*bs, *(r.choice(nums) for _ in range(3)), r.choice([[1, 2], [0], [], [3, 3, 4, 8], [5, 1, 0]]), r.choice([[5], [6, 7], [0, 1, 2]]), r.choice(["", "a", "abc"])))
    return res


# --------------------------------------------------------------- judgements

def parents(tree):
    for x in ast.walk(tree):
        for c in ast.iter_child_nodes(x):
            c.parent = x


def need(tree, m, *types):
    n = ownlint.node_at(tree, m, *types)
    if n is None:
        raise NotApplicable("nothing of the kind at the reported place")
    return n


def loop_of(n):
    while not isinstance(n, (ast.For, ast.While)):
        n = n.parent
    return n


def stmt_of(n):
    while not isinstance(n, ast.stmt):
        n = n.parent
    return n


def inserted(tree, n, before=(), after=()):
    s, i = where(tree, n)
    s[i:i + 1] = [*before, n, *after]


class Subst(ast.NodeTransformer):
    def __init__(self, text, new):
        self.text, self.new, self.n = text, new, 0

    def visit_Subscript(self, n):
        if isinstance(n.ctx, ast.Load) and ast.unparse(n) == self.text:
            self.n += 1
            return ast.Name(self.new, ast.Load())
        return self.generic_visit(n)


def jumps(stmts, *types):
    """break and continue belonging to the loop of the statements"""
    for s in stmts:
        if isinstance(s, types):
            yield s
        if isinstance(s, (ast.For, ast.While)):
            yield from jumps(s.orelse, *types)
        elif not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            for _, v in ast.iter_fields(s):
                if isinstance(v, list) and v and isinstance(v[0], (ast.stmt, ast.ExceptHandler, ast.match_case)):
                    for x in v:
                        yield from jumps([x] if isinstance(x, ast.stmt) else x.body, *types)


def rewritten(m, tree):
    """the suggestion is carried out in the tree"""
    code = m["messageId"]
    if code == "R6301":
        n = need(tree, m, ast.While)
        first = n.body[0]
        if not isinstance(first, ast.If):
            raise NotApplicable("no condition in the loop")
        if list(jumps(first.body[:-1], ast.Break)):  # no place for them after the loop
            return False
        n.test = ast.UnaryOp(ast.Not(), first.test)
        n.orelse = first.body[:-1] or []  # an else of the original is never reached
        n.body = first.orelse + n.body[1:]
        if not n.body:
            n.body = [ast.Pass()]
    elif code == "R6304":
        n = need(tree, m, ast.stmt, ast.expr)
        n = stmt_of(n)
        name = re.search(r"variable (\w+) of", m["message"]).group(1)
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
            s, i = where(tree, n)
            s[i] = ast.Expr(n.value)
        elif isinstance(n, ast.Assign):
            k = 0
            for t in n.targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and x.id == name:
                        x.id, k = "unused_", k + 1
            if not k:
                raise NotApplicable(f"no change of {name} there")
        else:
            raise NotApplicable(f"no change of {name} there")
    elif code in ("R6307", "R6308"):
        n = need(tree, m, ast.For)
        x = re.search(r'"for var in (.*)" \(' if code == "R6307" else r'"for (\w+), var in enumerate\((.*)\)" \(', m["message"])
        i, t = (n.target.id, x[1]) if code == "R6307" else (x[1], x[2])
        if i != n.target.id:
            raise NotApplicable(f"the index is {n.target.id}")
        sub = Subst(f"{t}[{i}]", "var_")
        n.body = [sub.visit(s) for s in n.body]
        if not sub.n:
            raise NotApplicable(f"{t}[{i}] does not occur in the loop")
        new = ast.parse(f"for {'var_' if code == 'R6307' else i + ', var_'} in {t if code == 'R6307' else f'enumerate({t})'}:\n    pass").body[0]
        n.target, n.iter = new.target, new.iter
    return True


def traced(m, tree):
    """a probe of the loop: (the loop, the judgement of its executions)"""
    code = m["messageId"]
    if code == "R6302":
        n = need(tree, m, ast.For)
        first = n.body[0]
        if not isinstance(first, ast.If):
            raise NotApplicable("no condition in the loop")
        mark = ast.Expr(call_("reached", 0))
        n.body.insert(1, mark)
        if first.orelse:
            first.orelse.insert(0, copy.deepcopy(mark))
        which = re.search(r"the (\w+) iteration", m["message"]).group(1)

        def judge(e):
            if e["iterated"] is None:
                return None
            k = {"first": 1, "last": len(e["iterated"])}[which]
            if k in e["reached"] and len(e["iterated"]):
                return f"iteration {k} of {e['iterated']} happened"
        return n, judge
    if code == "R6303":
        x = need(tree, m, ast.stmt, ast.expr)
        s, n = stmt_of(x), loop_of(x)
        name = re.search(r"structure (.*) is being", m["message"]).group(1)
        while not (isinstance(n, ast.For) and isinstance(n.iter, ast.Name) and n.iter.id == name):
            if not hasattr(n, "parent"):
                raise NotApplicable(f"no loop over {name} around it")
            n = n.parent
        if isinstance(s, (ast.If, ast.While, ast.For, ast.Try, ast.With, ast.Match)):
            return n, lambda e: None
        if any(isinstance(x, ast.Name) and x.id == name and not isinstance(x.ctx, ast.Load) and stmt_of(x) is not s for b in n.body for x in ast.walk(b)):
            return n, lambda e: None  # whether the name still stands for the structure depends on values
        probe = lambda: ast.Name(name, ast.Load())  # noqa
        inserted(tree, s, [ast.parse(f"before_ = ({name}, snap_({name}))").body[0]], [ast.Expr(call_("changed", 0, ast.Name("before_", ast.Load()), ast.parse(f"({name}, snap_({name}))").body[0].value))])
        return n, "changes"
    if code == "R6305":
        n = need(tree, m, ast.While)
        if not isinstance(n.test, ast.Compare) or len(n.test.ops) != 1:
            raise NotApplicable("not a comparison")
        sides = [n.test.left, n.test.comparators[0]]
        up = isinstance(n.test.ops[0], (ast.Lt, ast.LtE))
        changed = {ast.unparse(t) for b in n.body for x in ast.walk(b) for t in (x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, ast.AugAssign) else [])}
        k = next((k for k in (0, 1) if ast.unparse(sides[k]) in changed), None)
        if k is None:
            raise NotApplicable("no side of the comparison is changed in the loop")
        n.body.insert(0, ast.Expr(call_("test", 0, copy.deepcopy(sides[k]), copy.deepcopy(sides[1 - k]))))

        def judge(e):
            ts = e["tests"]
            if len({lim for _, lim in ts}) > 1:
                return f"the limit changes: {ts}"
            ds = {b[0] - a[0] for a, b in zip(ts, ts[1:])}
            if not ds <= {1 if up == (k == 0) else -1}:
                return f"the values do not go one by one: {ts}"
        return n, judge
    if code in ("R6309", "R6310"):
        n = need(tree, m, ast.While)
        return n, lambda e: "the loop ended" if e["done"] and (e["iterations"] or code == "R6309") else None
    if code == "R6606":
        n = need(tree, m, ast.For)
        k = {"The for loop makes no iterations.": 0, "The for loop makes only one iteration.": 1}[m["message"]]
        return n, lambda e: f"there were {e['iterations']} iterations" if e["iterations"] > k or e["done"] and e["iterations"] != k else None
    if code == "E9996":
        n = need(tree, m, ast.For, ast.While)
        return n, lambda e: f"there were {e['iterations']} iterations" if e["iterations"] > 1 else None
    return None


def snap(v):
    return (getattr(v, "changes", None), repr(v))


def evaluate(s, res, r):
    text = s["text"]
    ms = ownlint.run(text, "m14.py", enable=CODES)
    tree = ast.parse(text)
    for m in ms:
        code = m["messageId"]
        if code not in CODES:
            if code.startswith(("E0001", "F0")):
                res.violation("internal", f"{m['message'][:300]}", scenario=s)
            continue
        fn = next((f for f in tree.body if f.lineno <= m["line"] <= f.end_lineno), None)
        src = "\n".join(text.split("\n")[fn.lineno - 1:fn.end_lineno]) if fn else ""
        mm = shifted(m, fn.lineno - 1) if fn else m
        one = {"text": src + "\n"}
        new = ast.parse(src)
        parents(new)
        said = f"{code} '{m['message']}' at line {mm['line']}"
        try:
            pr = traced(mm, new)
            if pr:
                loop, judge = pr
                run = build(new, {loop: 0})
            else:
                if not rewritten(mm, new):
                    res.count("skipped")
                    continue
                after, before = build(new), build(ast.parse(src))
        except (NotApplicable, SyntaxError, ValueError) as e:
            res.violation(f"not-applicable:{code}", f"{said}: {e}\n{src}", scenario=one)
            continue
        seen = 0
        if pr:
            hits = misses = 0
            for args in inputs(r, 4):
                t = Trace()
                out = run(args, t)
                res.count("runs")
                seen += len(t.runs)
                if judge == "changes":
                    for e in t.runs:
                        for (b, sb), (a, sa), it in e["changed"]:
                            if b is it and (sa != sb or a is not b):
                                hits += 1
                            elif not isinstance(it, dict):
                                misses += 1
                    continue
                bad = next(filter(None, (judge(e) for e in t.runs)), None)
                if bad:
                    res.violation(f"untrue:{code}", f"{said}: with {args} {bad}\n{src}", scenario=one)
                    break
            if judge == "changes" and misses and not hits:
                res.violation(f"untrue:{code}", f"{said}: never modified what the loop iterates over in {misses} executions\n{src}", scenario=one)
            res.count("loop executions", seen)
        else:
            for args in inputs(r, 4):
                u = before(args)
                if u is None or code in ("R6307", "R6308") and u[0] == "raised TypeError":
                    continue
                v = after(args)
                res.count("runs")
                seen += 1
                if v is None or "went on" in (u[0], v[0]) and (u[0] == v[0] or all(map(str.__eq__, u[1], v[1]))):  # the limit of steps is met at other places
                    continue
                if u != v:
                    res.violation(f"differs:{code}", f"{said}: with {args} the original gives {str(u)[:300]}, the rewritten {str(v)[:300]}\n{src}", scenario=one)
                    break
        if seen:
            res.case([src, m["message"], mm["line"]])
            res.count(code)
        else:
            res.count("not executed:" + code)
        res.sample({"message": m["message"], "function": src})




def task(arg):
    seed, lo, hi = arg
    res = Result()
    for i in range(lo, hi):
        r = rng_for("C14", seed, i)
        evaluate(scenario(r), res, r)
    return res


def replay_task(s):
    res = Result()
    evaluate(s, res, rng_for("replay"))
    return res


def run(ctx):
    if ctx.replay:
        return core.pmerge(replay_task, [ctx.replay["scenario"]], workers=1)
    n, k = ctx.n(1200, 24000), ctx.n(15, 100)
    return core.pmerge(task, [(ctx.seed, i, min(n, i + k)) for i in range(0, n, k)])
