"""C16: what the duplication messages say about the code is true of it."""
import ast
import copy
import itertools
import os
import re
import warnings

from vlib import core, ownlint
from vlib.core import Result, rng_for

LEVEL = "exploration"
RULE = ("random programs of identical, similar and nearly similar branches, chains, consecutive ifs, twisted nested ifs and repeated statements; every duplication message is confronted with "
        "Python's ast of the reported place, suggested conditions, conditional expressions and iterated values are evaluated; non-trivial = a program with such a message; distinct = the program text")
ASSUMPTIONS = ["suggested conditions and expressions are evaluated on programs whose conditions have no effects and are not changed by the branches",
               "similar blocks are checked for their counts, lines and kinds of statements only; the messages on calls, helper variables and containers are not checked"]
CODES = ["R6501", "R6502", "R6503", "R6504", "R6551", "R6552", "R6553", "R6555", "R6556", "R6557", "R6558", "R6560"]
MINIMUM = {"evaluations": 1200, "is:R6501": 500, "is:R6502": 400, "is:R6503": 250, "is:R6504": 80, "is:R6552": 120, "loop:values": 80, "is:R6560": 50, "run:R6558": 40, "run:R6553": 20, "run:R6557": 5}


# ------------------------------------------------------------------ programs

NAMES = ["a", "b", "c", "d"]


def expr(r, deep=2):
    k = r.randrange(9 if deep else 3)
    if k <= 1:
        return r.choice(NAMES + ["n", "m"])
    if k == 2:
        return str(r.randint(0, 9))
    if k == 3:
        return f"({expr(r, deep - 1)} {r.choice(['+', '-', '*'])} {expr(r, deep - 1)})"
    if k == 4:
        return f"{r.choice(['f', 'g'])}({expr(r, deep - 1)})"
    if k == 5:
        return f"[{expr(r, deep - 1)}, {expr(r, deep - 1)}]"
    if k == 6:
        return repr(r.choice(["x", "yes", "no", "", "a b"]))
    if k == 7:
        return r.choice(["True", "False", "None"])
    return f"f({expr(r, deep - 1)}, {expr(r, deep - 1)})"


def test(r, deep=1):
    k = r.randrange(8)
    if k <= 1:
        return r.choice(NAMES)
    if k == 2:
        return "not " + r.choice(NAMES)
    if k <= 4:
        return f"{r.choice(['n', 'm'])} {r.choice(['<', '<=', '>', '>=', '==', '!='])} {r.randint(0, 2)}"
    if k == 5:
        return f"n {r.choice(['<', '>', '=='])} m"
    if deep:
        return f"{test(r, 0)} {r.choice(['and', 'or'])} {test(r, 0)}"
    return r.choice(NAMES)


def stmt(r, deep=2):
    """-> lines"""
    k = r.randrange(14)
    if k <= 2:
        return [f"f({expr(r)})"]
    if k == 3:
        return [f"f({expr(r)}, {expr(r)}, {expr(r)})"]
    if k == 4:
        return [f"{r.choice('xyz')} = {expr(r)}"]
    if k == 5:
        return [f"{r.choice('xyz')} {r.choice(['+=', '-='])} {expr(r, 1)}"]
    if k == 6:
        return ["f(", f"    {expr(r)},", f"    {expr(r)}", ")"]
    if k == 7:
        return [f"out.append({expr(r)})"]
    if k == 8 and deep:
        return [f"for i in range({r.randint(1, 4)}):"] + ind(block(r, r.randint(1, 2), deep - 1))
    if k == 9 and deep:
        return [f"if {test(r)}:"] + ind(block(r, r.randint(1, 2), deep - 1)) + (["else:"] + ind(block(r, r.randint(1, 2), deep - 1)) if r.random() < 0.6 else [])
    if k == 10:
        return [f"print({expr(r)}, {expr(r)})"]
    if k == 11:
        return [r.choice(["# a comment", ""]), f"f({expr(r)})"]
    if k == 12 and deep:
        return [f"while {test(r)}:"] + ind(block(r, r.randint(1, 2), deep - 1) + ["break"])
    return [f"x = f({expr(r)})"]


def ind(ls):
    return ["    " + l if l else l for l in ls]


def block(r, n, deep=2):
    return [l for _ in range(n) for l in stmt(r, deep)]


def vary(r, lines, p):
    """the lines with some values changed"""
    def sub(m):
        if r.random() > p:
            return m.group(0)
        t = m.group(0)
        if t.isdigit():
            return str(r.randint(0, 9))
        if t in ("True", "False"):
            return r.choice(["True", "False"])
        if t in NAMES or t in ("n", "m"):
            return r.choice(NAMES + ["n", "m"])
        return repr(r.choice(["x", "yes", "no", "k"]))
    return [re.sub(r"\b\d+\b|\bTrue\b|\bFalse\b|\b[abcdnm]\b(?!\()|'[a-z ]*'", sub, l) if not re.match(r"\s*(if|while|elif|for)\b", l) or r.random() < 0.2 else l for l in lines]


def chunk(r):
    k = r.choice([0, 1, 2, 3, 4, 5, 5, 5, 6, 7, 8, 8, 8, 9, 9, 10, 11])
    if k <= 2:  # branches which start or end the same
        n = r.choice([1, 1, 1, 2, 3, 4, 5])
        pre, post = block(r, r.choice([0, 0, 1, 2])), block(r, r.choice([0, 0, 1, 2]))
        mids = [block(r, r.choice([0, 0, 1, 1, 2])) for _ in range(n + 1)]
        if r.random() < 0.2:
            mids = [mids[0]] * (n + 1)
        odd = r.randrange(n + 1) if n > 1 and r.random() < 0.3 else None
        out = []
        for i, m in enumerate(mids):
            body = pre + m + post or ["f(0)"]
            if r.random() < 0.1:
                body = vary(r, body, 0.1)
            if i == odd:
                body = m + post if r.random() < 0.5 else pre + m
                body = body or ["f(1)"]
            head = f"{'if' if i == 0 else 'elif'} {test(r)}:" if i < n or r.random() < 0.1 else "else:"
            out += [head] + ind(body)
        return out
    if k <= 4:  # consecutive ifs
        bodies = [block(r, r.choice([1, 1, 2])) for _ in range(2)]
        out = []
        for i in range(r.randint(2, 6)):
            head = "if" if i == 0 or r.random() < 0.5 else "elif"
            out += [f"{head} {test(r)}:"] + ind(r.choice(bodies) if r.random() < 0.95 else block(r, 1))
            last = i
        if r.random() < 0.3:
            out += ["else:"] + ind(r.choice(bodies + [block(r, 1)]))
        return out
    if k == 5:  # nested ifs, twisted
        p, q = block(r, r.choice([1, 2, 3, 4, 5]), 1), block(r, r.choice([1, 2, 3, 4, 5]), 1)
        t, i1 = test(r, r.randrange(2)), test(r, r.randrange(2))
        i2 = i1 if r.random() < 0.6 else ("not " + i1 if r.random() < 0.6 and i1 in NAMES else test(r))
        v = [(p, q), (q, p)] if r.random() < 0.6 else [(p, q), (p, q)]
        if r.random() < 0.3:
            j, l = r.randrange(2), r.randrange(2)
            v[j] = tuple(vary(r, b, 0.5) if i == l else b for i, b in enumerate(v[j]))
        out = []
        for head, inner, (x, y) in zip([f"if {t}:", "else:"], [i1, i2], v):
            out += [head] + ind([f"if {inner}:"] + ind(x) + ["else:"] + ind(y))
        return out
    if k <= 8:  # similar branches
        n = r.choice([1, 1, 1, 2, 3])
        body = block(r, r.choice([1, 1, 2, 3, 4]))
        if r.random() < 0.4:
            body = [f"{r.choice(['x = ', 'return_ = ', '', 'x += '])}{r.choice(['f', 'out.append', 'print'])}({expr(r, 1)})"]
        if r.random() < 0.3:
            body = [r.choice(["f('a long text', 'another', a, b, {})", "print({}, 'a', 'b', n, m)", "x = [{}, 1, 2, 3]"]).format(r.choice(["True", "1", "'no'", "a", "n"]))]
        out = []
        for i in range(n + 1):
            out += [f"{'if' if i == 0 else 'elif'} {test(r, 0) if r.random() < 0.8 else test(r)}:" if i < n else "else:"] + ind(vary(r, body, r.choice([0.1, 0.2, 0.5]) if i else 0))
        return out
    if k == 9 and r.random() < 0.2:  # a loop over the same again
        b = block(r, r.choice([1, 2]), 1)
        return [f"for {r.choice(['i', 'j', 'a'])} in range({r.choice(['3', '4', '0, 5', '2, 6', '1, 4', '3, n', '0, 6, 2', 'n', 'm', '2 * m', 'n + 1', 'n - m'])}):"] + ind(b * r.randint(2, 4))
    if k == 8 and r.random() < 0.3:
        form = r.choice(["f({0}, x, y)", "out.append(f({0}))", "x += f({0}, 1, n)", "f([x, {0}, 'k'])", "print(x, n, {0})", "for i in range(2):\n    f(i, {0})", "x = f({0}, {1})", "f({0})\nf({0}, x)"])
        v = r.choice([["True", "False"], ["False", "True"], ["1", "2"], ["a", "b"], ["n", "3"], ["'x'", "'y'"], ["n + 1", "m"]])
        n = r.choice([1, 1, 1, 2])
        out = []
        for i in range(n + 1):
            out += [f"{'if' if i == 0 else 'elif'} {test(r, 0)}:" if i < n else "else:"] + ind(form.format(v[i % 2], r.choice(["True", "False"])).split("\n"))
        return out
    if k == 9:  # repeated statements
        form = r.choice(["f({})", "f(a, {})", "x += f({})", "out.append(f({}, {}))", "print({}, 'x')", "f({}, 'abc', a, b)", "lst[{}] = f({}, n)", "if a == {}:\n    f({})", "f([{}, 1, 2], a)"])
        if r.random() < 0.3:
            n, st, sp = r.randint(3, 6), [r.randint(-3, 6) for _ in range(3)], [r.choice([1, 1, 2, 3, -1, -2, -3]) for _ in range(3)]
            form = r.choice(["f({}, {})", "f(a, {}, {})", "lst[{}] = f({})", "f({}, {}, {})", "x += f({}, b) * {}", "f([{}, {}], n, m)"])
            return [form.format(*[st[j] + i * sp[j] for j in range(3)]) for i in range(n)]
        n, start, step = r.randint(3, 7), r.randint(-2, 5), r.choice([1, 1, 1, 2, 3, -1, -2])
        vals = [start + i * step for i in range(n)] if r.random() < 0.6 else [r.randint(0, 9) for _ in range(n)]
        if r.random() < 0.2:
            vals = [repr(r.choice(["x", "yes", "no", "k", "zz"])) for _ in vals]
        out = []
        for v in vals:
            out += form.format(v, v if r.random() < 0.95 else r.randint(0, 9)).split("\n")
            if r.random() < 0.1:
                out.append("")
        return out
    if k == 10:  # similar blocks elsewhere
        b = block(r, r.choice([3, 4, 5]))
        out = []
        for i in range(r.randint(2, 3)):
            out += vary(r, b, 0.1 if i else 0) + block(r, r.choice([0, 1]))
        return out
    return block(r, r.choice([1, 2]))


def program(r):
    for _ in range(30):
        out = []
        for _ in range(r.choice([1, 2, 3, 4])):
            c = chunk(r)
            if r.random() < 0.4:
                c = [f"def fun{r.randrange(99)}(a, b, c, d, n, m, x, y, z):"] + ind(c)
            elif r.random() < 0.15:
                c = [f"while {test(r)}:"] + ind(c)
            out += c
        text = "\n".join(out) + "\n"
        try:
            ast.parse(text)
        except SyntaxError:
            continue
        return text
    return "f(1)\n"


# ------------------------------------------------------------------ the oracle

def dump(n):
    if isinstance(n, list):
        return [dump(x) for x in n]
    return re.sub(r", kind='u'", "", ast.dump(n))


class Code:
    def __init__(self, text):
        self.text = text
        self.tree = ast.parse(text)
        self.lines = text.encode().split(b"\n")
        self.ifs, self.at = {}, {}
        for n in ast.walk(self.tree):
            for f, v in ast.iter_fields(n):
                if isinstance(v, list):
                    for i, c in enumerate(v):
                        if isinstance(c, ast.stmt):
                            c.parent, c.seq, c.index = n, v, i
                            self.at.setdefault(c.lineno, c)
            if isinstance(n, ast.If):
                self.ifs[n.lineno, n.col_offset] = n

    def is_elif(self, n):
        return self.lines[n.lineno - 1][n.col_offset:].startswith(b"elif")

    def elif_of(self, n):
        # an else with nothing but an if counts as elif as well
        return n.orelse[0] if len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If) else None

    def chain(self, n):
        out = [n]
        while (n := self.elif_of(n)) is not None:
            out.append(n)
        return out

    def splits(self, head):
        """the ways to read the if as branches which end with an else"""
        ch = self.chain(head)
        full = (len(head.body) != 1 or not isinstance(head.body[0], ast.If)) and all(self.is_elif(x) for x in ch[1:])
        for k in range(1, len(ch) + 1):
            if ch[k - 1].orelse and (k == len(ch) or not full):
                yield ch[:k], [x.body for x in ch[:k]] + [ch[k - 1].orelse]

    def sequence(self, s):
        """consecutive ifs from the given one: its elifs, then the ifs that follow with theirs"""
        out = self.chain(s)
        head = s
        while isinstance(head.parent, ast.If) and self.elif_of(head.parent) is head:
            head = head.parent
        if head is s:
            for x in head.seq[head.index + 1:]:
                if not isinstance(x, ast.If):
                    break
                out += self.chain(x)
        return out


def same_prefix(branches, forward=True):
    m = 0
    ds = [dump(b if forward else b[::-1]) for b in branches]
    for row in zip(*ds):
        if len(set(row)) > 1:
            break
        m += 1
    return m


ENVS = [dict(zip(NAMES, v[:4]), n=v[4], m=v[5]) for v in itertools.product([False, True], [False, True], [False, True], [False, True], [0, 1, 2, 3], [0, 2])]


def run_stmts(stmts, env):
    log = []

    def f(*args):
        log.append(("f", repr(args)))
        return len(log)

    class Out:
        def append(self, v):
            log.append(("append", repr(v)))
    e = dict(env, f=f, g=f, print=lambda *a: log.append(("print", repr(a))), out=Out(), x=1, y=2, z=3, lst={})
    try:
        code = compile(ast.fix_missing_locations(ast.Module(copy.deepcopy(stmts), [])), "<s>", "exec")
    except SyntaxError:
        return None
    try:
        exec(code, e)
    except Exception as ex:
        log.append(type(ex).__name__)
    return log, [e.get(v) for v in "xyz"], sorted(e["lst"].items()) 


def paths(n, path=()):
    """every expression in the nodes with the path to it"""
    if isinstance(n, list):
        for i, x in enumerate(n):
            yield from paths(x, path + (i,))
    elif isinstance(n, ast.AST):
        if isinstance(n, ast.expr):
            yield path, n
        for f, v in ast.iter_fields(n):
            yield from paths(v, path + (f,))


def check_one(c, p, res, bad):
    code, line, col, text, end_line = p["messageId"], p["line"], p["column"], p["message"], p["endLine"]
    if code in ("R6501", "R6502", "R6503", "R6504", "R6557", "R6558"):
        n = c.ifs.get((line, col))
        if n is None:
            return bad(f"there is no if at the place")
    if code == "R6501":
        if not any(same_prefix(b) == len(b[0]) and len({len(x) for x in b}) == 1 for _, b in c.splits(n)):
            bad("the branches are not identical")
    elif code == "R6502":
        m = re.fullmatch(r"Identical code inside all if's branches, move (\d+) lines (before|after) the if\.", text)
        want = set()
        for _, b in c.splits(n):
            k = same_prefix(b, m.group(2) == "before")
            if k:
                part = b[0][:k] if m.group(2) == "before" else b[0][-k:]
                want.add(part[-1].end_lineno - part[0].lineno + 1)
        if int(m.group(1)) not in want:
            bad(f"the lines the branches share number {sorted(want) or 'none'}")
    elif code in ("R6503", "R6504"):
        m = int(re.search(r"inside (\d+) consecutive", text).group(1))
        seq = c.sequence(n) if code == "R6503" else c.chain(n)
        k = 1
        while k < len(seq) and dump(seq[k].body) == dump(n.body):
            k += 1
        if m > k or m < 2:
            return bad(f"{k} consecutive ones are identical")
        nested = len(n.body) == 1 and isinstance(n.body[0], ast.If)
        if m < k and not nested and not (isinstance(n.parent, ast.If) and c.elif_of(n.parent) is n):
            bad(f"{k} consecutive ones are identical")
        if end_line is not None and end_line != seq[m - 1].body[-1].end_lineno:
            bad(f"the last of them ends on line {seq[m - 1].body[-1].end_lineno}, not {end_line}")
    elif code == "R6557":
        cond = re.search(r"Use condition '(.*)' to avoid the duplication", text, re.S).group(1)
        inner = n.body[0]
        if len(n.body) != 1 or not isinstance(inner, ast.If) or not inner.orelse:
            return bad("the branch is not an if with an else")
        new = ast.If(ast.parse(cond, mode="eval").body, inner.body, inner.orelse)
        for env in ENVS:
            a, b = run_stmts([n], env), run_stmts([new], env)
            if a is None:
                return res.count("not-run")
            if a != b:
                return bad(f"with {env} the if does {a}, but by the condition {cond!r} {b}")
        res.count("run:R6557")
    elif code in ("R6552", "R6560"):
        check_loop(c, code, line, end_line, text, res, bad)
    elif code == "R6551":
        check_blocks(c, line, end_line, text, res, bad)
    elif code == "R6553":
        check_merge(c, line, text, res, bad)
    elif code == "R6555":
        check_use(c, line, col, res, bad)
    elif code == "R6556":
        check_into(c, line, col, text, res, bad)
    elif code == "R6558":
        e = re.search(r'\(i\.e\., "(.*)"\), but only', text, re.S).group(1)
        try:
            new = compile(ast.fix_missing_locations(ast.Expression(ast.parse(e, mode="eval").body)), "<e>", "eval")
        except SyntaxError as ex:
            return bad(f"{e!r} is not an expression: {ex}")
        why = None
        for ch, b in c.splits(n):
            tests = [compile(ast.unparse(x.test), "<t>", "eval") for x in ch]
            cands = {}
            for i, br in enumerate(b):
                for path, x in paths(br):
                    cands.setdefault(path, {})[i] = x
            for path, xs in sorted(cands.items(), key=repr):
                if len(xs) != len(b) or len({dump(x) for x in xs.values()}) == 1:
                    continue
                try:
                    if all(value(new, env) == value(compile(ast.unparse(xs[taken(tests, env)]), "<v>", "eval"), env) for env in ENVS[::3]):
                        return res.count("run:R6558")
                except Unknown:
                    return res.count("not-run")
        bad(f"{e!r} is not the value of anything that differs in the branches")


def chunks(c, line, end_line, n):
    """the statements from the place to the end line cut into n equally long parts, or None"""
    first = c.at.get(line)
    part = [x for x in first.seq[first.index:] if x.lineno <= (end_line or 10 ** 9)]
    return [part[i:i + len(part) // n] for i in range(0, len(part), len(part) // n)] if part and len(part) % n == 0 else None


def constants(x):
    try:
        return ast.literal_eval(x)
    except (ValueError, TypeError, SyntaxError):
        return None if not isinstance(x, ast.Name) else ("name", x.id)


def check_loop(c, code, line, end_line, text, res, bad):
    m = re.fullmatch(r"There are (\d+) repetitions of (\d+) similar statements, which can be simplified using a loop\. Consider iterating over '(.*)'\.", text, re.S)
    n, k, over = int(m.group(1)), int(m.group(2)), m.group(3)
    if line not in c.at:
        return bad("there is no statement at the place")
    e = ast.parse(over, mode="eval").body
    if isinstance(e, ast.Call):
        items = list(range(*[ast.literal_eval(a) for a in e.args]))
    else:
        items = [constants(x) for x in e.elts]
    if len(items) != n:
        return bad(f"{over} has {len(items)} items")
    check_count(c, line, end_line, k, n, bad)
    parts = chunks(c, line, end_line, n)
    if parts is None or len({tuple(type(x) for x in p) for p in parts}) > 1:
        return res.count("loop:not-cut")
    same = len({repr(dump(p)) for p in parts}) == 1
    if isinstance(e, ast.Call) and (same or items == list(range(n))):
        return res.count("loop:counted")
    # the values are at some place of every part
    for path, x in paths(parts[0]):
        vals = []
        for p in parts:
            y = dict((repr(q), z) for q, z in paths(p)).get(repr(path))
            vals.append(constants(y) if y is not None else None)
        if [repr(v) for v in vals] == [repr(v) for v in items]:
            return res.count("loop:values")
    if all(len(p) == 1 for p in parts):
        bad(f"nothing in the repeated statements takes the values {items}")


def check_into(c, line, col, text, res, bad):
    """the statements outside of the lines are the same in all branches"""
    n = c.ifs.get((line, col))
    if n is None:
        return bad("there is no if at the place")
    lines = [tuple(int(y) for y in x.split("-")) for x in re.search(r"only contains lines ([0-9, -]+), but", text).group(1).split(", ")]
    lines = [(x[0], x[-1]) for x in lines]
    for ch, b in c.splits(n):
        if len(b) != len(lines):
            continue
        if all(br[0].lineno <= lo and hi <= br[-1].end_lineno for br, (lo, hi) in zip(b, lines)) and len({repr(outside(br, lo, hi)) for br, (lo, hi) in zip(b, lines)}) == 1:
            return
    bad("the branches differ outside of the lines, or the lines are not in them")


def outside(stmts, lo, hi):
    out = []
    for x in stmts:
        if lo <= x.lineno and x.end_lineno <= hi:
            if not out or out[-1] is not None:
                out.append(None)
        elif x.end_lineno < lo or x.lineno > hi:
            out.append(dump(x))
        else:
            out.append((type(x).__name__, [dump(getattr(x, f)) for f in ("test", "target", "iter", "items", "type") if getattr(x, f, None)],
                        [outside(getattr(x, f), lo, hi) for f in ("body", "handlers", "orelse", "finalbody") if getattr(x, f, None)]))
    return out


def skippable(x):
    """statements which need not count as repeated (the unused assignments among them)"""
    return isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Pass, ast.Import, ast.ImportFrom)) or isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)


def size(x, c, most):
    if isinstance(x, list):
        return sum(size(y, c, most) for y in x)
    if isinstance(x, (ast.For, ast.While)):
        return 1 + size(x.body, c, most) + bool(x.orelse) + size(x.orelse, c, most)
    if isinstance(x, ast.If):
        plain = c.elif_of(x) is None or most and not c.is_elif(x.orelse[0])
        return 1 + size(x.body, c, most) + (bool(x.orelse) and plain) + size(x.orelse, c, most)
    return 1


def check_count(c, line, end_line, k, n, bad):
    """the number of similar statements, n times"""
    first = c.at[line]
    part = [x for x in first.seq[first.index:] if x.lineno <= (end_line or 10 ** 9)]
    if any(isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Try, ast.With, ast.Match)) for p in part for x in ast.walk(p)):
        return
    lo, hi = size([x for x in part if not skippable(x)], c, False), size(part, c, True)
    if not lo <= k * n <= hi:
        bad(f"the statements there are {lo}" if lo == hi else f"the statements there are {lo} to {hi}")


def check_merge(c, line, text, res, bad):
    m = re.fullmatch(r"The body of the loop contains duplicate blocks, starting on lines ([0-9, ]+)\. Avoid the duplication by repeating the outer loop (.*) times\.", text, re.S)
    at, times = [int(x) for x in m.group(1).split(", ")], m.group(2)
    firsts = [c.at.get(x) for x in at]
    if None in firsts or len({id(getattr(x, "seq", None)) for x in firsts}) != 1 or not isinstance(firsts[0].parent, ast.For):
        return bad("the blocks do not start on these lines of one loop")
    loop = firsts[0].parent
    size = firsts[1].index - firsts[0].index
    parts = [x.seq[x.index:x.index + size] for x in firsts]
    if [y for p in parts for y in p] != loop.body or len({repr(dump(p)) for p in parts}) != 1:
        return bad("the loop's body does not consist of these blocks")
    new = copy.copy(loop)
    new.iter, new.body = ast.parse(f"range({times})", mode="eval").body, parts[0]
    for env in ENVS[::7]:
        a, b = run_stmts([loop], env), run_stmts([new], env)
        if a is None:
            return res.count("not-run")
        if a != b:
            return bad(f"with {env} the loop does {a}, but with the body once and range({times}) {b}")
    res.count("run:R6553")


def check_use(c, line, col, res, bad):
    n = c.ifs.get((line, col))
    if n is None or not n.orelse:
        return bad("there is no if with an else at the place")
    for path, x in paths(n.body):
        if isinstance(x, ast.Constant) and isinstance(x.value, bool):
            x.value = not x.value
            same = dump(n.body) == dump(n.orelse)
            x.value = not x.value
            if same:
                return
    bad("the branches do not differ in one True and False")


def check_blocks(c, line, end_line, text, res, bad):
    m = re.fullmatch(r"There are (\d+) repetitions of (\d+) similar statements, starting on lines ([0-9, ]+)\. Extract them to a helper function\.", text)
    n, k, at = int(m.group(1)), int(m.group(2)), [int(x) for x in m.group(3).split(", ")]
    if len(at) != n or len(set(at)) != n:
        return bad(f"{n} repetitions, but the lines are {at}")
    firsts = [c.at.get(x) for x in at]
    if None in firsts:
        return bad(f"no statement starts on line {at[firsts.index(None)]}")
    if len({type(x) for x in firsts}) != 1:
        return bad(f"the statements on lines {at} are of different kinds")
    check_count(c, line, end_line, k, 1, bad)
    kinds = None
    for x in firsts:
        rest = [type(y) for y in x.seq[x.index:] if not skippable(y)]
        if kinds is None:
            kinds = [type(y) for y in x.seq[x.index:] if not skippable(y) and y.lineno <= (end_line or 10 ** 9)]
        if rest[:len(kinds)] != kinds:
            return bad(f"the block on line {x.lineno} has statements of other kinds than the one on line {at[0]}")


class Unknown(Exception):
    pass


def value(code, env):
    calls = []

    def f(*a):
        return ("f", repr(a))
    e = dict(env, f=f, g=lambda *a: ("g", repr(a)), x="x", y="y", z="z", i="i", print=f, range=range)
    try:
        return repr(eval(code, e))
    except Exception as ex:
        return type(ex).__name__


def taken(tests, env):
    for i, t in enumerate(tests):
        if eval(t, dict(env, x=1, y=2, z=3, i=0)):
            return i
    return len(tests)


def messages(text):
    return [m for m in ownlint.run(text, enable=CODES) if m["messageId"] in CODES or m["messageId"].startswith(("E0001", "F"))]


def evaluate(s, res):
    text = s["text"]
    ms = messages(text)
    res.case(text, bool(ms))
    c = Code(text)
    for p in ms:
        res.count("is:" + p["messageId"])

        def bad(why):
            res.violation(f"C16:{p['messageId']}", f"{p['messageId']} on line {p['line']} ({p['message']}): {why}", scenario=s)
        check_one(c, p, res, bad)
    if ms:
        res.sample({"text": text[:600], "messages": [f"{p['line']}: {p['messageId']} {p['message']}" for p in ms][:5]})


def scenario(r):
    return {"text": program(r)}


def task(arg):
    warnings.simplefilter("ignore")
    seed, lo, hi = arg
    res = Result()
    for i in range(lo, hi):
        s = scenario(rng_for("C16", seed, i))
        try:
            with core.time_limit(60):
                evaluate(s, res)
        except core.TimeLimit:
            res.count("timeout")
        except BaseException as e:
            core.note_exception(res, e, "C16", {"scenario": s})
    return res


def run(ctx):
    res = Result()
    if ctx.replay:
        os.chdir(core.SCRATCH)
        evaluate(ctx.replay["scenario"], res)
        return res
    n = ctx.n(2400, 40000)
    res.merge(core.pmerge(task, [(ctx.seed, i, i + 25) for i in range(0, n, 25)]))
    return res
