"""C20: the tool's own findings do not depend on layout, naming or position."""
import ast
import builtins
import io
import keyword
import re
import tokenize
import warnings
from collections import Counter

from vlib import core, edu, grammar, ownlint
from vlib.core import Result, rng_for

from checks import c09, c10, c14, c15, c22

LEVEL = "exploration"
RULE = ("random programs of the shapes the tool's own messages speak about (and whole-grammar programs), each reported on as it is and after edits that keep its structure: comments and blank lines between statements, one-to-one renaming of variables and functions, "
        "redundant parentheses, unrelated code before and after it, reordered functions, joining with another program; the two reports must agree up to the edit; non-trivial = a finding in the program; distinct = program and edit")
ASSUMPTIONS = ["code whose functions share variables is neither joined with other code nor surrounded by code with calls (EduLint takes a call of something unknown for a call of any function of the file)", "findings about repetition throughout the file are not compared after functions are reordered or joined with others", "the parse trees of both versions are compared to make sure that the edit keeps the structure", "counts of lines in duplication messages are not compared after insertion of comments"]
MINIMUM = {"evaluations": 1000, "findings": 4000, "codes": 45, "comments": 200, "renaming": 200, "parentheses": 200, "surroundings": 200, "order": 80, "joining": 80}
EDITS = ["comments", "renaming", "parentheses", "surroundings", "order", "joining"]


# --------------------------------------------------------------- programs

def program(r, kind=None):
    k = kind or r.choice(["c09", "c10", "c14", "c15", "c22", "c22", "grammar"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if k == "grammar":
            return grammar.Gen(r).program(r.randint(10, 40), 3)
        m = {"c09": c09, "c10": c10, "c14": c14, "c15": c15, "c22": c22}[k]
        return m.scenario(r)["text"]


def parse(text):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return ast.parse(text)


def same(a, b):
    try:
        return ast.dump(parse(a)) == ast.dump(parse(b))
    except (SyntaxError, ValueError, RecursionError):
        return False


# ------------------------------------------------------------------ edits
# an edit gives (new text, line map, name map, whether columns stay)

def starts(tree):
    res = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.stmt):
            d = min([x.lineno for x in getattr(n, "decorator_list", [])] + [n.lineno])
            res[d] = min(res.get(d, n.col_offset), n.col_offset)
    return res


def comments(r, text):
    lines = text.split("\n")
    st = starts(parse(text))
    p = r.choice([0.1, 0.4, 1])
    out, at = [], {}
    for i, l in enumerate(lines, 1):
        if i in st and l[:st[i]].strip() == "" and r.random() < p:
            for _ in range(r.choice([1, 1, 2, 5])):
                out.append(r.choice(["", l[:st[i]] + "# a remark", "# x = 1", "    ", "#", l[:st[i]] + "# if x: return 3"]))
        out.append(l)
        at[i] = len(out)
    return "\n".join(out), at, {}, True


def names_of(text):
    """names that can be renamed in all their occurrences"""
    tree = parse(text)
    bound, other = set(), set(dir(builtins)) | set(keyword.kwlist) | set(keyword.softkwlist) | {"self", "cls", "_"}
    for n in ast.walk(tree):
        if isinstance(n, ast.Name):
            if not isinstance(n.ctx, ast.Load):
                bound.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            bound.add(n.name)
        elif isinstance(n, ast.arg):
            bound.add(n.arg)
        elif isinstance(n, ast.Attribute):
            other.add(n.attr)
        elif isinstance(n, ast.keyword) and n.arg:
            other.add(n.arg)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                other.update(re.findall(r"\w+", f"{a.name} {a.asname or ''}"))
            if isinstance(n, ast.ImportFrom) and n.module:
                other.update(n.module.split("."))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (str, bytes)):
            other.update(re.findall(r"\w+", n.value if isinstance(n.value, str) else n.value.decode("latin-1")))
        elif isinstance(n, ast.ClassDef):
            other.add(n.name)
            for x in n.body:  # attributes
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    other.add(x.name)
        elif isinstance(n, ast.MatchClass):
            other.update(n.kwd_attrs)
    return {n for n in bound - other if not n.startswith("_")}, tree


def renaming(r, text):
    names, tree = names_of(text)
    names = sorted(n for n in names if n.isascii() and not n.isupper())
    if not names:
        return None
    taken = set(re.findall(r"\w+", text)) | set(keyword.kwlist) | set(dir(builtins)) | set(keyword.softkwlist)
    mapping = {}
    some = [n for n in names if r.random() < r.choice([0.4, 1])] or names
    fresh = {}
    for n in some:
        for _ in range(50):
            first = r.choice("abcdefghijkmnpqrstuvwxyz")
            new = first + "".join(r.choice("abcdefghijkmnpqrstuvwxyz") for _ in n[1:])
            if new not in taken:
                taken.add(new)
                fresh[n] = new
                break
    # the order of names is kept among those of one length, as texts may list things in order
    for k in {len(n) for n in fresh}:
        olds = sorted(n for n in fresh if len(n) == k)
        mapping.update(zip(olds, sorted(fresh[n] for n in olds)))
    if not mapping:
        return None
    out = []
    lines = text.split("\n")
    pos = {}
    for t in tokenize.generate_tokens(io.StringIO(text).readline):
        if t.type == tokenize.NAME and t.string in mapping:
            pos.setdefault(t.start[0], []).append((t.start[1], t.string))
    for i, l in enumerate(lines, 1):
        for c, n in reversed(pos.get(i, [])):
            assert l[c:c + len(n)] == n
            l = l[:c] + mapping[n] + l[c + len(n):]
        out.append(l)
    new = "\n".join(out)

    class R(ast.NodeTransformer):
        def generic_visit(self, n):
            super().generic_visit(n)
            for f, v in ast.iter_fields(n):
                if isinstance(v, str) and v in mapping and not isinstance(n, ast.Constant):
                    setattr(n, f, mapping[v])
                elif isinstance(v, list) and v and isinstance(v[0], str):
                    setattr(n, f, [mapping.get(x, x) for x in v])
            return n

    try:
        if ast.dump(R().visit(tree)) != ast.dump(parse(new)):
            return None
    except SyntaxError:
        return None
    return new, None, mapping, True


def parentheses(r, text):
    tree = parse(text)
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.JoinedStr, ast.match_case, ast.arguments)):
            for x in ast.walk(n.pattern if isinstance(n, ast.match_case) else n):
                if x is not n:
                    skip.add(x)
        if isinstance(n, ast.Call) and n.args and isinstance(n.args[-1], ast.GeneratorExp):
            skip.add(n.args[-1])
    xs = [n for n in ast.walk(tree) if isinstance(n, ast.expr) and n not in skip and not isinstance(n, (ast.Slice, ast.Starred)) and isinstance(getattr(n, "ctx", ast.Load()), ast.Load)]
    if not xs:
        return None
    lines = [l.encode() for l in text.split("\n")]
    p = r.choice([0.05, 0.2, 0.6])
    ins = []
    for n in xs:
        if r.random() < p:
            w = r.choice([(b"(", b")")] * 3 + [(b"( ", b" )"), (b"((", b"))")])
            ins.append((n.lineno, n.col_offset, 1, -n.end_lineno, -n.end_col_offset, w[0]))
            ins.append((n.end_lineno, n.end_col_offset, 0, -n.lineno, -n.col_offset, w[1]))
    # closing ones of inner expressions first, opening ones of outer ones first
    for ln, col, _, _, _, t in sorted(ins, key=lambda x: x[:5], reverse=True):
        lines[ln - 1] = lines[ln - 1][:col] + t + lines[ln - 1][col:]
    new = b"\n".join(lines).decode()
    return (new, None, {}, False) if same(text, new) else None


UNRELATED = ["def zz_{}(zz_a):\n    return zz_a.zz_n[zz_a]", "class Zz_{}:\n    zz_q = None\n\n    def zz_m(self):\n        return self.zz_q", "def zz_{}(*zz_args):\n    for zz_i in zz_args:\n        yield zz_i.zz_t()", "async def zz_{}(zz_b):\n    await zz_b",
             "def zz_{}(zz_k):\n    zz_u = zz_k.zz_j()\n\n    def zz_in():\n        return zz_u\n    return zz_in"]


QUIET = [u for u in UNRELATED if not re.search(r"\w\(\)", u)]


def shares(tree):
    """variables of one function used in another one; EduLint takes any call of something unknown for a call of
    any function of the file, so that unrelated code with such a call does affect these variables"""
    for n in ast.walk(tree):
        if isinstance(n, (ast.Global, ast.Nonlocal, ast.Lambda)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if any(x is not n and isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) for x in ast.walk(n)):
                return True
        elif isinstance(n, ast.Module):
            if any(isinstance(x, ast.stmt) and not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)) for x in n.body):
                return True
    return False


def surroundings(r, text):
    tree = parse(text)
    UNRELATED = QUIET if shares(tree) else globals()["UNRELATED"]
    pre = post = ""
    if r.random() < 0.7 and not any(isinstance(n, ast.ImportFrom) and n.module == "__future__" for n in tree.body) and not text.startswith(("#!", "\ufeff")) and ast.get_docstring(tree, False) is None:
        pre = "".join(r.choice(UNRELATED).format(i) + "\n\n\n" for i in range(r.choice([1, 2])))
    if not pre or r.random() < 0.5:
        post = "".join("\n\n\n" + r.choice(UNRELATED).format(9 + i) for i in range(r.choice([1, 3]))) + "\n"
    k = pre.count("\n")
    n = text.count("\n") + 1
    return pre + text + ("" if text.endswith("\n") or not post else "\n") + post, {i: i + k for i in range(1, n + 1)}, {}, True


def functions_only(tree):
    return tree.body and all(isinstance(n, ast.FunctionDef) for n in tree.body) and len({n.name for n in tree.body}) == len(tree.body)


def spans(tree, n):
    s = [1] + [x.lineno for x in tree.body[1:]]
    return list(zip(s, s[1:] + [n + 1]))


def order(r, text):
    tree = parse(text)
    if not functions_only(tree) or len(tree.body) < 2:
        return None
    lines = text.rstrip("\n").split("\n")
    sp = spans(tree, len(lines))
    perm = list(range(len(sp)))
    r.shuffle(perm)
    out, at = [], {}
    for k in perm:
        a, b = sp[k]
        for i in range(a, b):
            out.append(lines[i - 1])
            at[i] = len(out)
        out += ["", ""]
    return "\n".join(out) + "\n", at, {}, True


def joining(r, text, other):
    """functions of another program, under other names, among the functions of this one"""
    tree, tree2 = parse(text), parse(other)
    if not functions_only(tree) or not functions_only(tree2) or shares(tree) or shares(tree2):
        return None
    lines = text.rstrip("\n").split("\n")
    names = {n.name: "g" + n.name[1:] + "g" for n in tree2.body}
    other = re.sub(r"\b(" + "|".join(map(re.escape, names)) + r")\b", lambda m: names[m[1]], other)
    lines2 = other.rstrip("\n").split("\n")
    parts = [(0, *x) for x in spans(tree, len(lines))]
    for x in spans(tree2, len(lines2)):
        parts.insert(r.randrange(len(parts) + 1), (1, *x))
    out, at, at2 = [], {}, {}
    for w, a, b in parts:
        for i in range(a, b):
            out.append((lines, lines2)[w][i - 1])
            (at, at2)[w][i] = len(out)
        out += ["", ""]
    return "\n".join(out) + "\n", at, {}, True, other, at2


# -------------------------------------------------------------- comparison

LINES = re.compile(r"(?:(?<=example at line )|(?<=found on line )|(?<=\(on lines )|(?<=starting on lines )|(?<= on lines )|(?<= on line ))(\d+(?:(?:, | and )\d+)*)")
COUNTS = re.compile(r"(?<=move )\d+(?= lines)|\d+(?= lines of code)")


WHOLE_FILE = re.compile(r"R65(5|6|9[78])")  # compare all parts of the file with each other, in the order they come


def normal(ms, at=None, names=None, columns=True, counts=True):
    c = Counter()
    for m in ms:
        line = lambda n: at.get(n, ("?", n)) if at else n  # noqa
        t = m["message"]
        if at:
            t = LINES.sub(lambda x: re.sub(r"\d+", lambda y: str(line(int(y[0]))), x[0]), t)
        if names:
            t = re.sub(r"[A-Za-z_]\w*", lambda x: names.get(x[0], x[0]), t)
        if not counts:
            t = COUNTS.sub("N", t)
        c[m["messageId"], 1 if m["messageId"] == "R6701" else line(m["line"]), m["column"] if columns else 0, t] += 1
    return c


def scenario(r):
    s = {"text": program(r), "seed": r.randrange(10 ** 9)}
    s["other"] = program(r, r.choice(["c09", "c10", "c14", "c15"]))
    return s


def evaluate(s, res, only=None):
    text = s["text"]
    r = rng_for("edits", s["seed"])
    try:
        parse(text)
    except (SyntaxError, ValueError, RecursionError):
        return
    base = ownlint.run(text, "m20.py")
    if any(m["messageId"] in ("E0001", "F0002") for m in base):
        res.count("not analysed")
        return
    for m in base:
        res.seen_codes.add(m["messageId"])
    res.count("findings", len(base))
    for kind in EDITS:
        try:
            e = joining(r, text, s["other"]) if kind == "joining" else globals()[kind](r, text)
        except (tokenize.TokenError, AssertionError):
            e = None
        if e is None or kind == "comments" and not same(text, e[0]) or only and kind != only:
            continue
        new, at, names, columns = e[:4]
        if kind in ("surroundings", "order", "joining", "renaming"):
            try:
                parse(new)
            except SyntaxError:
                continue
        got = ownlint.run(new, "m20.py")
        if any(m["messageId"] in ("E0001", "F0002") for m in got):
            if any(m["messageId"] == "F0002" for m in got):
                res.violation(f"{kind}:internal", f"internal error after {kind}\n{new}", scenario=dict(s, only=kind))
            continue
        want = normal(base, at, names, columns, kind != "comments")
        if kind == "joining":
            want += normal(ownlint.run(e[4], "m20b.py"), e[5], None, columns)
        found = normal(got, None, names, columns, kind != "comments")
        res.count(kind)
        if base:
            res.case([text, new])
        if kind in ("order", "joining"):
            want, found = (Counter({x: n for x, n in c.items() if not WHOLE_FILE.match(x[0])}) for c in (want, found))
        if want != found:
            lost, added = sorted(want - found, key=str), sorted(found - want, key=str)
            codes = sorted({x[0] for x in lost + added})
            res.violation(f"{kind}:{','.join(codes)[:40]}", f"{kind} changed the findings: lost {lost[:4]}, new {added[:4]}\n--- before\n{text[:6000]}\n--- after\n{new[:6000]}", scenario=dict(s, only=kind))
        res.sample({"edit": kind, "before": text[:800], "after": new[:800], "findings": len(base)})


def task(arg):
    seed, lo, hi = arg
    res = Result()
    res.seen_codes = set()
    for i in range(lo, hi):
        evaluate(scenario(rng_for("C20", seed, i)), res)
    for c in res.seen_codes:
        res.count("code:" + c)
    return res


def replay_task(s):
    res = Result()
    res.seen_codes = set()
    evaluate(s, res, s.get("only"))
    return res


def run(ctx):
    if ctx.replay:
        return core.pmerge(replay_task, [ctx.replay["scenario"]], workers=1)
    n, k = ctx.n(320, 6400), ctx.n(6, 60)
    res = core.pmerge(task, [(ctx.seed, i, min(n, i + k)) for i in range(0, n, k)])
    codes = [c for c in res.counts if c.startswith("code:")]
    for c in codes:
        del res.counts[c]
    res.count("codes", len(codes))
    return res
