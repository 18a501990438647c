"""Which scope Python binds each occurrence of a name to, computed from Python's own ast; cross-checked with symtable."""
import ast
import symtable

MUTATING = {"append", "clear", "extend", "insert", "pop", "remove", "reverse", "sort", "add", "update"}


class Scope:
    def __init__(self, kind, node, parent):
        self.kind, self.node, self.parent = kind, node, parent
        self.bound, self.globals, self.nonlocals = set(), set(), set()
        self.children = []
        if parent is not None:
            parent.children.append(self)

    @property
    def key(self):
        return ("module", 0, 0) if self.kind == "module" else (self.kind, self.node.lineno, self.node.col_offset)

    def module(self):
        s = self
        while s.parent is not None:
            s = s.parent
        return s

    def resolve(self, name):
        if name in self.globals:
            return self.module()
        if name in self.nonlocals:
            return self.parent.enclosing(name)
        if name in self.bound:
            return self
        return self.parent.enclosing(name) if self.parent else None

    def enclosing(self, name):
        s = self
        while s is not None:
            if s.kind == "module":
                return s if name in s.bound else None
            if s.kind != "class":
                if name in s.globals:
                    return s.module()
                if name in s.nonlocals:
                    return s.parent.enclosing(name)
                if name in s.bound:
                    return s
            s = s.parent
        return None

    def walk(self):
        yield self
        for c in self.children:
            yield from c.walk()


class Resolver(ast.NodeVisitor):
    """occurrences: (name, kind, position, scope it occurs in, must be recorded); kind in READ, ASSIGN, DELETE, MODIFY"""

    def __init__(self, tree):
        self.occ = []
        self.unsupported = None
        self.through = []  # names bound outside of the comprehensions they are in
        self.scope = Scope("module", tree, None)
        self.root = self.scope
        for s in tree.body:
            self.visit(s)
        for s in self.root.walk():
            self.root.bound |= s.globals
        for s, name in self.through:
            while s.kind == "comp":
                if name in s.bound:
                    self.unsupported = "walrus of a name a later generator of the comprehension binds"  # Python itself is inconsistent
                s = s.parent

    def add(self, name, kind, pos, scope=None, must=True):
        self.occ.append((name, kind, pos, scope or self.scope, must))

    def bind(self, name, pos, kind="ASSIGN"):
        s = self.scope
        if name not in s.globals and name not in s.nonlocals:
            s.bound.add(name)
        self.add(name, kind, pos)

    def within(self, kind, node, parts):
        old = self.scope
        self.scope = Scope(kind, node, old)
        self.predeclare(node)
        for p in parts:
            p()
        self.scope = old

    def predeclare(self, node):
        """global and nonlocal declarations hold for the whole block"""
        def rec(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.Global):
                    self.scope.globals |= set(c.names)
                elif isinstance(c, ast.Nonlocal):
                    self.scope.nonlocals |= set(c.names)
                if not isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                    rec(c)
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for s in node.body:
                rec(ast.Module([s], []))

    def many(self, xs):
        for x in xs:
            if x is not None:
                self.visit(x)

    def function(self, n):
        if getattr(n, "type_params", None):
            self.unsupported = "type parameters"
        a = n.args
        self.many(n.decorator_list)
        self.many(a.defaults)
        self.many(a.kw_defaults)
        for x in a.posonlyargs + a.args + [a.vararg] + a.kwonlyargs + [a.kwarg]:
            if x is not None and x.annotation is not None:
                self.visit(x.annotation)
        if n.returns is not None:
            self.visit(n.returns)
        self.bind(n.name, ("def", n.lineno, n.col_offset))
        self.within("function", n, [lambda: self.params(a), lambda: self.many(n.body)])

    def params(self, a):
        for x in a.posonlyargs + a.args + [a.vararg] + a.kwonlyargs + [a.kwarg]:
            if x is not None:
                self.bind(x.arg, ("name", x.lineno, x.col_offset))

    visit_FunctionDef = visit_AsyncFunctionDef = function

    def visit_ClassDef(self, n):
        if getattr(n, "type_params", None):
            self.unsupported = "type parameters"
        self.many(n.decorator_list)
        self.many(n.bases)
        self.many([k.value for k in n.keywords])
        self.bind(n.name, ("def", n.lineno, n.col_offset))
        self.within("class", n, [lambda: self.many(n.body)])

    def visit_Lambda(self, n):
        self.many(n.args.defaults)
        self.many(n.args.kw_defaults)
        self.within("lambda", n, [lambda: self.params(n.args), lambda: self.visit(n.body)])

    def comp(self, n):
        self.visit(n.generators[0].iter)

        def rest():
            for i, g in enumerate(n.generators):
                if i:
                    self.visit(g.iter)
                self.visit(g.target)
                self.many(g.ifs)
            self.many([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt])

        self.within("comp", n, [rest])

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = comp

    def visit_NamedExpr(self, n):
        self.visit(n.value)
        old = self.scope
        if self.scope.kind == "comp":
            self.through.append((self.scope, n.target.id))
        while self.scope.kind == "comp":
            self.scope = self.scope.parent
        self.bind(n.target.id, ("name", n.target.lineno, n.target.col_offset))
        self.scope = old

    def visit_Name(self, n):
        pos = ("name", n.lineno, n.col_offset)
        if isinstance(n.ctx, ast.Load):
            self.add(n.id, "READ", pos)
        elif isinstance(n.ctx, ast.Store):
            self.bind(n.id, pos)
        else:
            self.bind(n.id, pos, "DELETE")

    def base(self, n):
        while isinstance(n, (ast.Attribute, ast.Subscript)):
            n = n.value
        return n if isinstance(n, ast.Name) else None

    def accessor(self, n):
        self.generic_visit(n)
        if not isinstance(n.ctx, ast.Load):
            b = self.base(n)
            if b is not None:
                self.add(b.id, "MODIFY", ("name", b.lineno, b.col_offset))

    visit_Attribute = visit_Subscript = accessor

    def visit_Call(self, n):
        for f in [n.func] + n.args:
            if isinstance(f, ast.Attribute):
                b = self.base(f)
                if b is not None:
                    self.add(b.id, "MODIFY", ("name", b.lineno, b.col_offset), must=f is n.func and f.attr in MUTATING)
        self.generic_visit(n)

    def visit_AnnAssign(self, n):
        if not n.simple and n.value is None and isinstance(n.target, ast.Name):
            self.unsupported = "annotation of a parenthesised name"  # declares nothing
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name):
            self.add(n.target.id, "READ", ("name", n.target.lineno, n.target.col_offset))
        self.visit(n.value)
        self.visit(n.target)

    def visit_Import(self, n):
        for a in n.names:
            if a.name == "*":
                self.unsupported = "star import"
            else:
                self.bind(a.asname or a.name.split(".")[0], ("def", n.lineno, n.col_offset))

    visit_ImportFrom = visit_Import

    def visit_ExceptHandler(self, n):
        if n.type is not None:
            self.visit(n.type)
        if n.name is not None:
            self.bind(n.name, ("in", n.lineno, n.col_offset))
        self.many(n.body)

    def visit_MatchAs(self, n):
        if n.pattern is not None:
            self.visit(n.pattern)
        if n.name is not None:
            self.bind(n.name, ("in", n.lineno, n.col_offset))

    def visit_MatchStar(self, n):
        if n.name is not None:
            self.bind(n.name, ("in", n.lineno, n.col_offset))

    def visit_MatchMapping(self, n):
        self.generic_visit(n)
        if n.rest is not None:
            self.bind(n.rest, ("in", n.lineno, n.col_offset))

    def visit_TypeAlias(self, n):
        self.unsupported = "type alias"

    def visit_Global(self, n):
        if self.scope.kind == "module":
            self.unsupported = "global at module level"


TYPES = {"module": "module", "function": "function", "lambda": "function", "comp": "function", "class": "class"}


def from_symtable(text):
    """multiset of (type, line, {name: class}) of all blocks, as Python itself sees them"""
    out = []

    def rec(t):
        names = {}
        for s in t.get_symbols():
            n = s.get_name()
            if n.startswith(".") or n == "__class__":
                continue
            if t.get_type() == "module":
                names[n] = "here" if s.is_local() or s.is_declared_global() or s.is_assigned() else "unbound"
            else:
                names[n] = "here" if s.is_local() else "free" if s.is_free() else "module"
        out.append((str(t.get_type()), t.get_lineno() if t.get_type() != "module" else 0, tuple(sorted(names.items()))))
        for c in t.get_children():
            rec(c)

    rec(symtable.symtable(text, "m", "exec"))
    return sorted(out)


def from_resolver(r):
    out = []
    names = {id(s): set() for s in r.root.walk()}
    for name, _k, _p, s, _m in r.occ:
        names[id(s)].add(name)
    for s in r.root.walk():
        names[id(s)] |= (s.globals | s.nonlocals)
        names[id(r.root)] |= s.globals
    for s, n in r.through:
        names[id(s)].add(n)
    passed = {id(s): set() for s in r.root.walk()}  # names of inner blocks found further out are known to blocks in between
    for s in r.root.walk():
        for n in names[id(s)]:
            t = s.resolve(n)
            if t is not None and t.kind != "module":
                u = s
                while u is not t:
                    passed[id(u)].add(n)
                    u = u.parent
    for s in r.root.walk():
        d = {n: "free" for n in passed[id(s)]}
        for n in names[id(s)]:
            t = s.resolve(n)
            if s.kind == "module":
                d[n] = "here" if t is s else "unbound"
            else:
                d[n] = "module" if t is None or t.kind == "module" else "here" if t is s else "free"
        out.append((TYPES[s.kind], 0 if s.kind == "module" else s.node.lineno, tuple(sorted(d.items()))))
    return sorted(out)
