"""Index of the analysed program: modules, classes (with MRO), functions, imports, constants.

Everything here is computed from the text of the tree under analysis; no module of the
analysed program is imported or executed.
"""
from __future__ import annotations

import ast
import builtins
import hashlib
import os
from dataclasses import dataclass, field

from .canon import canonical

REPO = os.environ.get("ASYNCZ_SA_REPO", "/repo")


class AnalysisError(Exception):
    """An anchor the analysis needs is gone: the run is broken, never a silent pass."""


@dataclass
class Func:
    qual: str            # asyncz.mod.Class.method / asyncz.mod.fn / asyncz.mod.fn.<locals>.inner
    name: str
    node: ast.AST        # FunctionDef | AsyncFunctionDef | Lambda
    module: "Module"
    cls: "Class | None" = None
    parent: "Func | None" = None
    decorators: list = field(default_factory=list)

    @property
    def is_async(self):
        return isinstance(self.node, ast.AsyncFunctionDef)

    @property
    def where(self):
        return f"{self.module.rel}:{getattr(self.node, 'lineno', 0)}"

    def has_decorator(self, *names):
        for d in self.decorators:
            t = d.func if isinstance(d, ast.Call) else d
            s = dotted(t)
            if s and s.split(".")[-1] in names:
                return True
        return False

    @property
    def is_generator(self):
        return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(self.node))


@dataclass
class Class:
    qual: str
    name: str
    node: ast.ClassDef
    module: "Module"
    base_quals: list = field(default_factory=list)
    methods: dict = field(default_factory=dict)
    attrs: dict = field(default_factory=dict)      # class-level assignments name -> value expr (or None)
    annots: dict = field(default_factory=dict)     # class-level annotations name -> annotation expr


@dataclass
class Module:
    name: str
    path: str
    rel: str
    tree: ast.Module
    src: str
    imports: dict = field(default_factory=dict)    # local name -> fully qualified
    functions: dict = field(default_factory=dict)
    classes: dict = field(default_factory=dict)
    assigns: dict = field(default_factory=dict)    # name -> list of value exprs
    is_pkg: bool = False


def dotted(node):
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if isinstance(node, ast.Name):
        parts.append(node.id)
        return ".".join(reversed(parts))
    return None


def own_nodes(fn):
    """All nodes of a function body, not descending into nested functions/classes/lambdas."""
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def platform_test(t):
    """True/False for a test of the platform (POSIX is the platform analysed), None for any other."""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        v = platform_test(t.operand)
        return None if v is None else not v
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        a, b = t.left, t.comparators[0]
        if isinstance(a, ast.Constant):
            a, b = b, a
        if isinstance(b, ast.Constant) and isinstance(b.value, str) and isinstance(t.ops[0], (ast.Eq, ast.NotEq)):
            v = {"os.name": "posix", "sys.platform": "linux"}.get(dotted(a) or "")
            if v is not None:
                return (v == b.value) == isinstance(t.ops[0], ast.Eq)
    return None


class Project:
    def __init__(self, root=None, package="asyncz"):
        self.root = root or REPO
        self.package = package
        self.modules: dict[str, Module] = {}
        self.classes: dict[str, Class] = {}
        self.functions: dict[str, Func] = {}
        self.by_node: dict[int, Func] = {}
        self.sub: dict[str, list[str]] = {}
        self._load()

    # ------------------------------------------------------------------ loading
    def _load(self):
        base = os.path.join(self.root, self.package)
        if not os.path.isdir(base):
            raise AnalysisError(f"package directory {base} not found")
        for dirpath, dirnames, filenames in os.walk(base):
            dirnames[:] = [d for d in dirnames if d != "__pycache__"]
            for fn in sorted(filenames):
                if not fn.endswith(".py"):
                    continue
                path = os.path.join(dirpath, fn)
                rel = os.path.relpath(path, self.root)
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == "__init__"
                if is_pkg:
                    parts = parts[:-1]
                name = ".".join(parts)
                src = open(path, encoding="utf-8").read()
                try:
                    tree = canonical(ast.parse(src, path))
                except SyntaxError as e:
                    raise AnalysisError(f"cannot parse {rel}: {e}") from e
                m = Module(name, path, rel, tree, src, is_pkg=is_pkg)
                self.modules[name] = m
        for m in self.modules.values():
            self._index_module(m)
        for c in self.classes.values():
            for b in c.node.bases:
                t = b.value if isinstance(b, ast.Subscript) else b
                d = dotted(t)
                if d:
                    q = self.resolve(c.module, d)
                    c.base_quals.append(q)
                    self.sub.setdefault(q, []).append(c.qual)

    def _index_module(self, m):
        def imports(node):
            for n in ast.walk(node):
                if isinstance(n, ast.Import):
                    for a in n.names:
                        if a.asname:
                            m.imports.setdefault(a.asname, a.name)
                        else:
                            m.imports.setdefault(a.name.split(".")[0], a.name.split(".")[0])
                elif isinstance(n, ast.ImportFrom):
                    mod = n.module or ""
                    if n.level:
                        bp = m.name.split(".")
                        if not m.is_pkg:
                            bp = bp[:-1]
                        if n.level > 1:
                            bp = bp[: -(n.level - 1)]
                        mod = ".".join(bp + ([mod] if mod else []))
                    for a in n.names:
                        m.imports.setdefault(a.asname or a.name, f"{mod}.{a.name}")

        imports(m.tree)

        def visit_body(body, cls, parent, prefix):
            for n in body:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    q = f"{prefix}.{n.name}"
                    f = Func(q, n.name, n, m, cls, parent, list(n.decorator_list))
                    if any((dotted(d) or "").split(".")[-1] == "overload" for d in n.decorator_list):
                        continue
                    self.by_node[id(n)] = f
                    # first definition of platform-specific duplicates must not hide later ones:
                    self.functions[q] = f
                    if cls is not None and parent is None:
                        cls.methods[n.name] = f
                    elif parent is None:
                        m.functions[n.name] = f
                    nested(n, f, q)
                elif isinstance(n, ast.ClassDef):
                    q = f"{prefix}.{n.name}"
                    c = Class(q, n.name, n, m)
                    self.classes[q] = c
                    if parent is None and cls is None:
                        m.classes[n.name] = c
                    for s in n.body:
                        if isinstance(s, ast.Assign):
                            for t in s.targets:
                                if isinstance(t, ast.Name):
                                    c.attrs[t.id] = s.value
                        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                            c.annots[s.target.id] = s.annotation
                            if s.value is not None:
                                c.attrs[s.target.id] = s.value
                    visit_body(n.body, c, None, q)
                elif isinstance(n, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                    # the definition visited last is the one the name keeps: a branch this platform
                    # does not take and the handlers of a failing import come before the others
                    order = ["body", "orelse", "finalbody"]
                    if isinstance(n, ast.If) and platform_test(n.test) is True:
                        order = ["orelse", "body"]
                    for h in getattr(n, "handlers", []) or []:
                        visit_body(h.body, cls, parent, prefix)
                    for fld in order:
                        visit_body(getattr(n, fld, []) or [], cls, parent, prefix)
                    # module-level constants inside if/try
                    pass
                if cls is None and parent is None:
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            if isinstance(t, ast.Name):
                                m.assigns.setdefault(t.id, []).append(n.value)
                    elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                        m.assigns.setdefault(n.target.id, []).append(n.value)

        def nested(fn_node, f, q):
            for n in own_nodes(fn_node):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    iq = f"{q}.<locals>.{n.name}"
                    g = Func(iq, n.name, n, m, f.cls, f, list(n.decorator_list))
                    self.by_node[id(n)] = g
                    self.functions[iq] = g
                    nested(n, g, iq)
                elif isinstance(n, ast.Lambda):
                    iq = f"{q}.<lambda>@{n.lineno}:{n.col_offset}"
                    g = Func(iq, "<lambda>", n, m, f.cls, f)
                    self.by_node[id(n)] = g
                elif isinstance(n, ast.ClassDef):
                    visit_body([n], None, f, f"{q}.<locals>")

        visit_body(m.tree.body, None, None, m.name)

    # ------------------------------------------------------------------ resolution
    def resolve(self, module, name, _seen=None):
        """Resolve a dotted local name to a canonical qualified name, following re-exports."""
        head, _, rest = name.partition(".")
        if head in module.classes or head in module.functions or head in module.assigns:
            q = f"{module.name}.{head}"
        elif head in module.imports:
            q = module.imports[head]
        elif hasattr(builtins, head):
            q = f"builtins.{head}"
        else:
            q = f"{module.name}.{head}"
        if rest:
            q = f"{q}.{rest}"
        return self.canon(q)

    def canon(self, q, depth=0):
        if depth > 10 or q in self.classes or q in self.functions:
            return q
        # longest module prefix
        parts = q.split(".")
        for i in range(len(parts) - 1, 0, -1):
            mn = ".".join(parts[:i])
            m = self.modules.get(mn)
            if m is None:
                continue
            head, rest = parts[i], parts[i + 1:]
            if head in m.classes or head in m.functions:
                return q
            if head in m.assigns:
                vals = m.assigns[head]
                if len(vals) == 1 and isinstance(vals[0], (ast.Name, ast.Attribute)):
                    d = dotted(vals[0])
                    if d and d.split(".")[0] != head:
                        return self.canon(".".join([self.resolve(m, d)] + rest), depth + 1)
                return q
            if head in m.imports:
                tgt = m.imports[head]
                nq = ".".join([tgt] + rest)
                if nq != q:
                    return self.canon(nq, depth + 1)
            return q
        return q

    def cls(self, qual):
        c = self.classes.get(qual)
        if c is None:
            raise AnalysisError(f"anchor class {qual} not found")
        return c

    def func(self, qual):
        f = self.functions.get(qual)
        if f is None:
            # a method may have moved to a base class of the anchor class
            if "." in qual:
                cq, _, mn = qual.rpartition(".")
                if cq in self.classes:
                    g = self.method(cq, mn)
                    if g is not None:
                        return g
            cq = self.canon(qual)
            f = self.functions.get(cq)
        if f is None:
            raise AnalysisError(f"anchor function {qual} not found")
        return f

    def mro(self, qual):
        """C3-less linearisation: good enough for the single/mixin inheritance used here."""
        out, seen = [], set()

        def c3(q):
            c = self.classes.get(q)
            if c is None:
                return [q]
            seqs = [c3(b) for b in c.base_quals] + [list(c.base_quals)]
            res = [q]
            while True:
                seqs = [s for s in seqs if s]
                if not seqs:
                    return res
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                res.append(h)
                seqs = [[x for x in s if x != h] if s and s[0] == h or h in s else s for s in seqs]

        for q in c3(qual):
            if q not in seen:
                seen.add(q)
                out.append(q)
        return out

    def method(self, cls_qual, name, after=None):
        mro = self.mro(cls_qual)
        if after is not None and after in mro:
            mro = mro[mro.index(after) + 1:]
        for q in mro:
            c = self.classes.get(q)
            if c is not None and name in c.methods:
                return c.methods[name]
        return None

    def is_subclass(self, q, base):
        return base in self.mro(q)

    def subclasses(self, base, concrete=False):
        out = []
        for q in sorted(self.classes):
            if q != base and base in self.mro(q):
                out.append(q)
        return out

    def class_attr(self, cls_qual, name):
        for q in self.mro(cls_qual):
            c = self.classes.get(q)
            if c is not None and name in c.attrs:
                return c, c.attrs[name]
        return None, None

    # ------------------------------------------------------------------ constants
    def const(self, module, node, depth=0):
        """Fold an expression to a Python constant; raises ValueError when it is not one."""
        if depth > 40:
            raise ValueError("depth")
        if isinstance(node, ast.Constant):
            return node.value
        if isinstance(node, (ast.Tuple, ast.List)):
            vals = []
            for e in node.elts:
                if isinstance(e, ast.Starred):
                    vals.extend(self.const(module, e.value, depth + 1))
                else:
                    vals.append(self.const(module, e, depth + 1))
            return tuple(vals)
        if isinstance(node, ast.Set):
            return frozenset(self.const(module, e, depth + 1) for e in node.elts)
        if isinstance(node, ast.Dict):
            d = {}
            for k, v in zip(node.keys, node.values):
                if k is None:
                    d.update(self.const(module, v, depth + 1))
                else:
                    d[self.const(module, k, depth + 1)] = self.const(module, v, depth + 1)
            return d
        if isinstance(node, ast.UnaryOp):
            v = self.const(module, node.operand, depth + 1)
            if isinstance(node.op, ast.USub):
                return -v
            if isinstance(node.op, ast.Invert):
                return ~v
            if isinstance(node.op, ast.Not):
                return not v
        if isinstance(node, ast.BinOp):
            a = self.const(module, node.left, depth + 1)
            b = self.const(module, node.right, depth + 1)
            import operator as o
            ops = {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.Pow: o.pow, ast.BitOr: o.or_,
                   ast.BitAnd: o.and_, ast.BitXor: o.xor, ast.LShift: o.lshift, ast.RShift: o.rshift,
                   ast.FloorDiv: o.floordiv, ast.Div: o.truediv, ast.Mod: o.mod}
            if type(node.op) in ops:
                return ops[type(node.op)](a, b)
        if isinstance(node, ast.JoinedStr):
            return "".join(str(self.const(module, v.value if isinstance(v, ast.FormattedValue) else v, depth + 1)) for v in node.values)
        if isinstance(node, (ast.Name, ast.Attribute)):
            d = dotted(node)
            if d:
                q = self.resolve(module, d)
                return self.const_of(q, depth + 1)
        if isinstance(node, ast.Call):
            f = dotted(node.func)
            if f and f.split(".")[-1] in ("frozenset", "set", "tuple", "list", "dict", "MappingProxyType") and not node.keywords and len(node.args) <= 1:
                if not node.args:
                    return {} if f.endswith("dict") else ()
                v = self.const(module, node.args[0], depth + 1)
                return frozenset(v) if "set" in f else v
            if isinstance(node.func, ast.Attribute) and node.func.attr in ("join", "format", "lower", "upper", "strip", "replace") and all(k.arg for k in node.keywords):
                b = self.const(module, node.func.value, depth + 1)
                if isinstance(b, str):
                    try:
                        return getattr(b, node.func.attr)(*[self.const(module, a, depth + 1) for a in node.args],
                                                          **{k.arg: self.const(module, k.value, depth + 1) for k in node.keywords})
                    except (TypeError, LookupError) as e:
                        raise ValueError(str(e)) from None
            if f == "dict" and not node.args:
                return {k.arg: self.const(module, k.value, depth + 1) for k in node.keywords}
        raise ValueError(f"not constant: {ast.dump(node)[:80]}")

    def const_of(self, qual, depth=0):
        mn, _, name = qual.rpartition(".")
        m = self.modules.get(mn)
        if m is not None and name in m.assigns:
            vals = m.assigns[name]
            if len(vals) != 1:
                raise ValueError(f"{qual} assigned more than once")
            return self.const(m, vals[0], depth + 1)
        c = self.classes.get(mn)
        if c is not None and name in c.attrs:
            return self.const(c.module, c.attrs[name], depth + 1)
        raise ValueError(f"not a constant: {qual}")

    def digest(self, rels=None):
        h = hashlib.sha256()
        for m in sorted(self.modules.values(), key=lambda m: m.rel):
            if rels is None or m.rel in rels:
                h.update(m.rel.encode())
                h.update(m.src.encode())
        return h.hexdigest()[:16]
