"""Interprocedural side-effect (mod-set) analysis.

For a function, the set of writes to objects that exist before the call, each with the root it was
reached from: "self", "p:<parameter>", "global", or "other" (an object obtained from a container or a
call).  Writes to objects created on the way are dropped.  Calls are resolved through the class
hierarchy: own methods on the analysed class, functions by name, methods on other receivers on every
class of the package that defines them (minus `skip`), properties like methods.
"""
from __future__ import annotations

import ast
import builtins

from .project import dotted
from .rec import MUTATORS

FRESH_BUILTINS = {n for n in dir(builtins)} - {"getattr", "next", "iter", "min", "max", "super", "vars", "globals", "locals", "setattr", "delattr"}
CONTAINER_METHODS = {m for t in (dict, list, set, str, bytes, tuple, frozenset, int, float) for m in dir(t)} | {"group", "match", "search", "warning", "info", "debug", "error", "exception", "log", "total_seconds", "isoformat", "astimezone", "write", "read", "acquire", "release", "cancel", "done", "result"}
SETTERS = {"setattr", "delattr", "object_setattr", "__setattr__", "__delattr__"}
COPIES = {"copy", "deepcopy", "model_copy", "items", "keys", "values", "split", "strip", "format", "replace", "lower", "join"}


class Effect:
    __slots__ = ("root", "name", "where", "chain", "kind", "fn")

    def __init__(self, root, kind, name, where, chain, fn):
        self.root, self.kind, self.name, self.where, self.chain, self.fn = root, kind, name, where, chain, fn

    def key(self):
        return (self.root, self.kind, self.name, self.where)


class Effects:
    def __init__(self, proj, skip=lambda cls: False, calls=(), stop=lambda f: False, ignore_attrs=()):
        self.p, self.skip, self.named, self.stop, self.ignore = proj, skip, frozenset(calls), stop, frozenset(ignore_attrs)
        self.memo, self.busy, self.visited = {}, set(), set()
        self.by_name = {}
        self.props = {}
        for q, c in proj.classes.items():
            for n, f in c.methods.items():
                self.by_name.setdefault(n, []).append((q, f))
                if f.has_decorator("property", "cached_property"):
                    self.props.setdefault(n, []).append((q, f))

    # ------------------------------------------------------------ entry
    def of(self, f, self_cls=None):
        for _ in range(3):
            n = sum(len(v) for v in self.memo.values())
            old, self.memo, self.busy = self.memo, {}, set()
            self.prev = old
            out = self.summary(f, self_cls)
            if sum(len(v) for v in self.memo.values()) == n:
                break
        return [e for e in out.values()]

    def summary(self, f, self_cls):
        key = (f.qual, self_cls)
        if key in self.memo:
            return self.memo[key]
        if key in self.busy:
            return getattr(self, "prev", {}).get(key, {})
        self.busy.add(key)
        self.visited.add(f.qual)
        out = FuncEffects(self, f, self_cls).run() if not self.stop(f) else {}
        self.busy.discard(key)
        self.memo[key] = out
        return out

    def returns_fresh(self, f, depth=0, item=None):
        """are the returned objects (or the items at one place of the returned tuples) made by f itself"""
        if depth > 4 or isinstance(f.node, ast.Lambda):
            return False
        fe = FuncEffects(self, f, f.cls.qual if f.cls else None)
        rets = [n.value for n in _own(f.node) if isinstance(n, ast.Return) and n.value is not None]
        if item is not None:
            if not all(isinstance(r, ast.Tuple) and item < len(r.elts) and not any(isinstance(x, ast.Starred) for x in r.elts) for r in rets):
                return False
            rets = [r.elts[item] for r in rets]
        return bool(rets) and all(fe.fresh(r, depth + 1) for r in rets)


def _own(fn):
    from .project import own_nodes
    return own_nodes(fn)


class FuncEffects:
    def __init__(self, an, f, self_cls):
        self.an, self.p, self.f, self.self_cls = an, an.p, f, self_cls
        self.out = {}
        node = f.node
        self.params = []
        self.me = None
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if f.cls is not None and not f.has_decorator("staticmethod") and f.parent is None and names:
            self.me, names = names[0], names[1:]
        self.params = names
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.var = a.vararg.arg if a.vararg else None
        self.kw = a.kwarg.arg if a.kwarg else None
        # local variables -> assigned expressions (None: unknown element)
        self.env = {}
        inner_params = set()
        for n in ast.walk(node):
            if n is not node and isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                inner_params |= {x.arg for x in n.args.posonlyargs + n.args.args + n.args.kwonlyargs}
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    self.bind(t, n.value)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                self.bind(n.target, n.value)
            elif isinstance(n, ast.NamedExpr):
                self.bind(n.target, n.value)
            elif isinstance(n, (ast.For, ast.AsyncFor, ast.comprehension)):
                self.bind(n.target, ast.Subscript(n.iter, ast.Constant(0), ast.Load()))
            elif isinstance(n, (ast.With, ast.AsyncWith)):
                for i in n.items:
                    if i.optional_vars is not None:
                        self.bind(i.optional_vars, i.context_expr)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                self.env.setdefault(n.name, []).append(ast.Constant(None))
        for x in inner_params:
            self.env.setdefault(x, []).append(None)
        self.globals = {x for n in ast.walk(node) if isinstance(n, ast.Global) for x in n.names}

    def bind(self, t, v):
        if isinstance(t, ast.Name):
            self.env.setdefault(t.id, []).append(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
                for a, b in zip(t.elts, v.elts):
                    self.bind(a, b)
            else:
                for i, e in enumerate(t.elts):
                    self.bind(e, ast.Subscript(v, ast.Constant(i if isinstance(v, ast.Call) else 0), ast.Load()) if v is not None else None)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v)

    # ------------------------------------------------------------ roots
    def fresh(self, e, depth=0, seen=frozenset()):
        return not self.roots(e, depth, seen)

    def roots(self, e, depth=0, seen=frozenset()):
        """the pre-existing objects e may be (or be reached from)"""
        if e is None or depth > 8:
            return {"other"}
        if isinstance(e, (ast.Constant, ast.List, ast.Dict, ast.Set, ast.Tuple, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.JoinedStr, ast.BinOp, ast.Compare, ast.UnaryOp, ast.Lambda)):
            return set()
        if isinstance(e, ast.Name):
            if e.id == self.me:
                return {"self"}
            if e.id in self.globals:
                return {"global"}
            if e.id in self.env:
                if e.id in seen:
                    return set()
                out = set()
                for v in self.env[e.id]:
                    out |= self.roots(v, depth, seen | {e.id})
                if e.id in self.params or e.id in self.kwonly:
                    out.add("p:" + e.id)
                return out
            if e.id in self.params or e.id in self.kwonly:
                return {"p:" + e.id}
            if e.id in (self.var, self.kw):
                return set()
            return {"global"}
        if isinstance(e, ast.Attribute):
            return self.roots(e.value, depth, seen) or {"other"}
        if isinstance(e, ast.Subscript):
            if isinstance(e.slice, ast.Slice):
                return set()
            if isinstance(e.value, ast.Call) and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int):
                g = self.callee(e.value)
                if g is not None and self.an.returns_fresh(g, depth, e.slice.value):
                    return set()
            r = self.roots(e.value, depth, seen)
            if not r and self.flat(e.value, seen):
                return set()
            return r or {"other"}
        if isinstance(e, (ast.Await, ast.Starred)):
            return self.roots(e.value, depth, seen)
        if isinstance(e, ast.NamedExpr):
            return self.roots(e.value, depth, seen)
        if isinstance(e, ast.IfExp):
            return self.roots(e.body, depth, seen) | self.roots(e.orelse, depth, seen)
        if isinstance(e, ast.BoolOp):
            return set().union(*(self.roots(v, depth, seen) for v in e.values))
        if isinstance(e, ast.Call):
            d = dotted(e.func)
            if d:
                q = self.p.resolve(self.f.module, d)
                if q in self.p.classes:
                    return set()
                if q.startswith("builtins.") and q[9:] in FRESH_BUILTINS:
                    return set()
                if d in ("cast", "typing.cast") and len(e.args) == 2:
                    return self.roots(e.args[1], depth, seen)
                g = self.p.functions.get(q)
                if g is not None and self.an.returns_fresh(g, depth):
                    return set()
                last = q.split(".")[-1]
                if q not in self.p.functions and last[:1].isupper():
                    return set()
            if isinstance(e.func, ast.Attribute):
                if e.func.attr in COPIES or e.func.attr in ("groupdict", "groups", "now", "fromtimestamp", "utcnow", "total_seconds", "isoformat"):
                    return set()
                if isinstance(e.func.value, ast.Name) and e.func.value.id == self.me and self.self_cls:
                    g = self.p.method(self.self_cls, e.func.attr)
                    if g is not None and self.an.returns_fresh(g, depth):
                        return set()
                if e.func.attr in ("get", "pop", "setdefault"):
                    return self.roots(e.func.value, depth, seen) or {"other"}
            return {"other"}
        return {"other"}

    def callee(self, c):
        d = dotted(c.func)
        if isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id == self.me and self.self_cls:
            return self.p.method(self.self_cls, c.func.attr)
        return self.p.functions.get(self.p.resolve(self.f.module, d)) if d else None

    def flat(self, e, seen=frozenset()):
        """is e a fresh container of fresh things (e.g. a literal, or sorted/enumerate/range of scalars)"""
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return all(self.fresh(x, 0, seen) for x in e.elts)
        if isinstance(e, ast.Dict):
            return all(self.fresh(x, 0, seen) for x in e.values)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("range",):
            return True
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("split", "splitlines", "partition", "rpartition"):
            return True
        return False

    # ------------------------------------------------------------ effects
    def add(self, roots, kind, name, node, chain=(), where=None, fn=None):
        w = where or f"{self.f.module.rel}:{getattr(node, 'lineno', 0)}"
        for r in roots:
            k = (r, kind, name, w)
            if k not in self.out:
                self.out[k] = Effect(r, kind, name, w, (self.f.qual,) + tuple(chain), fn or self.f.qual)

    def target(self, t):
        if isinstance(t, ast.Attribute):
            if t.attr not in self.an.ignore:
                self.add(self.roots(t.value), "write", t.attr, t)
        elif isinstance(t, ast.Subscript):
            nm = t.value.attr if isinstance(t.value, ast.Attribute) else t.value.id if isinstance(t.value, ast.Name) else "[]"
            if nm not in self.an.ignore:
                self.add(self.roots(t.value), "item", nm, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.target(x)
        elif isinstance(t, ast.Name) and t.id in self.globals:
            self.add({"global"}, "write", t.id, t)

    def run(self):
        for n in ast.walk(self.f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    self.target(t)
            elif isinstance(n, (ast.AnnAssign, ast.AugAssign)) and (not isinstance(n, ast.AnnAssign) or n.value is not None):
                self.target(n.target)
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and isinstance(n.value, (ast.List, ast.ListComp, ast.Dict, ast.Set)):
                    self.add(self.roots(n.target), "mutate", n.target.id, n)
            elif isinstance(n, ast.Delete):
                for t in n.targets:
                    self.target(t)
            elif isinstance(n, (ast.For, ast.AsyncFor)):
                self.target(n.target)
            elif isinstance(n, ast.Call):
                self.call(n)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in self.an.props:
                self.dispatch(self.receivers(n.value, n.attr, self.an.props[n.attr]), n.value, [], {}, n)
        return self.out

    def receivers(self, recv, name, table):
        if isinstance(recv, ast.Name) and recv.id == self.me and self.self_cls:
            g = self.p.method(self.self_cls, name)
            return [(self.self_cls, g)] if g is not None else []
        return [(q, f) for q, f in table if not self.an.skip(q)]

    def call(self, c):
        name = c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id if isinstance(c.func, ast.Name) else None
        if name is None:
            return
        kws = {k.arg: k.value for k in c.keywords if k.arg}
        if name in SETTERS:
            args = c.args
            if isinstance(c.func, ast.Attribute) and not (isinstance(c.func.value, ast.Name) and c.func.value.id in ("object", "type")) and not isinstance(c.func.value, ast.Call):
                args = [c.func.value] + c.args
            elif isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Call):
                args = [ast.Name(self.me or "self", ast.Load())] + c.args
            if args:
                self.add(self.roots(args[0]), "write", args[1].value if len(args) > 1 and isinstance(args[1], ast.Constant) else "*", c)
            return
        if name in self.an.named:
            self.add({"call"}, "call", name, c)
        if isinstance(c.func, ast.Name):
            q = self.p.resolve(self.f.module, name)
            if name in self.env and q not in self.p.functions and q not in self.p.classes:
                return
            self.invoke(q, None, c.args, kws, c)
            return
        v = c.func.value
        if isinstance(v, ast.Call) and dotted(v.func) == "super" and self.self_cls and self.f.cls is not None:
            g = self.p.method(self.self_cls, name, after=self.f.cls.qual)
            if g is not None:
                self.dispatch([(self.self_cls, g)], ast.Name(self.me, ast.Load()), c.args, kws, c)
            return
        d = dotted(c.func)
        if d and not (isinstance(v, ast.Name) and (v.id == self.me or v.id in self.env or v.id in self.params)):
            q = self.p.resolve(self.f.module, d)
            if q in self.p.functions or q in self.p.classes:
                self.invoke(q, None, c.args, kws, c)
                return
            head = d.split(".")[0]
            if head in self.f.module.imports and not self.p.resolve(self.f.module, head).startswith(self.p.package if hasattr(self.p, "package") else "asyncz"):
                return      # a function of a third-party module
        if isinstance(v, ast.Name) and v.id == self.me and self.self_cls:
            g = self.p.method(self.self_cls, name)
            if g is not None:
                self.dispatch([(self.self_cls, g)], v, c.args, kws, c)
                return
        if name in MUTATORS:
            r = self.roots(v)
            nm = v.attr if isinstance(v, ast.Attribute) else v.id if isinstance(v, ast.Name) else "?"
            if nm not in self.an.ignore:
                self.add(r, "mutate", nm, c)
            return
        if name in CONTAINER_METHODS:
            return
        self.dispatch(self.receivers(v, name, self.an.by_name.get(name, [])), v, c.args, kws, c)

    def invoke(self, q, recv, args, kws, node):
        if q in self.p.functions:
            self.dispatch([(None, self.p.functions[q])], recv, args, kws, node)
        elif q in self.p.classes:
            for m in ("__init__", "model_post_init", "__post_init__"):
                g = self.p.method(q, m)
                if g is not None:
                    self.dispatch([(q, g)], ast.Constant(None), args, kws, node)

    def dispatch(self, cands, recv, args, kws, node):
        for q, g in cands:
            sub = self.an.summary(g, q)
            names = [x.arg for x in g.node.args.posonlyargs + g.node.args.args]
            if g.cls is not None and g.parent is None and not g.has_decorator("staticmethod"):
                names = names[1:]
            actual = {}
            for i, a in enumerate(args):
                if isinstance(a, ast.Starred):
                    break
                if i < len(names):
                    actual[names[i]] = a
            actual.update(kws)
            for e in list(sub.values()):
                if e.root == "self":
                    r = self.roots(recv) if recv is not None else set()
                elif e.root.startswith("p:"):
                    a = actual.get(e.root[2:])
                    r = self.roots(a) if a is not None else set()
                else:
                    r = {e.root}
                if len(e.chain) < 12:
                    self.add(r, e.kind, e.name, node, e.chain, e.where, e.fn)
