"""Interprocedural, path-sensitive dataflow over the syntax tree.

An abstract state is (environment of value terms, heap of attribute writes, facts known on the
path, client typestate).  Statements are transfer functions on *sets* of states; loops run to a
fixpoint; calls to functions of the analysed program are analysed inline (bounded depth), every
other call is an opaque event reported to the client; exceptional edges are modelled through the
raising behaviour the client declares for opaque calls.  Nothing is executed and no solver is used:
branches are decided only by syntactic equality of terms and by facts already on the path.
"""
from __future__ import annotations

import ast
import builtins

from .project import AnalysisError, Func, Project, dotted, own_nodes
from .terms import FALSE, NONE, T, TRUE, const, contains, cval, show, subterms

MUTATING = frozenset({"append", "appendleft", "add", "clear", "pop", "popitem", "popleft", "remove", "discard", "extend", "insert", "update", "setdefault"})
MAX_STATES = 48
MAX_TERM_DEPTH = 14
CONST_TYPES = {"builtins." + t.__name__: t for t in (str, int, float, bool, bytes, list, dict, tuple, set)}


class Env(dict):
    __slots__ = ("_h",)

    def __hash__(self):
        try:
            return self._h
        except AttributeError:
            self._h = hash(frozenset(self.items()))
            return self._h

    def set(self, k, v):
        e = Env(self)
        e[k] = v
        return e

    def without(self, k):
        if k not in self:
            return self
        e = Env(self)
        del e[k]
        return e


EMPTY = Env()


class St:
    __slots__ = ("env", "heap", "facts", "ts", "_h")

    def __init__(self, env=EMPTY, heap=EMPTY, facts=frozenset(), ts=()):
        self.env, self.heap, self.facts, self.ts = env, heap, facts, ts

    def key(self):
        return (self.env, self.heap, self.facts, self.ts)

    def __hash__(self):
        try:
            return self._h
        except AttributeError:
            self._h = hash((hash(self.env), hash(self.heap), self.facts, self.ts))
            return self._h

    def __eq__(self, o):
        return self is o or (hash(self) == hash(o) and self.ts == o.ts and self.facts == o.facts and self.env == o.env and self.heap == o.heap)

    def w(self, **kw):
        return St(kw.get("env", self.env), kw.get("heap", self.heap), kw.get("facts", self.facts), kw.get("ts", self.ts))

    def bind(self, name, term):
        return self.w(env=self.env.set(name, term))

    def know(self, *lits):
        return self.w(facts=self.facts | frozenset(lits))


class Exc:
    """An exception in flight. cls: qualified class name, '*Exception' / '*BaseException' for unknown."""
    __slots__ = ("cls", "site", "term")

    def __init__(self, cls, site, term=None):
        self.cls, self.site, self.term = cls, site, term

    def __hash__(self):
        return hash((self.cls, self.site))

    def __eq__(self, o):
        return (self.cls, self.site) == (o.cls, o.site)

    def __repr__(self):
        return f"Exc({self.cls}@{self.site})"


class Call:
    """An opaque call as seen by the client."""
    __slots__ = ("fn", "name", "recv", "args", "kw", "node", "module", "func", "st", "interp", "stack", "star")

    def arg(self, i, name=None, default=None):
        if name is not None:
            for k, v in self.kw:
                if k == name:
                    return v
        if i is not None and i < len(self.args):
            return self.args[i]
        return default

    def kwarg(self, name, default=None):
        for k, v in self.kw:
            if k == name:
                return v
        return default

    @property
    def where(self):
        return f"{self.module.rel}:{self.node.lineno}"

    @property
    def qual(self):
        return self.fn.a[0] if self.fn.k == "ref" else None

    def __repr__(self):
        return f"Call({show(self.fn)} @ {self.where})"


class Client:
    """Default behaviour: opaque calls do not raise and return a fresh value."""
    inline_depth = 9
    merge_by_ts = False        # ESP-style merging from the start

    def call(self, c: Call, st: St):
        """None → default opaque; otherwise list of ('ok', term, St) / ('raise', clsname, St)."""
        return None

    def raises(self, c: Call):
        return ()

    def inline(self, fn: Func, c_args):
        return True

    def with_enter(self, term, st, node, fr):
        """list of (as_value, St) or None for default."""
        return None

    def with_exit(self, term, st, node, fr, exc):
        """list of ('pass'|'swallow', St) or None."""
        return None

    def attr_write(self, base, name, value, st, node, fr):
        return st

    def attr_del(self, base, name, st, node, fr):
        return st

    def sub_write(self, base, key, value, st, node, fr):
        return st

    def sub_del(self, base, key, st, node, fr):
        return st

    def assume(self, lit, st, node, fr):
        return st

    def at_yield(self, term, st, node, fr):
        return st

    def on_loop(self, kind, term, st, node, fr):
        """kind in enter/iter/exit"""
        return st

    def on_fstr(self, term, st, node, fr):
        return st

    def import_raises(self, node, st):
        """exception classes an import statement inside a function may raise"""
        return ()

    def on_dict(self, pairs, st, node, fr):
        """a dict display; a spread part has the key T("starstar")"""
        return st

    def on_elt(self, terms, st, node, fr):
        """an element of a comprehension is produced"""
        return st

    def on_skip(self, it, st, node, fr):
        """an element of a comprehension is left out"""

    def type_of(self, term):
        """Class qual used to dispatch method calls on this term (inlined), or None."""
        return None

    def attr_value(self, base, name, st):
        return None


PURE = {"builtins." + n for n in (
    "len isinstance issubclass str int float bool repr hash id min max abs round tuple frozenset sorted sum any all "
    "getattr hasattr callable type list dict set zip enumerate range reversed iter bytes map filter format ord chr vars".split())}
IDENT = {"typing.cast": 1, "typing_extensions.cast": 1}
PURE_METHODS = {"lower", "upper", "strip", "lstrip", "rstrip", "startswith", "endswith", "split", "rsplit", "partition",
                "rpartition", "removeprefix", "removesuffix", "get", "items", "keys", "values", "format", "join", "encode",
                "decode", "replace", "isoformat", "title", "total_seconds", "copy", "casefold", "isdigit"}

STR_METHODS = {"lower", "upper", "strip", "lstrip", "rstrip", "title", "casefold", "isdigit", "startswith", "endswith", "partition", "rpartition",
               "split", "rsplit", "removeprefix", "removesuffix", "replace", "zfill", "ljust", "rjust", "isalpha", "isalnum", "find", "count"}


ABSENT = T("absent")


def lifted(v):
    return T("tuple", tuple(map(const, v))) if isinstance(v, tuple) else T("list", tuple(map(const, v))) if isinstance(v, list) else const(v)



class Frame:
    __slots__ = ("func", "sink", "yield_hook", "stack", "ret_cls")

    def __init__(self, func, stack):
        self.func = func
        self.sink = []
        self.yield_hook = None
        self.stack = stack


_SCOPED: dict = {}


def scoped_names(fn, loop):
    """Names that hold nothing of interest when a round of `loop` starts or the loop ends: every use of the name in the
    function lies in one block inside the loop, at or after a plain assignment of that very block."""
    got = _SCOPED.get(id(loop))
    if got is not None and got[0] is loop:
        return got[1]
    names: dict = {}
    barred: set = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name):
            names[n.id] = names.get(n.id, 0) + 1
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)) and n is not fn:
            barred |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            barred |= set(n.names)
    out = set()

    def count(stmts, name):
        return sum(1 for s in stmts for n in ast.walk(s) if isinstance(n, ast.Name) and n.id == name)

    def blocks(s):
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(s, fld, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield b
        for h in getattr(s, "handlers", []) or []:
            yield h.body

    def visit(block):
        for i, s in enumerate(block):
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                continue
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                n = s.targets[0].id
                if n not in barred and n not in out and count([s], n) == 1 and count(block[i:], n) == names[n]:
                    out.add(n)
            for b in blocks(s):
                visit(b)
    visit(loop.body)
    r = frozenset(out)
    _SCOPED[id(loop)] = (loop, r)
    return r


class Out:
    __slots__ = ("normal", "ret", "brk", "cont")

    def __init__(self, normal=(), ret=(), brk=(), cont=()):
        self.normal, self.ret, self.brk, self.cont = list(normal), list(ret), list(brk), list(cont)

    def add(self, o):
        self.normal += o.normal
        self.ret += o.ret
        self.brk += o.brk
        self.cont += o.cont


def neg(lit):
    return (lit[0], lit[1], not lit[2])


class Interp:
    def __init__(self, proj: Project, client: Client, self_cls: str | None = None):
        self.p = proj
        self._const_refs = {}
        self.c = client
        self.max_depth = getattr(client, "max_depth", MAX_TERM_DEPTH)
        self.rounds = getattr(client, "loop_rounds", 6)     # loop iterations before states are merged
        self.maxst = MAX_STATES      # states kept apart at a program point before merging
        self.self_cls = self_cls
        self.types: dict = {}
        self.closures: dict = {}
        self._dict_refs: dict = {}
        self.steps = 0
        self.inlined: set = set()
        self.opaque_calls = 0
        self.visited_funcs: set = set()

    # ================================================================= entry
    def run(self, func: Func, self_cls=None, args=None, st=None, closure_env=None):
        """Analyse `func` as an entry point. Returns list of (kind, payload, St)."""
        st = st or St()
        env = Env(closure_env or {})
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            names.append(a.vararg.arg)
        if a.kwarg:
            names.append(a.kwarg.arg)
        args = dict(args or {})
        self_cls = self_cls or (func.cls.qual if func.cls is not None else None)
        first = True
        for n in names:
            if n in args:
                env[n] = args[n]
            elif first and func.cls is not None and func.parent is None and not func.has_decorator("staticmethod"):
                t = T("self", self_cls)
                env[n] = t
                self.types[t] = self_cls
            else:
                env[n] = T("p", n)
            first = False
        st = st.w(env=env)
        fr = Frame(func, (func.qual,))
        self.visited_funcs.add(func.qual)
        return self._run_body(func, st, fr)

    def _run_body(self, func, st, fr):
        if isinstance(func.node, ast.Lambda):
            res = []
            for t, s in self.eval(func.node.body, st, fr):
                res.append(("return", t, s))
        else:
            out = self.block(func.node.body, [st], fr)
            res = [("return", t, s) for t, s in out.ret]
            res += [("return", NONE, s) for s in out.normal]
        res += [("raise", e, s) for e, s in fr.sink]
        # dedupe
        seen, uniq = set(), []
        for r in res:
            k = (r[0], r[1], r[2])
            if k not in seen:
                seen.add(k)
                uniq.append(r)
        return uniq

    # ================================================================= blocks
    def forget(self, st, names):
        if not any(n in st.env for n in names):
            return st
        return St(Env({k: v for k, v in st.env.items() if k not in names}), st.heap, st.facts, st.ts)

    def dedupe(self, states):
        seen = dict.fromkeys(states)
        out = list(seen)
        if len(out) > self.maxst or self.c.merge_by_ts:
            out = self.merge(out)
        return out

    def merge_exc(self, pairs):
        if len(pairs) <= (1 if self.c.merge_by_ts else self.maxst):
            return pairs
        groups: dict = {}
        for e, x in pairs:
            groups.setdefault((e, x.ts), []).append(x)
        return [(e, self.merge(xs)[0]) for (e, ts), xs in groups.items()]

    def merge_ret(self, pairs):
        pairs = list(dict.fromkeys(pairs))
        if len(pairs) <= (1 if self.c.merge_by_ts else self.maxst):
            return pairs
        groups: dict = {}
        for t, x in pairs:
            groups.setdefault((t, x.ts), []).append(x)
        return [(t, self.merge(xs)[0]) for (t, ts), xs in groups.items()]

    def merge(self, states):
        groups: dict = {}
        for s in states:
            groups.setdefault(s.ts, []).append(s)
        res = []
        for ts, g in groups.items():
            if len(g) == 1:
                res.append(g[0])
                continue
            res.append(St(self._join_env([s.env for s in g]), self._join_env([s.heap for s in g], heap=True),
                          frozenset.intersection(*[s.facts for s in g]), ts))
        return res

    def _join_env(self, envs, heap=False):
        keys = set(envs[0])
        for e in envs[1:]:
            if heap:
                keys |= set(e)
            else:
                keys &= set(e)
        out = Env()
        for k in keys:
            vals = set()
            for e in envs:
                v = e.get(k)
                if v is None and heap:
                    v = T("attr", k[0], k[1]) if isinstance(k, tuple) and len(k) == 2 else T("unk", "heap")
                vals.add(v)
            if len(vals) == 1:
                out[k] = next(iter(vals))
            elif any(not isinstance(v, T) for v in vals):
                continue
            else:
                out[k] = self.phi(vals)
        return out

    def phi(self, vals):
        flat = set()
        for v in vals:
            if v.k == "phi":
                flat |= v.a[0]
            else:
                flat.add(v)
        if len(flat) > 2:
            flat = self.join_minmax(flat)
        if len(flat) == 1:
            return next(iter(flat))
        if len(flat) > 6 or any(v.depth > self.max_depth for v in flat):
            return T("unk", "phi")
        return T("phi", frozenset(flat))

    def join_minmax(self, flat):
        """min(a, d) or min(b, d) is min(a or b, d)"""
        groups, out = {}, set()
        for v in flat:
            if v.k == "call" and v.a[0].k == "ref" and v.a[0].a[0] in ("builtins.min", "builtins.max") and len(v.a[1]) == 2 and not v.a[2]:
                groups.setdefault((v.a[0], v.a[1][1]), []).append(v)
            else:
                out.add(v)
        for (fn, last), vs in groups.items():
            out.add(vs[0] if len(vs) == 1 else T("call", fn, (self.phi([v.a[1][0] for v in vs]), last), ()))
        return out

    def block(self, stmts, states, fr):
        out = Out(normal=states)
        for s in stmts:
            if not out.normal:
                break
            cur = self.dedupe(out.normal)
            out.normal = []
            for st in cur:
                o = self.stmt(s, st, fr)
                out.add(o)
            if len(out.ret) > self.maxst:
                out.ret = self.merge_ret(out.ret)
            if len(fr.sink) > 4 * self.maxst:
                fr.sink[:] = self.merge_exc(list(dict.fromkeys(fr.sink)))
        out.normal = self.dedupe(out.normal)
        return out

    # ================================================================= statements
    def stmt(self, s, st, fr) -> Out:
        self.steps += 1
        if self.steps > 400_000:
            raise AnalysisError(f"analysis budget exceeded in {fr.func.qual}")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise AnalysisError(f"unsupported statement {type(s).__name__} at {fr.func.module.rel}:{s.lineno}")
        return m(s, st, fr)

    def s_Pass(self, s, st, fr):
        return Out([st])

    s_Import = s_ImportFrom = s_Pass

    def s_Global(self, s, st, fr):
        g = st.env.get("$globals", frozenset()) | frozenset(s.names)
        return Out([st.bind("$globals", g)])

    def s_Nonlocal(self, s, st, fr):
        return Out([st])

    def s_Import(self, s, st, fr):
        for x in self.c.import_raises(s, st):
            fr.sink.append((Exc(x, self.site(s, fr)), st))
        for a in s.names:
            st = st.bind(a.asname or a.name.split(".")[0], T("ref", self.p.canon(a.name if a.asname else a.name.split(".")[0])))
        return Out([st])

    def s_ImportFrom(self, s, st, fr):
        for x in self.c.import_raises(s, st):
            fr.sink.append((Exc(x, self.site(s, fr)), st))
        for a in s.names:
            local = a.asname or a.name
            q = fr.func.module.imports.get(local)
            st = st.bind(local, T("ref", self.p.canon(q)) if q else T("unk", local))
        return Out([st])

    def s_Expr(self, s, st, fr):
        return Out([x for _, x in self.eval(s.value, st, fr)])

    def s_FunctionDef(self, s, st, fr):
        t = self.closure(s, st, fr)
        for d in s.decorator_list:
            dd = dotted(d.func if isinstance(d, ast.Call) else d)
        return Out([st.bind(s.name, t)])

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, st, fr):
        return Out([st.bind(s.name, T("ref", f"{fr.func.qual}.<locals>.{s.name}"))])

    def closure(self, node, st, fr):
        free = {n.id for n in ast.walk(node) if isinstance(n, ast.Name)}
        env = Env({k: v for k, v in st.env.items() if k in free or k.startswith("$self")})
        t = T("closure", id(node), hash(env))
        self.closures[t] = (node, env, fr.func)
        return t

    def s_Return(self, s, st, fr):
        if s.value is None:
            return Out(ret=[(NONE, st)])
        return Out(ret=self.eval(s.value, st, fr))

    def s_Break(self, s, st, fr):
        return Out(brk=[st])

    def s_Continue(self, s, st, fr):
        return Out(cont=[st])

    def s_Raise(self, s, st, fr):
        if s.exc is None:
            cur = st.env.get("$exc")
            fr.sink.append((cur if isinstance(cur, Exc) else Exc("*Exception", self.site(s, fr)), st))
            return Out()
        for t, st2 in self.eval(s.exc, st, fr):
            if s.cause is not None:
                pairs = self.eval(s.cause, st2, fr)
            else:
                pairs = [(None, st2)]
            for _, st3 in pairs:
                fr.sink.append((self.exc_of(t, self.site(s, fr), st3), st3))
        return Out()

    def exc_of(self, t, site, st):
        if t.k == "new":
            return Exc(t.a[0], site, t)
        if t.k == "ref":
            return Exc(t.a[0], site, t)
        if t.k == "excv":
            return Exc(t.a[0], site, t)
        if t.k == "call" and t.a[0].k == "ref":
            return Exc(t.a[0].a[0], site, t)
        return Exc("*Exception", site, t)

    def s_Assert(self, s, st, fr):
        out = []
        for st2, ok in self.cond(s.test, st, fr):
            if ok:
                out.append(st2)
            else:
                fr.sink.append((Exc("builtins.AssertionError", self.site(s, fr)), st2))
        return Out(out)

    def s_Delete(self, s, st, fr):
        sts = [st]
        for t in s.targets:
            nxt = []
            for x in sts:
                if isinstance(t, ast.Name):
                    nxt.append(x.w(env=x.env.without(t.id)))
                elif isinstance(t, ast.Attribute):
                    for b, y in self.eval(t.value, x, fr):
                        nxt.append(self.c.attr_del(b, t.attr, y, s, fr))
                elif isinstance(t, ast.Subscript):
                    for b, y in self.eval(t.value, x, fr):
                        for k, z in self.eval(t.slice, y, fr):
                            r = self.c.sub_del(b, k, self.mutated(z, b), s, fr)
                            nxt += r if isinstance(r, list) else [r]
                elif isinstance(t, (ast.Tuple, ast.List)):
                    o = self.s_Delete(ast.copy_location(ast.Delete(targets=t.elts), s), x, fr)
                    nxt += o.normal
            sts = nxt
        return Out(sts)

    def s_Assign(self, s, st, fr):
        out = []
        for v, st2 in self.eval(s.value, st, fr):
            sts = [st2]
            for t in s.targets:
                sts = [z for y in sts for z in self.assign(t, v, y, fr, s)]
            out += sts
        return Out(out)

    def s_AnnAssign(self, s, st, fr):
        if s.value is None:
            return Out([st])
        out = []
        for v, st2 in self.eval(s.value, st, fr):
            out += self.assign(s.target, v, st2, fr, s)
        return Out(out)

    def s_AugAssign(self, s, st, fr):
        load = ast.copy_location(self._as_load(s.target), s.target)
        out = []
        for a, st2 in self.eval(load, st, fr):
            for b, st3 in self.eval(s.value, st2, fr):
                if a.k == "newlist" and isinstance(s.op, ast.Add):
                    # in place: the same as append / extend
                    nm, args = ("append", (b.a[0][0],)) if b.k == "list" and len(b.a[0]) == 1 else ("extend", (b,))
                    for _, st4 in self.apply(T("attr", a, nm), args, (), s, st3, fr):
                        out.append(st4)
                    continue
                v = self.binop(type(s.op).__name__, a, b)
                out += self.assign(s.target, v, st3, fr, s)
        return Out(out)

    def _as_load(self, t):
        if isinstance(t, ast.Name):
            return ast.Name(t.id, ast.Load())
        if isinstance(t, ast.Attribute):
            return ast.Attribute(t.value, t.attr, ast.Load())
        return ast.Subscript(t.value, t.slice, ast.Load())

    def assign(self, t, v, st, fr, node):
        if isinstance(t, ast.Name):
            if t.id in st.env.get("$globals", ()):
                q = T("ref", f"{fr.func.module.name}.{t.id}")
                st = self.c.attr_write(T("mod", fr.func.module.name), t.id, v, st, node, fr)
                return [st.w(heap=st.heap.set((T("mod", fr.func.module.name), t.id), v))]
            return [st.bind(t.id, v)]
        if isinstance(t, ast.Attribute):
            out = []
            for b, st2 in self.eval(t.value, st, fr):
                r = self.c.attr_write(b, t.attr, v, st2, node, fr)
                for st3 in (r if isinstance(r, list) else [r]):
                    out.append(self.heap_write(b, t.attr, v, st3))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for b, st2 in self.eval(t.value, st, fr):
                for k, st3 in self.eval(t.slice, st2, fr):
                    self.c.pre_write = st3
                    r = self.c.sub_write(b, k, v, self.mutated(st3, b), node, fr)
                    for st4 in (r if isinstance(r, list) else [r]):
                        out.append(self.heap_write(b, ("[]", k), v, st4))
            return out
        if isinstance(t, ast.Starred):
            return self.assign(t.value, T("rest", v), st, fr, node)
        if isinstance(t, (ast.Tuple, ast.List)):
            sts = [st]
            star = next((i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)), None)
            for i, e in enumerate(t.elts):
                nxt = []
                for x in sts:
                    if v.k in ("tuple", "list") and star is None and len(v.a[0]) == len(t.elts):
                        ev = v.a[0][i]
                    elif v.k in ("tuple", "list") and star is not None and len(v.a[0]) >= len(t.elts) - 1 and not any(y.k in ("rest", "star", "starred") for y in v.a[0]):
                        after = len(t.elts) - 1 - star
                        ev = T("list", v.a[0][star:len(v.a[0]) - after]) if i == star else v.a[0][i if i < star else i - len(t.elts)]
                    elif isinstance(e, ast.Starred):
                        ev = T("rest", v, const(i))
                    else:
                        ev = self.index(v, const(i), x)
                    nxt += self.assign(e.value if isinstance(e, ast.Starred) else e, ev, x, fr, node)
                sts = nxt
            return sts
        raise AnalysisError(f"unsupported assignment target {type(t).__name__}")

    def heap_write(self, b, name, v, st):
        facts = st.facts
        rd = T("attr", b, name) if isinstance(name, str) else T("idx", b, name[1])
        if facts:
            facts = frozenset(f for f in facts if not any(contains(x, rd) for x in f[1] if isinstance(x, T)))
        heap = st.heap
        if contains(v, rd) and v.depth > self.max_depth:
            v = T("unk", "widen")
        return St(st.env, heap.set((b, name), v), facts, st.ts)

    def s_If(self, s, st, fr):
        out = Out()
        tr, fa = [], []
        for st2, ok in self.cond(s.test, st, fr):
            (tr if ok else fa).append(st2)
        if tr:
            out.add(self.block(s.body, tr, fr))
        if fa:
            out.add(self.block(s.orelse, fa, fr))
        return out

    def s_Match(self, s, st, fr):
        out = Out()
        cur = self.eval(s.subject, st, fr)
        for case in s.cases:
            nxt = []
            for subj, x in cur:
                matched, unmatched = self.pattern(case.pattern, subj, x, fr)
                if case.guard is not None:
                    m2 = []
                    for y in matched:
                        for z, ok in self.cond(case.guard, y, fr):
                            if ok:
                                m2.append(z)
                            else:
                                unmatched.append(z)
                    matched = m2
                if matched:
                    out.add(self.block(case.body, matched, fr))
                nxt += [(subj, y) for y in unmatched]
            cur = nxt
        out.normal += [x for _, x in cur]
        return out

    def pattern(self, p, subj, st, fr):
        if isinstance(p, ast.MatchValue):
            m, u = [], []
            for v, s2 in self.eval(p.value, st, fr):
                for s3, ok in self.cond_lit("eq", (subj, v), s2, p, fr):
                    (m if ok else u).append(s3)
            return m, u
        if isinstance(p, ast.MatchSingleton):
            m, u = [], []
            for s3, ok in self.cond_lit("is", (subj, const(p.value)), st, p, fr):
                (m if ok else u).append(s3)
            return m, u
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return [st.bind(p.name, subj) if p.name else st], []
            m, u = self.pattern(p.pattern, subj, st, fr)
            return [x.bind(p.name, subj) if p.name else x for x in m], u
        if isinstance(p, ast.MatchOr):
            m, u = [], [st]
            for q in p.patterns:
                nu = []
                for x in u:
                    mm, uu = self.pattern(q, subj, x, fr)
                    m += mm
                    nu += uu
                u = nu
            return m, u
        return [st], [st]

    # ---------------------------------------------------------------- loops
    def kill(self, st, term):
        """Forget facts/heap about a term whose value is about to be re-drawn."""
        if term.k == "tuple":
            for x in term.a[0]:
                st = self.kill(st, x)
            return st
        facts = frozenset(f for f in st.facts if not any(isinstance(x, T) and contains(x, term) for x in f[1]))
        heap = st.heap
        dead = [k for k in heap if contains(k[0], term) or (isinstance(k[1], tuple) and contains(k[1][1], term))]
        if dead:
            heap = Env({k: v for k, v in heap.items() if k not in dead})
        if len(facts) == len(st.facts) and heap is st.heap:
            return st
        return St(st.env, heap, facts, st.ts)

    def mutated(self, st, cont):
        """a container changed: forget what was known about its emptiness, size and members"""
        ln = T("ref", "builtins.len")

        def about(f):
            if f[0] == "truth" and f[1][0] is cont or f[0] == "in" and len(f[1]) > 1 and f[1][1] is cont:
                return True
            return any(isinstance(x, T) and x.k == "call" and x.a[0] is ln and x.a[1] and x.a[1][0] is cont for x in f[1])
        facts = frozenset(f for f in st.facts if not about(f))
        return st if len(facts) == len(st.facts) else St(st.env, st.heap, facts, st.ts)

    def s_For(self, s, st, fr):
        out = Out()
        for it, st0 in self.eval(s.iter, st, fr):
            st0s = self.c.on_loop("enter", it, st0, s, fr)
            for st1 in (st0s if isinstance(st0s, list) else [st0s]):
                out.add(self._loop_for(s, it, st1, fr))
        return out

    s_AsyncFor = s_For

    def _loop_for(self, s, it, st, fr):
        elem = self.elem(it)
        out = Out()
        if getattr(self.c, "known_dicts", False):
            base = it
            if it.k == "call" and it.a[0].k == "attr" and it.a[0].a[1] in ("items", "keys", "values") and not it.a[1]:
                base = it.a[0].a[0]
            pairs = self.item_seq(base, st)
            if pairs is not None:
                which = it.a[0].a[1] if base is not it else "keys"
                it = T("tuple", pairs if which == "items" else tuple(x.a[0][which == "values"] for x in pairs))
        # literal tuple/list: unroll
        if it.k in ("tuple", "list") and (len(it.a[0]) <= 8 or getattr(self.c, "known_dicts", False) and len(it.a[0]) <= 32 or it in getattr(self.c, "known_seqs", ())) and not any(x.k == "rest" for x in it.a[0]):
            cur = [st]
            for e in it.a[0]:
                nxt = []
                for x in cur:
                    for y in self.assign(s.target, e, x, fr, s):
                        o = self.block(s.body, [y], fr)
                        nxt += o.normal + o.cont
                        out.ret += o.ret
                        out.normal += o.brk
                cur = self.dedupe(nxt)
            o = self.block(s.orelse, cur, fr)
            out.add(o)
            return out
        dead = scoped_names(fr.func.node, s)
        seen: set = set()
        head = [st]
        exits = []
        rounds = 0
        while head:
            rounds += 1
            head = self.dedupe(head)
            new = [x for x in head if x not in seen]
            if not new:
                break
            if rounds > self.rounds:
                new = self.merge(new)
                new = [x for x in new if x not in seen]
                if rounds > self.rounds + 8:
                    new = [self._widen(x) for x in new]
                    new = [x for x in dict.fromkeys(new) if x not in seen]
                if rounds > self.rounds + 24:
                    break
            seen.update(new)
            exits += new
            nxt = []
            for x in new:
                xs = self.c.on_loop("iter", it, x, s, fr)
                for x1 in (xs if isinstance(xs, list) else [xs]):
                    x1 = self.kill(x1, elem)
                    for y in self.assign(s.target, elem, x1, fr, s):
                        o = self.block(s.body, [y], fr)
                        nxt += o.normal + o.cont
                        out.ret += o.ret
                        out.brk += o.brk
            head = [self.forget(x, dead) for x in nxt]
        brk, out.brk = self._breaks(it, out.brk, s, fr), []
        fin = []
        for x in self.dedupe(exits):
            xs = self.c.on_loop("exit", it, x, s, fr)
            fin += xs if isinstance(xs, list) else [xs]
        out.add(self.block(s.orelse, fin, fr))
        out.normal += brk
        out.normal = self.dedupe(out.normal)
        return out

    def _widen(self, st):
        env = Env({k: (T("unk", "widen") if isinstance(v, T) and v.depth > 4 else v) for k, v in st.env.items()})
        return St(env, EMPTY, frozenset(), st.ts)

    def s_While(self, s, st, fr):
        out = Out()
        dead = scoped_names(fr.func.node, s)
        seen: set = set()
        head = [st]
        exits = []
        rounds = 0
        while head:
            rounds += 1
            head = self.dedupe(head)
            new = [x for x in head if x not in seen]
            if not new:
                break
            if rounds > self.rounds:
                new = [x for x in self.merge(new) if x not in seen]
                if rounds > self.rounds + 8:
                    new = [x for x in dict.fromkeys(self._widen(x) for x in new) if x not in seen]
                if rounds > self.rounds + 24:
                    break
            seen.update(new)
            nxt = []
            for x in new:
                for y, ok in self.cond(s.test, x, fr):
                    if not ok:
                        exits.append(y)
                        continue
                    ys = self.c.on_loop("iter", NONE, y, s, fr)
                    for y1 in (ys if isinstance(ys, list) else [ys]):
                        o = self.block(s.body, [y1], fr)
                        nxt += [self._loop_forget(z) for z in o.normal + o.cont]
                        out.ret += o.ret
                        out.brk += o.brk
            head = [self.forget(x, dead) for x in nxt]
        brk, out.brk = self._breaks(NONE, out.brk, s, fr), []
        fin = []
        for x in self.dedupe(exits):
            xs = self.c.on_loop("exit", NONE, x, s, fr)
            fin += xs if isinstance(xs, list) else [xs]
        out.add(self.block(s.orelse, fin, fr))
        out.normal += brk
        out.normal = self.dedupe(out.normal)
        return out

    def _breaks(self, it, states, s, fr):
        out = []
        for x in self.dedupe(states):
            xs = self.c.on_loop("break", it, x, s, fr)
            out += xs if isinstance(xs, list) else [xs]
        return out

    def _loop_forget(self, st):
        return st

    def elem(self, it):
        if it.k == "call" and it.a[0].k == "ref":
            q = it.a[0].a[0]
            if q == "builtins.enumerate" and it.a[1]:
                return T("tuple", (T("count", it.a[1][0]), self.elem(it.a[1][0])))
            if q in ("builtins.list", "builtins.tuple", "builtins.reversed", "builtins.iter", "builtins.sorted", "builtins.set", "builtins.frozenset") and it.a[1]:
                return self.elem(it.a[1][0])
            if q == "builtins.range" and len(it.a[1]) == 1 and it.a[1][0].k == "call" and it.a[1][0].a[0].k == "ref" and it.a[1][0].a[0].a[0] == "builtins.len":
                return T("count", it.a[1][0].a[1][0])
            if q == "builtins.zip":
                return T("tuple", tuple(self.elem(x) for x in it.a[1]))
        if it.k == "call" and it.a[0].k == "attr" and not it.a[1] and not it.a[2]:
            meth = it.a[0].a[1]
            base = it.a[0].a[0]
            if meth == "items":
                return T("tuple", (T("key", base), T("val", base)))
            if meth == "values":
                return T("val", base)
            if meth == "keys":
                return T("key", base)
            if meth == "copy":
                return self.elem(base)
        if it.k == "idx" and it.a[1].k == "slice":
            return self.elem(it.a[0])
        if it.k == "copyof":
            return self.elem(it.a[0])
        return T("elem", it)

    # ---------------------------------------------------------------- try / with
    def s_Try(self, s, st, fr):
        outer = fr.sink
        out = Out()
        caught: list = []
        fr.sink = caught
        try:
            body = self.block(s.body, [st], fr)
        finally:
            pass
        escaped: list = []
        fr.sink = escaped
        if s.orelse and body.normal:
            o = self.block(s.orelse, body.normal, fr)
            body.normal = []
            body.add(o)
        out.add(body)
        caught = self.merge_exc(list(dict.fromkeys(caught)))
        for exc, x in caught:
            rem = [(exc, x)]
            for h in s.handlers:
                nrem = []
                for e, y in rem:
                    verdict = self.match_exc(e, h, y, fr)
                    if verdict in ("yes", "maybe"):
                        e2 = e
                        if verdict == "maybe":
                            hs = self.handler_types(h, fr)
                            if len(hs) == 1 and hs[0]:
                                e2 = Exc(hs[0], e.site, e.term)
                        prev = y.env.get("$exc")
                        z = y.w(env=y.env.set("$exc", e2))
                        if h.name:
                            z = z.bind(h.name, T("excv", e2.cls, e2.site))
                        z = self.on_caught(z, e2, h, fr)
                        ho = self.block(h.body, [z], fr)

                        def restore(q):
                            env = q.env.without(h.name) if h.name else q.env
                            env = env.set("$exc", prev) if prev is not None else env.without("$exc")
                            return q.w(env=env)
                        ho.normal = [restore(q) for q in ho.normal]
                        ho.brk = [restore(q) for q in ho.brk]
                        ho.cont = [restore(q) for q in ho.cont]
                        out.add(ho)
                    if verdict in ("no", "maybe"):
                        nrem.append((e, y))
                rem = nrem
                if not rem:
                    break
            escaped.extend(rem)
        escaped = list(dict.fromkeys(escaped))
        fr.sink = outer
        if not s.finalbody:
            outer.extend(escaped)
            out.normal = self.dedupe(out.normal)
            return out
        return self._finally(s.finalbody, out, escaped, outer, fr)

    s_TryStar = s_Try

    def on_caught(self, st, e, h, fr):
        f = getattr(self.c, "caught", None)
        return f(e, st, h, fr) if f else st

    def _finally(self, final, out, escaped, outer, fr):
        res = Out()
        fr.sink = outer
        for x in self.dedupe(out.normal):
            o = self.block(final, [x], fr)
            res.add(o)
        for kind in ("brk", "cont"):
            for x in dict.fromkeys(getattr(out, kind)):
                o = self.block(final, [x], fr)
                getattr(res, kind).extend(o.normal)
                o.normal = []
                res.add(o)
        for t, x in self.merge_ret(out.ret):
            o = self.block(final, [x], fr)
            res.ret.extend((t, y) for y in o.normal)
            o.normal = []
            res.add(o)
        for e, x in escaped:
            o = self.block(final, [x], fr)
            outer.extend((e, y) for y in o.normal)
            o.normal = []
            res.add(o)
        return res

    def handler_types(self, h, fr, node=None):
        node = node if node is not None else h.type
        if node is None:
            return ["builtins.BaseException"]
        if isinstance(node, ast.Tuple):
            r = []
            for e in node.elts:
                r += self.handler_types(h, fr, e)
            return r
        d = dotted(node)
        if d is None:
            return [None]
        q = self.p.resolve(fr.func.module, d)
        # module-level alias tuple of exceptions
        mn, _, nm = q.rpartition(".")
        m = self.p.modules.get(mn)
        if m is not None and nm in m.assigns and isinstance(m.assigns[nm][0], ast.Tuple):
            r = []
            for e in m.assigns[nm][0].elts:
                dd = dotted(e)
                r.append(self.p.resolve(m, dd) if dd else None)
            return r
        return [q]

    def match_exc(self, e, h, st, fr):
        verdict = "no"
        for t in self.handler_types(h, fr):
            v = self.exc_is(e.cls, t)
            if v == "yes":
                return "yes"
            if v == "maybe":
                verdict = "maybe"
        return verdict

    def exc_mro(self, q):
        out = []
        if q.startswith("builtins."):
            c = getattr(builtins, q[9:], None)
            if isinstance(c, type):
                return ["builtins." + b.__name__ for b in c.__mro__]
        if q in EXTRA_EXC:
            return [q] + self.exc_mro(EXTRA_EXC[q])
        if q in self.p.classes:
            for b in self.p.mro(q):
                if b in self.p.classes:
                    out.append(b)
                else:
                    out += self.exc_mro(b)
            return out
        return [q, "builtins.Exception", "builtins.BaseException", "builtins.object"]

    def exc_is(self, cls, handler):
        if handler is None:
            return "maybe"
        if cls == "*Exception":
            if handler in ("builtins.Exception", "builtins.BaseException"):
                return "yes"
            hm = self.exc_mro(handler)
            return "no" if "builtins.Exception" not in hm else "maybe"
        if cls == "*BaseException":   # a BaseException that is not an Exception
            if handler == "builtins.BaseException":
                return "yes"
            if handler == "builtins.Exception":
                return "no"
            hm = self.exc_mro(handler)
            return "no" if "builtins.Exception" in hm else "maybe"
        m = self.exc_mro(cls)
        if handler in m:
            return "yes"
        hm = self.exc_mro(handler)
        if cls in hm:
            return "maybe"
        return "no"

    def s_With(self, s, st, fr):
        return self._with(s.items, s.body, st, fr, s)

    s_AsyncWith = s_With

    def _with(self, items, body, st, fr, node):
        if not items:
            return self.block(body, [st], fr)
        item, rest = items[0], items[1:]
        out = Out()
        ce = item.context_expr
        # generator context manager of the analysed program?
        if isinstance(ce, ast.Call):
            pre = self.eval_callee(ce.func, st, fr)
            handled = True
            for fterm, st1 in pre:
                f, recv = self.target(fterm)
                if f is not None and f.has_decorator("contextmanager", "asynccontextmanager") and f.is_generator and len(fr.stack) < self.c.inline_depth and f.qual not in fr.stack and self.c.inline(f, None):
                    for (args, kw, star), st2 in self.eval_args(ce, st1, fr):
                        out.add(self._gen_cm(f, recv, args, kw, item, rest, body, st2, fr, node))
                else:
                    handled = False
            if handled and pre:
                return out
            out = Out()
        for t, st1 in self.eval(ce, st, fr):
            if t.k == "call" and t.a[0].k == "ref" and t.a[0].a[0] == "contextlib.suppress":
                types = [x.a[0] if x.k == "ref" else None for x in t.a[1]]
                outer = fr.sink
                fr.sink = []
                o = self._with(rest, body, st1, fr, node)
                sink, fr.sink = fr.sink, outer
                for e, x in dict.fromkeys(sink):
                    vs = [self.exc_is(e.cls, ty) for ty in types]
                    if "yes" in vs:
                        o.normal.append(x)
                    elif "maybe" in vs:
                        o.normal.append(x)
                        outer.append((e, x))
                    else:
                        outer.append((e, x))
                out.add(o)
                continue
            ent = self.c.with_enter(t, st1, node, fr)
            if ent is None:
                ent = [(T("enter", t), st1)]
            for val, st2 in ent:
                if isinstance(val, Exc):
                    fr.sink.append((val, st2))
                    continue
                sts = [st2]
                if item.optional_vars is not None:
                    sts = self.assign(item.optional_vars, val, st2, fr, node)
                for st3 in sts:
                    outer = fr.sink
                    fr.sink = []
                    o = self._with(rest, body, st3, fr, node)
                    sink, fr.sink = fr.sink, outer

                    def leave(x, exc=None):
                        r = self.c.with_exit(t, x, node, fr, exc)
                        return [("pass", x)] if r is None else r
                    for x in dict.fromkeys(o.normal):
                        out.normal += [y for k, y in leave(x)]
                    for kind in ("brk", "cont"):
                        for x in dict.fromkeys(getattr(o, kind)):
                            getattr(out, kind).extend(y for k, y in leave(x))
                    for v, x in dict.fromkeys(o.ret):
                        out.ret += [(v, y) for k, y in leave(x)]
                    for e, x in dict.fromkeys(sink):
                        for k, y in leave(x, e):
                            if k == "swallow":
                                out.normal.append(y)
                            else:
                                outer.append((e, y))
        out.normal = self.dedupe(out.normal)
        return out

    def _gen_cm(self, f, recv, args, kw, item, rest, body, st, fr, node):
        self.inlined.add(f.qual)
        self.visited_funcs.add(f.qual)
        caller_env = st.env
        cst = self.bind_args(f, recv, args, kw, st, fr)
        cfr = Frame(f, fr.stack + (f.qual,))
        out = Out()

        def hook(term, x):
            res = []
            pend = x.env.get("$cm")
            cenv = x.env
            y = x.w(env=caller_env)
            sts = [y]
            if item.optional_vars is not None:
                sts = self.assign(item.optional_vars, term, y, fr, node)
            for y in sts:
                outer = fr.sink
                fr.sink = []
                o = self._with(rest, body, y, fr, node)
                sink, fr.sink = fr.sink, outer
                for z in dict.fromkeys(o.normal):
                    res.append(z.w(env=cenv.set("$cm", ("normal", None, z.env))))
                for k in ("brk", "cont"):
                    for z in dict.fromkeys(getattr(o, k)):
                        res.append(z.w(env=cenv.set("$cm", (k, None, z.env))))
                for v, z in dict.fromkeys(o.ret):
                    res.append(z.w(env=cenv.set("$cm", ("ret", v, z.env))))
                for e, z in dict.fromkeys(sink):
                    cfr.sink.append((e, z.w(env=cenv.set("$cm", ("raise", e, z.env)))))
            return res

        cfr.yield_hook = hook
        for kind, payload, x in self._run_body(f, cst, cfr):
            pend = x.env.get("$cm")
            if pend is None:
                # never yielded
                if kind == "raise":
                    fr.sink.append((payload, x.w(env=caller_env)))
                else:
                    fr.sink.append((Exc("builtins.RuntimeError", self.site(node, fr)), x.w(env=caller_env)))
                continue
            pk, pv, penv = pend
            y = x.w(env=penv)
            if kind == "raise":
                fr.sink.append((payload, y))
            elif pk == "normal" or pk == "raise":
                out.normal.append(y)
            elif pk == "ret":
                out.ret.append((pv, y))
            else:
                getattr(out, pk).append(y)
        return out

    # ================================================================= conditions
    def cond(self, e, st, fr):
        """[(St, bool)] for the branches of a boolean expression."""
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            cur = [st]
            done = []
            for i, v in enumerate(e.values):
                nxt = []
                for x in cur:
                    for y, ok in self.cond(v, x, fr):
                        if ok == is_and:
                            nxt.append(y)
                        else:
                            done.append((y, not is_and))
                cur = nxt
            return done + [(x, is_and) for x in cur]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(x, not ok) for x, ok in self.cond(e.operand, st, fr)]
        if isinstance(e, ast.IfExp):
            out = []
            for x, ok in self.cond(e.test, st, fr):
                out += self.cond(e.body if ok else e.orelse, x, fr)
            return out
        out = []
        for t, x in self.eval(e, st, fr):
            out += self.truth(t, x, e, fr)
        return out

    def truth(self, t, st, node, fr):
        """Branch on the truth of a term."""
        k = t.k
        if k == "const":
            return [(st, bool(t.a[0]))]
        if k in ("closure", "func", "new", "self") or (k == "ref" and t.a[0] in self.p.classes):
            if k != "new":
                return [(st, True)]
        if k == "tuple":
            return [(st, bool(t.a[0]))]
        if k == "not":
            return [(x, not ok) for x, ok in self.truth(t.a[0], st, node, fr)]
        if k == "and" or k == "or":
            cur, done = [st], []
            is_and = k == "and"
            for v in t.a[0]:
                nxt = []
                for x in cur:
                    for y, ok in self.truth(v, x, node, fr):
                        if ok == is_and:
                            nxt.append(y)
                        else:
                            done.append((y, not is_and))
                cur = nxt
            return done + [(x, is_and) for x in cur]
        if k == "cmp":
            return self.compare(t.a[0], t.a[1], t.a[2], st, node, fr)
        if k == "phi":
            out = []
            for v in sorted(t.a[0], key=lambda z: z._h):
                out += self.truth(v, st, node, fr)
            return list(dict.fromkeys(out))
        if k == "call" and t.a[0].k == "ref" and t.a[0].a[0] == "builtins.bool" and len(t.a[1]) == 1:
            return self.truth(t.a[1][0], st, node, fr)
        if k == "call" and t.a[0].k == "ref" and t.a[0].a[0] == "builtins.isinstance" and len(t.a[1]) == 2:
            known = self.known_instance(*t.a[1])
            if known is not None:
                return [(st, known)]
        return self.cond_lit("truth", (t,), st, node, fr)

    def known_instance(self, v, cls):
        """isinstance(v, cls) when the value's exact class is known; None otherwise"""
        if cls.k == "tuple":
            got = [self.known_instance(v, c) for c in cls.a[0]]
            return True if True in got else None if None in got else False
        if cls.k != "ref":
            return None
        c = cls.a[0]
        if v.k == "new" and v.a[0] in self.p.classes:
            mro = self.p.mro(v.a[0])
            if c in mro:
                return True
            return False if c in self.p.classes else None
        if v.k == "const" and c.startswith("builtins."):
            x = getattr(builtins, c.split(".")[-1], None)
            return isinstance(v.a[0], x) if isinstance(x, type) else None
        return None

    def compare(self, op, a, b, st, node, fr):
        if op == "in" or op == "not in":
            pos = op == "in"
            if b.k in ("tuple", "list", "set") and len(b.a[0]) <= 8 and not any(x.k == "rest" for x in b.a[0]):
                cur, done = [st], []
                for v in b.a[0]:
                    nxt = []
                    for x in cur:
                        kind = "is" if v is NONE else "eq"
                        for y, ok in self.cond_lit(kind, (a, v), x, node, fr):
                            if ok:
                                done.append((y, pos))
                            else:
                                nxt.append(y)
                    cur = nxt
                return done + [(x, not pos) for x in cur]
            return [(x, ok == pos) for x, ok in self.cond_lit("in", (a, b), st, node, fr)]
        if op in ("==", "!=", "is", "is not"):
            pos = op in ("==", "is")
            kind = "is" if "is" in op else "eq"
            if a.k in ("const",) and b.k not in ("const",):
                a, b = b, a
            if b is NONE:
                kind = "is"
            if b is TRUE or b is FALSE:
                # `x == True`/`x is True`: treat as truth only for terms known boolean
                if a.k in ("cmp", "not", "and", "or"):
                    return [(x, (ok == cval(b)) == pos) for x, ok in self.truth(a, st, node, fr)]
            if kind == "is" and self.enum_member(b):
                kind = "eq"
            if a.k == "phi" or b.k == "phi":
                out = []
                for x in (sorted(a.a[0], key=lambda z: z._h) if a.k == "phi" else [a]):
                    for y in (sorted(b.a[0], key=lambda z: z._h) if b.k == "phi" else [b]):
                        out += self.compare(op, x, y, st, node, fr)
                return list(dict.fromkeys(out))
            return [(x, ok == pos) for x, ok in self.cond_lit(kind, (a, b), st, node, fr)]
        if op == "<":
            return self.cond_lit("lt", (a, b), st, node, fr)
        if op == ">":
            return self.cond_lit("lt", (b, a), st, node, fr)
        if op == ">=":
            return [(x, not ok) for x, ok in self.cond_lit("lt", (a, b), st, node, fr)]
        if op == "<=":
            return [(x, not ok) for x, ok in self.cond_lit("lt", (b, a), st, node, fr)]
        return [(st, True), (st, False)]

    def enum_member(self, t):
        return t.k == "ref" and (".".join(t.a[0].split(".")[:-1]) in self.p.classes or t.a[0].split(".")[-1].isupper())

    def const_ref(self, t):
        """value of a module-level constant a reference denotes, or None"""
        if t.k != "ref" or not t.a[0].split(".")[-1].isupper():
            return None
        got = self._const_refs.get(t)
        if got is None:
            try:
                got = self.p.const_of(t.a[0])
            except ValueError:
                got = ()
            self._const_refs[t] = got
        return None if got == () else got

    def decided(self, kind, ts, st):
        """True/False when the literal is decided by the terms or by the path facts, else None."""
        if kind == "eq" or kind == "is":
            a, b = ts
            if a is b and a.k not in ("unk",):
                return True
            if a.k == "const" and b.k == "const":
                return a.a[0] == b.a[0] if kind == "eq" else (a is b)
            if b is NONE:
                if a.k in ("new", "tuple", "list", "dict", "set", "closure", "self", "fstr", "excv", "enter", "coro", "func", "cmp", "not", "comp", "op", "newlist", "newdict"):
                    return False
                if a.k == "ref" and (a.a[0] in self.p.classes or a.a[0] in self.p.functions or self.const_ref(a) is not None):
                    return False
                if ("truth", (a,), True) in st.facts:
                    return False
                for f in st.facts:
                    if f[0] == "eq" and f[2] and f[1][0] is a and (self.enum_member(f[1][1]) or (f[1][1].k == "const" and f[1][1] is not NONE)):
                        return False
                    if f[0] == "is" and f[2] and f[1][0] is a and f[1][1] is not NONE:
                        return False
            if self.enum_member(a) and self.enum_member(b) and a is not b:
                # distinct members of one enum
                if a.a[0].rpartition(".")[0] == b.a[0].rpartition(".")[0]:
                    va = vb = None
                    try:
                        va, vb = self.p.const_of(a.a[0]), self.p.const_of(b.a[0])
                    except ValueError:
                        return False
                    return va == vb
            if kind == "eq" and (self.enum_member(b) or b.k == "const"):
                for f in st.facts:
                    if f[0] in ("eq", "is") and f[2] and f[1][0] is a and f[1][1] is not b and (self.enum_member(f[1][1]) or f[1][1].k == "const"):
                        o = f[1][1]
                        if b.k == o.k:
                            return False
        if kind == "truth":
            a = ts[0]
            if a.k == "call" and len(a.a[1]) == 2 and a.a[1][0].k == "const" and a.a[0].k == "ref" and a.a[0].a[0] == "builtins.isinstance":
                got = {CONST_TYPES[c.a[0]] if c.k == "ref" and c.a[0] in CONST_TYPES else () if c.k == "ref" and c.a[0] in self.p.classes else None for c in class_parts(a.a[1][1])}
                if got and None not in got:
                    return any(isinstance(a.a[1][0].a[0], ty) for ty in got if ty)
            if a.k == "call" and len(a.a[1]) == 2 and a.a[1][0].k == "excv" and a.a[0].k == "ref" and a.a[0].a[0] == "builtins.isinstance":
                got = {self.exc_is(a.a[1][0].a[0], c.a[0]) if c.k == "ref" else "maybe" for c in class_parts(a.a[1][1])}
                if "yes" in got:
                    return True
                if got == {"no"}:
                    return False
            if a.k == "call" and a.a[0].k == "ref" and a.a[0].a[0] == "builtins.isinstance" and len(a.a[1]) == 2 and a.a[1][0].k in ("tuple", "list", "dict", "const"):
                x = a.a[1][0]
                got = type(x.a[0]).__name__ if x.k == "const" else x.k
                cs = [c.a[0] if c.k == "ref" else None for c in class_parts(a.a[1][1])]
                if "builtins." + got in cs:
                    return True
                if all(c in ("builtins.tuple", "builtins.list", "builtins.dict", "builtins.str", "builtins.set", "builtins.float", "builtins.bytes") for c in cs):
                    return False
            if a.k == "ref":
                v = self.const_ref(a)
                if isinstance(v, (int, str, float)):
                    return bool(v)
            for f in st.facts:
                if f[0] == "is" and f[2] and f[1][0] is a and f[1][1] is NONE:
                    return False
                if f[0] in ("eq", "is") and f[2] and f[1][0] is a and f[1][1].k == "const":
                    return bool(f[1][1].a[0])
        if kind == "in":
            a, b = ts
            if b.k in ("tuple", "list", "set", "dict") and not b.a[0]:
                return False
            if a.k == b.k == "const" and isinstance(a.a[0], str) and isinstance(b.a[0], str):
                return a.a[0] in b.a[0]
            if a.k == "const" and b.k != "const":
                seq_ = self.const_seq(b) if b.k != "list" or not any(x[0] is b for x in st.heap) else None
                if seq_:
                    return a in seq_
        if kind in ("in", "truth") and getattr(self.c, "known_dicts", False):
            d = ts[-1]
            if d.k in ("dict", "newdict"):
                ks = [k for k, _ in self.written(d, st)]
                if all(k.k == "const" for k in ks) and (kind == "truth" or ts[0].k == "const"):
                    return bool(ks) if kind == "truth" else ts[0] in ks
        if kind == "lt":
            a, b = ts
            if a is b:
                return False
            if a.k == "const" and b.k == "const":
                try:
                    return a.a[0] < b.a[0]
                except TypeError:
                    return None
            if ("lt", (b, a), True) in st.facts:
                return False
        return None

    def cond_lit(self, kind, ts, st, node, fr):
        if kind == "eq" and ts[0].k == "const" and ts[1].k != "const":
            ts = (ts[1], ts[0])
        if kind == "eq" and ts[0].k == "ref" and ts[1].k != "ref":
            ts = (ts[1], ts[0])
        d = self.decided(kind, ts, st)
        if d is not None:
            return [(st, d)]
        out = []
        for val in (True, False):
            lit = (kind, ts, val)
            if neg(lit) in st.facts:
                continue
            s2 = st.know(lit)
            if kind == "lt" and val:
                pass
            s3 = self.c.assume(lit, s2, node, fr)
            if s3 is None:
                continue
            out.append((s3, val))
        return out

    # ================================================================= expressions
    def site(self, node, fr):
        return (fr.func.module.rel, getattr(node, "lineno", 0), getattr(node, "col_offset", 0))

    def eval(self, e, st, fr):
        """[(term, St)]"""
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.generic(e, st, fr)
        return m(e, st, fr)

    def generic(self, e, st, fr):
        sts = [st]
        for ch in ast.iter_child_nodes(e):
            if isinstance(ch, ast.expr):
                sts = [y for x in sts for _, y in self.eval(ch, x, fr)]
        return [(T("unk", type(e).__name__, self.site(e, fr)), x) for x in sts]

    def seq(self, es, st, fr):
        cur = [((), st)]
        for e in es:
            nxt = []
            for ts, x in cur:
                if isinstance(e, ast.Starred):
                    for t, y in self.eval(e.value, x, fr):
                        if t.k in ("tuple", "list") and not any(z.k == "rest" for z in t.a[0]):
                            nxt.append((ts + t.a[0], y))
                        else:
                            nxt.append((ts + (T("rest", t),), y))
                else:
                    for t, y in self.eval(e, x, fr):
                        nxt.append((ts + (t,), y))
            cur = self.squeeze(nxt)
        return cur

    def squeeze(self, pairs):
        """Bound the fan-out inside one expression: join (terms, state) pairs with equal typestate."""
        if len(pairs) <= 1:
            return pairs
        pairs = list(dict.fromkeys(pairs))
        if len(pairs) <= (1 if self.c.merge_by_ts else self.maxst):
            return pairs
        groups: dict = {}
        for ts, x in pairs:
            groups.setdefault((x.ts, len(ts)), []).append((ts, x))
        out = []
        for (_, n), g in groups.items():
            if len(g) == 1:
                out.append(g[0])
                continue
            st = self.merge([x for _, x in g])[0]
            out.append((tuple(self.phi({ts[i] for ts, _ in g}) for i in range(n)), st))
        return out

    def squeeze_kw(self, pairs):
        if len(pairs) <= (1 if self.c.merge_by_ts else self.maxst):
            return pairs
        groups: dict = {}
        for kv, x in dict.fromkeys(pairs):
            groups.setdefault((x.ts, tuple(k for k, _ in kv)), []).append((kv, x))
        out = []
        for (_, names), g in groups.items():
            if len(g) == 1:
                out.append(g[0])
                continue
            st = self.merge([x for _, x in g])[0]
            out.append((tuple((n, self.phi({kv[i][1] for kv, _ in g})) for i, n in enumerate(names)), st))
        return out

    def squeeze1(self, pairs):
        if len(pairs) <= 1:
            return pairs
        return [(ts[0], x) for ts, x in self.squeeze([((t,), x) for t, x in pairs])]

    def e_Constant(self, e, st, fr):
        return [(const(e.value), st)]

    def e_Name(self, e, st, fr):
        n = e.id
        if n in st.env:
            v = st.env[n]
            return [(v if isinstance(v, T) else T("unk", n), st)]
        return [(self.global_name(n, st, fr), st)]

    def global_name(self, n, st, fr):
        m = fr.func.module
        h = st.heap.get((T("mod", m.name), n))
        if h is not None:
            return h
        # closure variables not captured (entry analysed in isolation)
        if n not in m.classes and n not in m.functions and n not in m.assigns and n not in m.imports:
            if hasattr(builtins, n):
                return T("ref", "builtins." + n)
            f = fr.func
            while f is not None:
                q = f"{f.qual}.<locals>.{n}"
                if q in self.p.functions:
                    return T("ref", q)
                f = f.parent
            return T("p", n)
        return self.ref(self.p.resolve(m, n))

    def ref(self, q):
        q = self.p.canon(q)
        mn, _, nm = q.rpartition(".")
        m = self.p.modules.get(mn)
        if m is not None and nm in m.assigns and len(m.assigns[nm]) == 1 and not (nm.isupper() and ".events" in m.name):
            v = m.assigns[nm][0]
            if isinstance(v, ast.Constant) and (nm[:1] != "_" or nm.isupper() and v.value is not None):
                return const(v.value)
        return T("ref", q)

    def e_Attribute(self, e, st, fr):
        d = dotted(e)
        if d:
            head = d.split(".")[0]
            if head not in st.env:
                m = fr.func.module
                if head in m.imports or head in m.classes:
                    q = self.p.resolve(m, d)
                    base_q = q.rpartition(".")[0]
                    if head in m.imports or head in m.classes:
                        # module attribute, class attribute or enum member
                        if self.p.canon(m.imports.get(head, f"{m.name}.{head}")) not in self.p.functions and not self._is_instance_ref(m, head):
                            return [(T("ref", q), st)]
        out = []
        for b, x in self.eval(e.value, st, fr):
            out += self.attr(b, e.attr, x, fr, e)
        return out

    def _is_instance_ref(self, m, head):
        q = self.p.canon(m.imports.get(head, f"{m.name}.{head}"))
        mn, _, nm = q.rpartition(".")
        mm = self.p.modules.get(mn)
        return mm is not None and nm in mm.assigns

    def cls_of(self, t):
        if t.k == "self":
            return t.a[0]
        if t.k == "new" and t.a[0] in self.p.classes:
            return t.a[0]
        if t.k == "super":
            return None
        r = self.types.get(t)
        if r:
            return r
        return self.c.type_of(t)

    def attr(self, b, name, st, fr, node):
        v = st.heap.get((b, name))
        if v is not None:
            return [(v, st)]
        v = self.c.attr_value(b, name, st)
        if v is not None:
            return [(v, st)]
        if b.k == "ref":
            return [(self.ref(b.a[0] + "." + name), st)]
        if b.k == "phi":
            out = []
            for x in sorted(b.a[0], key=lambda z: z._h):
                out += self.attr(x, name, st, fr, node)
            return out
        if b.k == "super":
            f = self.p.method(b.a[1], name, after=b.a[0])
            if f is not None:
                return [(T("func", f.qual, b.a[2]), st)]
            return [(T("attr", b, name), st)]
        if b.k == "new" and not (b.a[0] in self.p.classes):
            return [(T("attr", b, name), st)]
        if b.k == "new":
            # field of a freshly constructed record
            for k, val in b.a[2]:
                if k == name:
                    c = self.p.classes[b.a[0]]
                    if "__init__" not in c.methods:
                        return [(val, st)]
        cq = self.cls_of(b)
        if cq:
            f = self.p.method(cq, name)
            if f is not None:
                if f.has_decorator("property", "cached_property"):
                    if len(fr.stack) < self.c.inline_depth and f.qual not in fr.stack and self.c.inline(f, None):
                        return self.inline_call(f, b, (), (), st, fr, node)
                    return [(T("attr", b, name), st)]
                return [(T("func", f.qual, b), st)]
        return [(T("attr", b, name), st)]

    def index(self, b, k, st):
        v = st.heap.get((b, ("[]", k)))
        if v is ABSENT:
            return T("idx", b, k)
        if v is not None:
            return v
        if b.k in ("tuple", "list") and k.k == "const" and isinstance(k.a[0], int) and not isinstance(k.a[0], bool):
            items = b.a[0]
            i = k.a[0]
            if not any(x.k == "rest" for x in items) and -len(items) <= i < len(items):
                return items[i]
        if b.k == "const" and isinstance(b.a[0], str) and k.k == "slice" and all(x.k == "const" for x in k.a[0]):
            try:
                return const(b.a[0][slice(*[x.a[0] for x in k.a[0]])])
            except (TypeError, ValueError):
                pass
        if b.k in ("tuple", "list") and k.k == "slice" and all(x.k == "const" for x in k.a[0]) and not any(x.k in ("rest", "star", "starred") for x in b.a[0]) and getattr(self.c, "known_dicts", False):
            return T(b.k, b.a[0][slice(*[x.a[0] for x in k.a[0]])])
        if b.k == "dict" and k.k == "const":
            for kk, vv in b.a[0]:
                if kk is k:
                    return vv
        if b.k == "phi":
            return self.phi({self.index(x, k, st) for x in b.a[0]})
        if k.k == "count" and k.a[0] is b:
            return self.elem(b)
        return T("idx", b, k)

    def e_Subscript(self, e, st, fr):
        out = []
        for b, x in self.eval(e.value, st, fr):
            for k, y in self.eval(e.slice, x, fr):
                f = getattr(self.c, "sub_read", None)
                y2 = f(b, k, y, e, fr) if f else y
                for z in (y2 if isinstance(y2, list) else [y2]):
                    if isinstance(z, tuple):    # (Exc, St)
                        fr.sink.append(z)
                        continue
                    got = self.index(b, k, z)
                    if got.k == "idx" and b.k == "tuple" and k.k == "const" and isinstance(k.a[0], int) and not any(x.k in ("rest", "star") for x in b.a[0]):
                        fr.sink.append((Exc("builtins.IndexError", self.site(e, fr)), z))
                        continue
                    pairs = self.dict_pairs(b, z) if got.k == "idx" else None
                    if pairs is not None:
                        out += self.dict_lookup(pairs, k, None, z, e, fr)
                        continue
                    out.append((got, z))
        return out

    def written(self, t, st):
        """entries of a dictionary display, with what was stored in it since"""
        ps = dict(t.a[0]) if t.k == "dict" else {}
        for (b, n), v in st.heap.items():
            if b is t and isinstance(n, tuple) and len(n) == 2 and n[0] == "[]":
                ps[n[1]] = v
        return [(k, v) for k, v in ps.items() if v is not ABSENT]

    def dict_copy(self, d, kw, e, st, fr):
        ps = self.written(d, st)
        t = T("newdict", self.site(e, fr))
        st = self.kill(st, t)
        for k, v in ps + [(const(k), v) for k, v in kw]:
            st = self.heap_write(t, ("[]", k), v, st)
        return t, st

    def dict_pairs(self, t, st):
        """entries of a literal dictionary (or of a module-level constant one) with constant or named keys"""
        if t.k == "dict":
            if any(x[0] is t for x in st.heap) or not t.a[0] or len(t.a[0]) > 16:
                return None
            return t.a[0] if all(k.k in ("const", "ref") for k, _ in t.a[0]) else None
        if t.k != "ref" or not t.a[0].split(".")[-1].isupper():
            return None
        got = self._dict_refs.get(t, ())
        if got == ():
            got = None
            mn, _, nm = t.a[0].rpartition(".")
            m = self.p.modules.get(mn)
            vals = m.assigns.get(nm, []) if m else []
            if len(vals) == 1 and isinstance(vals[0], ast.Dict) and 0 < len(vals[0].keys) <= 16:
                out = []
                for k, v in zip(vals[0].keys, vals[0].values):
                    kt, vt = [const(x.value) if isinstance(x, ast.Constant) else self.ref(self.p.resolve(m, dotted(x))) if x is not None and dotted(x) else None for x in (k, v)]
                    if kt is None or vt is None:
                        break
                    out.append((kt, vt))
                else:
                    got = tuple(out)
            self._dict_refs[t] = got
        return got

    def dict_lookup(self, pairs, key, default, st, node, fr):
        cur, out = [st], []
        for k, v in pairs:
            nxt = []
            for x in cur:
                for y, ok in self.compare("==", key, k, x, node, fr):
                    if ok:
                        out.append((v, y))
                    else:
                        nxt.append(y)
            cur = nxt
        for x in cur:
            if default is None:
                fr.sink.append((Exc("builtins.KeyError", self.site(node, fr)), x))
            else:
                out.append((default, x))
        return out

    def e_Slice(self, e, st, fr):
        parts = [p if p is not None else ast.Constant(None) for p in (e.lower, e.upper, e.step)]
        return [(T("slice", ts), x) for ts, x in self.seq(parts, st, fr)]

    def e_Tuple(self, e, st, fr):
        return [(T("tuple", ts), x) for ts, x in self.seq(e.elts, st, fr)]

    def e_List(self, e, st, fr):
        if not e.elts:
            t = T("newlist", self.site(e, fr))
            return [(t, self.mutated(st, t) if st.facts else st)]
        return [(T("list", ts), x) for ts, x in self.seq(e.elts, st, fr)]

    def e_Set(self, e, st, fr):
        return [(T("set", ts), x) for ts, x in self.seq(e.elts, st, fr)]

    def e_Dict(self, e, st, fr):
        out = []
        if not e.keys:
            t = T("newdict", self.site(e, fr))
            if getattr(self.c, "known_dicts", False):   # displays evaluated again are told apart
                for n in range(1, 8):
                    if not any(b is t or v is t for (b, _), v in st.heap.items()):
                        break
                    t = T("newdict", self.site(e, fr) + (n,))
            st = self.kill(st, t)
            return [(t, self.c.on_dict([], st, e, fr))]
        ks = [k if k is not None else ast.Constant("**") for k in e.keys]
        for kts, x in self.seq(ks, st, fr):
            for vts, y in self.seq(e.values, x, fr):
                pairs = []
                for kn, k, v in zip(e.keys, kts, vts):
                    if kn is None:
                        if v.k in ("dict", "newdict"):
                            new = [(k2 if k2.k != "unk" else T("starstar"), v2) for k2, v2 in self.written(v, y)]
                            pairs = [p for p in pairs if p[0].k != "const" or all(p[0] is not k2 for k2, _ in new)] + new
                        else:
                            pairs.append((T("starstar"), v))
                    else:
                        pairs = [p for p in pairs if p[0] is not k] + [(k, v)]
                t = T("dict", tuple(pairs))
                if any(b is t for b, _ in y.heap):
                    y = self.kill(y, t)
                out.append((t, self.c.on_dict(pairs, y, e, fr)))
        return out

    def e_JoinedStr(self, e, st, fr):
        cur = [((), st)]
        for v in e.values:
            nxt = []
            for ts, x in cur:
                if isinstance(v, ast.FormattedValue):
                    for t, y in self.eval(v.value, x, fr):
                        nxt.append((ts + (t,), y))
                else:
                    nxt.append((ts + (const(v.value),), x))
            cur = nxt
        return [(T("fstr", ts), self.c.on_fstr(T("fstr", ts), x, e, fr)) for ts, x in cur]

    def e_BinOp(self, e, st, fr):
        out = []
        for a, x in self.eval(e.left, st, fr):
            for b, y in self.eval(e.right, x, fr):
                out.append((self.binop(type(e.op).__name__, a, b), y))
        return out

    def binop(self, op, a, b):
        if a.k == "const" and b.k == "const":
            try:
                import operator as o
                f = {"Add": o.add, "Sub": o.sub, "Mult": o.mul, "BitOr": o.or_, "BitAnd": o.and_}.get(op)
                if f:
                    return const(f(a.a[0], b.a[0]))
            except Exception:
                pass
        if op == "Add" and a.k in ("tuple", "list") and b.k in ("tuple", "list"):
            return T(a.k, a.a[0] + b.a[0])
        t = T("op", op, a, b)
        if t.depth > self.max_depth:
            return T("unk", "depth")
        return t

    def e_UnaryOp(self, e, st, fr):
        out = []
        for a, x in self.eval(e.operand, st, fr):
            if isinstance(e.op, ast.Not):
                if a.k == "const":
                    out.append((const(not a.a[0]), x))
                elif a.k == "not":
                    out.append((a, x) if False else (T("not", a), x))
                else:
                    out.append((T("not", a), x))
            elif isinstance(e.op, ast.USub) and a.k == "const" and isinstance(a.a[0], (int, float)):
                out.append((const(-a.a[0]), x))
            else:
                out.append((T("op1", type(e.op).__name__, a), x))
        return out

    def e_BoolOp(self, e, st, fr):
        # value semantics: forks
        is_and = isinstance(e.op, ast.And)
        cur = [st]
        out = []
        for i, v in enumerate(e.values):
            last = i == len(e.values) - 1
            nxt = []
            for x in cur:
                for t, y in self.eval(v, x, fr):
                    if last:
                        out.append((t, y))
                    else:
                        for z, ok in self.truth(t, y, v, fr):
                            if ok == is_and:
                                nxt.append(z)
                            else:
                                tt = t
                                if t.k in ("cmp", "not", "and", "or"):
                                    tt = TRUE if ok else FALSE
                                out.append((tt, z))
            cur = list(dict.fromkeys(nxt))
        return self.squeeze1(out)

    def e_Compare(self, e, st, fr):
        ops = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
               ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
        out = []
        for ts, x in self.seq([e.left] + list(e.comparators), st, fr):
            cmps = tuple(T("cmp", ops[type(op)], ts[i], ts[i + 1]) for i, op in enumerate(e.ops))
            if len(cmps) == 1 and getattr(self.c, "known_dicts", False) and cmps[0].a[0] in ("in", "not in"):
                d = self.decided("in", cmps[0].a[1:], x)
                if d is not None:
                    out.append((const(d == (cmps[0].a[0] == "in")), x))
                    continue
            out.append((cmps[0] if len(cmps) == 1 else T("and", cmps), x))
        return out

    def e_IfExp(self, e, st, fr):
        out = []
        for x, ok in self.cond(e.test, st, fr):
            out += self.eval(e.body if ok else e.orelse, x, fr)
        return self.squeeze1(out)

    def e_NamedExpr(self, e, st, fr):
        return [(t, x.bind(e.target.id, t)) for t, x in self.eval(e.value, st, fr)]

    def e_Lambda(self, e, st, fr):
        return [(self.closure(e, st, fr), st)]

    def e_Await(self, e, st, fr):
        out = []
        for t, x in self.eval(e.value, st, fr):
            if t.k == "coro":
                f = self.p.functions.get(t.a[0]) or self.closures.get(t.a[1], (None,))[0]
                fn, recv = self.target(t.a[1])
                if fn is not None:
                    out += self.inline_call(fn, recv, t.a[2], t.a[3], x, fr, e, closure=t.a[1] if t.a[1].k == "closure" else None)
                    continue
            h = getattr(self.c, "awaited", None)
            if h:
                r = h(t, x, e, fr)
                if r is not None:
                    for kind, val, y in r:
                        if kind == "ok":
                            out.append((val, y))
                        else:
                            fr.sink.append((Exc(val, self.site(e, fr)), y))
                    continue
            out.append((t, x))
        return out

    def e_Yield(self, e, st, fr):
        out = []
        pairs = self.eval(e.value, st, fr) if e.value is not None else [(NONE, st)]
        for t, x in pairs:
            x = self.c.at_yield(t, x, e, fr)
            if fr.yield_hook is not None:
                for y in fr.yield_hook(t, x):
                    out.append((NONE, y))
            else:
                for cls in getattr(self.c, "yield_raises", ()):
                    fr.sink.append((Exc(cls, self.site(e, fr)), x))
                out.append((T("sent", self.site(e, fr)), x))
        return out

    def e_YieldFrom(self, e, st, fr):
        return [(T("unk", "yieldfrom", self.site(e, fr)), x) for _, x in self.eval(e.value, st, fr)]

    def e_Starred(self, e, st, fr):
        return [(T("rest", t), x) for t, x in self.eval(e.value, st, fr)]

    def _comp(self, e, st, fr, elts):
        """Comprehension as a loop. Returns [(tuple of elt terms or None, St)] at exit."""
        saved = st.env

        def gen(i, sts):
            if i == len(e.generators):
                out = []
                for x in sts:
                    for ts, y in self.seq(elts, x, fr):
                        out.append((ts, self.c.on_elt(ts, y, e, fr)))
                return out
            g = e.generators[i]
            res = []
            for x in sts:
                for it, y in self.eval(g.iter, x, fr):
                    elem = self.elem(it)
                    ys = self.c.on_loop("iter", it, y, e, fr)
                    for y0 in (ys if isinstance(ys, list) else [ys]):
                        y0 = self.kill(y0, elem)
                        cur = self.assign(g.target, elem, y0, fr, e)
                        for c in g.ifs:
                            nxt = []
                            for a in cur:
                                for b, ok in self.cond(c, a, fr):
                                    if ok:
                                        nxt.append(b)
                                    else:
                                        self.c.on_skip(it, b, e, fr)
                            cur = nxt
                        for ts, z in gen(i + 1, cur):
                            zs = self.c.on_loop("exit", it, z, e, fr)
                            res += [(ts, w) for w in (zs if isinstance(zs, list) else [zs])]
            return res
        first = []
        # zero-iteration path evaluates only the first iterable
        for it, y in self.eval(e.generators[0].iter, st, fr):
            first.append((it, y))
        got = gen(0, [st])
        return first, got

    def comp(self, e, st, fr, elts, kind):
        r = self.unrolled(e, st, fr, kind)
        if r is not None:
            return r
        first, got = self._comp(e, st, fr, elts)
        out = []
        ets = tuple(dict.fromkeys(ts for ts, _ in got))
        its = tuple(dict.fromkeys(t for t, _ in first))
        conds = tuple(ast.dump(c) for g in e.generators for c in g.ifs)
        t = T("comp", kind, ets, its, conds)
        if t.depth > self.max_depth:
            t = T("unk", "comp", self.site(e, fr))
        # a loop over the element effects: 0 iterations, or >=1
        for _, y in first:
            out.append((t, y.w(env=st.env)))
        for _, y in got:
            z = y.w(env=st.env)
            out.append((t, z.w(facts=st.facts & z.facts) if z.facts else z))
        return list(dict.fromkeys(out))

    def const_seq(self, t):
        """elements of a display of constants, or of a module-level one"""
        if t.k in ("tuple", "list"):
            return t.a[0] if t.a[0] and all(x.k == "const" for x in t.a[0]) else None
        if t.k == "ref" and t.a[0].split(".")[-1].isupper():
            mn, _, nm = t.a[0].rpartition(".")
            m = self.p.modules.get(mn)
            vals = m.assigns.get(nm, []) if m else []
            if len(vals) == 1 and isinstance(vals[0], (ast.Tuple, ast.List)) and 0 < len(vals[0].elts) <= 32 and all(isinstance(x, ast.Constant) for x in vals[0].elts):
                return tuple(const(x.value) for x in vals[0].elts)
        return None

    def item_seq(self, t, st):
        """the items of a dictionary all of whose keys are known constants"""
        if t.k not in ("dict", "newdict"):
            return None
        ps = self.written(t, st)
        if not 0 < len(ps) <= 32 or any(k.k != "const" for k, _ in ps):
            return None
        return tuple(T("tuple", kv) for kv in ps)

    def unrolled(self, e, st, fr, kind):
        """a comprehension over a display of constants with constant elements (keys) is that display"""
        it = e.generators[0].iter
        if len(e.generators) != 1:
            return None
        pairs = kind == "dict" or isinstance(getattr(e, "elt", None), ast.Tuple) and len(e.elt.elts) == 2
        if pairs and isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == "items" and not it.args and not it.keywords:
            its = self.eval(it.func.value, st, fr)
            elems = self.item_seq(*its[0]) if len(its) == 1 else None
        elif isinstance(it, (ast.Tuple, ast.List)) or isinstance(it, (ast.Name, ast.Attribute)) and (dotted(it) or "").split(".")[-1].isupper():
            its = self.eval(it, st, fr)
            elems = self.const_seq(its[0][0]) if len(its) == 1 else None
        elif not getattr(self.c, "known_seqs", None):
            return None
        else:
            its = self.eval(it, st, fr)
            elems = None
        known = False
        if elems is None and len(its) == 1 and its[0][0] in getattr(self.c, "known_seqs", ()):
            elems, known = its[0][0].a[0], True     # a client's finite model of a sequence
        elif elems is None and len(its) == 1 and getattr(self.c, "known_seqs", None) and its[0][0].k in ("list", "tuple") and not any(x.k == "rest" for x in its[0][0].a[0]) \
                and not any(b is its[0][0] for b, _ in its[0][1].heap):
            elems, known = its[0][0].a[0], True
        if elems is None:
            return None
        out, x = [], its[0][1]
        for v in elems:
            ys = self.assign(e.generators[0].target, v, x, fr, e)
            for c in e.generators[0].ifs:
                ys = self.cond(c, ys[0], fr) if len(ys) == 1 else []
                if len(ys) != 1:
                    return None
                if not ys[0][1]:
                    ys = None
                    break
                ys = [ys[0][0]]
            if ys is None:
                continue
            if kind == "dict":
                got = self.seq([e.key, e.value], ys[0], fr) if len(ys) == 1 else []
                got = [(T("pair", ts), y) for ts, y in got]
            else:
                got = self.eval(e.elt, ys[0], fr) if len(ys) == 1 else []
            if len(got) != 1 or not (known and kind != "dict") and (got[0][0].a[0][0] if kind == "dict" or pairs and got[0][0].k == "tuple" else got[0][0]).k != "const":
                return None
            out.append(got[0][0].a[0] if kind == "dict" else got[0][0])
            x = got[0][1]
        x = x.w(env=st.env)
        if kind == "dict":
            t = T("dict", tuple(dict(out).items()))
            return [(t, self.kill(x, t) if any(b is t for b, _ in x.heap) else x)]
        return [(T("set" if kind == "set" else "list", tuple(out)), x)]

    def e_ListComp(self, e, st, fr):
        return self.comp(e, st, fr, [e.elt], "list")

    def e_SetComp(self, e, st, fr):
        return self.comp(e, st, fr, [e.elt], "set")

    def e_GeneratorExp(self, e, st, fr):
        return self.comp(e, st, fr, [e.elt], "gen")

    def e_DictComp(self, e, st, fr):
        return self.comp(e, st, fr, [e.key, e.value], "dict")

    # ---------------------------------------------------------------- calls
    def eval_callee(self, f, st, fr):
        if isinstance(f, ast.Name) and f.id == "super" and "super" not in st.env:
            return [(T("ref", "builtins.super"), st)]
        if isinstance(f, ast.Attribute):
            # method on a receiver: evaluate receiver, keep the access path
            return self.e_Attribute(f, st, fr)
        return self.eval(f, st, fr)

    def target(self, fterm):
        """(Func, receiver term) of an inlinable callee or (None, None)."""
        if fterm.k == "func":
            f = self.p.functions.get(fterm.a[0])
            if f is not None:
                if f.has_decorator("staticmethod"):
                    return f, None
                return f, fterm.a[1]
        if fterm.k == "ref":
            f = self.p.functions.get(fterm.a[0])
            if f is not None:
                if f.cls is not None and f.parent is None and f.has_decorator("classmethod"):
                    return f, T("ref", f.cls.qual)
                return f, None
        if fterm.k == "closure":
            node, env, pf = self.closures[fterm]
            f = self.p.by_node.get(id(node))
            return f, None
        return None, None

    def eval_args(self, e, st, fr):
        out = []
        for ts, x in self.seq(e.args, st, fr):
            cur = [((), x)]
            star = False
            for k in e.keywords:
                nxt = []
                for kv, y in cur:
                    for t, z in self.eval(k.value, y, fr):
                        if k.arg is None:
                            ps = self.written(t, z) if t.k in ("dict", "newdict") else None
                            if ps is not None and all(kk.k == "const" for kk, _ in ps):
                                nxt.append((kv + tuple((kk.a[0], vv) for kk, vv in ps), z))
                            else:
                                nxt.append((kv + (("**", t),), z))
                        else:
                            nxt.append((kv + ((k.arg, t),), z))
                cur = self.squeeze_kw(nxt)
            for kv, y in cur:
                out.append(((ts, kv, star), y))
        return out

    def e_Call(self, e, st, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in st.env:
            return self._super(e, st, fr)
        out = []
        for ft, x in self.eval_callee(e.func, st, fr):
            for (args, kw, star), y in self.eval_args(e, x, fr):
                out += self.apply(ft, args, kw, e, y, fr)
        return self.squeeze1(out)

    def _super(self, e, st, fr):
        f = fr.func
        while f.parent is not None:
            f = f.parent
        selfname = None
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        selfname = names[0] if names else "self"
        selft = st.env.get(selfname) or st.env.get("$self") or T("self", f.cls.qual if f.cls else None)
        cq = f.cls.qual if f.cls else None
        if e.args:
            d = dotted(e.args[0])
            if d:
                cq = self.p.resolve(fr.func.module, d)
        scls = self.cls_of(selft) or (selft.a[0] if selft.k == "ref" else None) or cq
        return [(T("super", cq, scls, selft), st)]

    def apply(self, ft, args, kw, e, st, fr):
        if ft.k == "phi":
            out = []
            for x in sorted(ft.a[0], key=lambda z: z._h):
                out += self.apply(x, args, kw, e, st, fr)
            return out
        if ft.k == "ref":
            q = ft.a[0]
            if q in IDENT and len(args) > IDENT[q]:
                return [(args[IDENT[q]], st)]
            if q == "builtins.getattr" and len(args) >= 2 and args[1].k == "const" and isinstance(args[1].a[0], str):
                cq = self.cls_of(args[0])
                if len(args) == 2 or (args[0], args[1].a[0]) in st.heap or cq:
                    return self.attr(args[0], args[1].a[0], st, fr, e)
                return [(T("attr", args[0], args[1].a[0]), st)]
            if q == "builtins.setattr" and len(args) == 3 and args[1].k == "const":
                r = self.c.attr_write(args[0], args[1].a[0], args[2], st, e, fr)
                return [(NONE, self.heap_write(args[0], args[1].a[0], args[2], s2)) for s2 in (r if isinstance(r, list) else [r])]
            if q == "functools.partial" and args:
                return [(T("partial", args[0], args[1:], kw), st)]
            if q in ("builtins.bool", "builtins.len", "builtins.str") and len(args) == 1 and not kw and args[0].k == "const":
                try:
                    return [(const({"bool": bool, "len": len, "str": str}[q[9:]](args[0].a[0])), st)]
                except TypeError:
                    pass
            if q == "builtins.len" and len(args) == 1 and (args[0].k == "tuple" or args[0].k == "list" and not any(b is args[0] and k == ("[]", T("unk", "key")) for b, k in st.heap)) and not any(x.k in ("rest", "star", "starred") for x in args[0].a[0]):
                return [(const(len(args[0].a[0])), st)]
            if q in ("builtins.sum", "builtins.any", "builtins.all") and len(args) == 1 and not kw and args[0].k in ("list", "tuple") and all(x.k == "const" for x in args[0].a[0]):
                try:
                    return [(const({"sum": sum, "any": any, "all": all}[q[9:]](x.a[0] for x in args[0].a[0])), st)]
                except TypeError:
                    pass
            if q == "builtins.enumerate" and len(args) == 1 and not kw and args[0].k in ("list", "tuple") and not any(x.k == "rest" for x in args[0].a[0]):
                return [(T("tuple", tuple(T("tuple", (const(i), x)) for i, x in enumerate(args[0].a[0]))), st)]
            if q in ("builtins.list", "builtins.tuple") and len(args) == 1 and args[0].k in ("list", "tuple"):
                return [(T(q.split(".")[1], args[0].a[0]), st)]
            if q == "builtins.dict" and not args and all(k != "**" for k, _ in kw):
                return [(T("dict", tuple((const(k), v) for k, v in kw)), st)] if kw else [(T("newdict", self.site(e, fr)), st)]
            if q == "builtins.map" and len(args) == 2 and not kw and self.target(args[0])[0] is not None:
                el = self.elem(args[1])
                got = self.apply(args[0], (el,), (), e, self.kill(st, el), fr)
                t = T("comp", "gen", tuple(dict.fromkeys((v,) for v, _ in got)), (args[1],), ())
                if t.depth > self.max_depth:
                    t = T("unk", "comp", self.site(e, fr))
                return list(dict.fromkeys([(t, st)] + [(t, x.w(facts=st.facts & x.facts) if x.facts else x) for _, x in got]))
            if q == "builtins.filter" and len(args) == 2 and not kw and self.target(args[0])[0] is not None:
                el = self.elem(args[1])
                t = T("comp", "gen", ((el,),), (args[1],), ("filter",))
                out = [(t, st)]
                for v, x in self.apply(args[0], (el,), (), e, self.kill(st, el), fr):
                    for y, ok in self.truth(v, x, e, fr):
                        if ok:
                            y = self.c.on_elt((el,), y, e, fr)
                            out.append((t, y.w(facts=st.facts & y.facts)))
                        else:
                            self.c.on_skip(args[1], y, e, fr)
                return list(dict.fromkeys(out))
            if q == "builtins.dict" and len(args) == 1 and args[0].k in ("dict", "newdict") and all(k != "**" for k, _ in kw):
                return [self.dict_copy(args[0], kw, e, st, fr)]
            if q == "builtins.dict" and len(args) == 1 and not kw and args[0].k in ("list", "tuple") and args[0].a[0] and all(x.k == "tuple" and len(x.a[0]) == 2 and x.a[0][0].k == "const" for x in args[0].a[0]):
                t = T("dict", tuple(dict(x.a[0] for x in args[0].a[0]).items()))
                return [(t, self.kill(st, t) if any(b is t for b, _ in st.heap) else st)]
            if q == "builtins.list" and not args and not kw:
                t = T("newlist", self.site(e, fr))
                return [(t, self.mutated(st, t) if st.facts else st)]
        if ft.k == "partial":
            return self.apply(ft.a[0], ft.a[1] + args, ft.a[2] + kw, e, st, fr)
        # client override first
        c = self.mkcall(ft, args, kw, e, st, fr)
        if ft.k == "attr" and ft.a[1] in MUTATING and st.facts:
            st = self.mutated(st, ft.a[0])
        if ft.k == "attr" and ft.a[1] == "append" and len(args) == 1 and ft.a[0].k in ("newlist", "idx"):
            st = St(st.env, st.heap, st.facts | {("truth", (ft.a[0],), True)}, st.ts)
        r = self.c.call(c, st)
        if r is not None:
            out = []
            for kind, val, y in r:
                if kind == "ok":
                    out.append((val, y))
                else:
                    fr.sink.append((val if isinstance(val, Exc) else Exc(val, self.site(e, fr)), y))
            return out
        if (ft.k == "attr" and ft.a[1] == "get" or ft.k == "ref" and ft.a[0].endswith(".get")) and 1 <= len(args) <= 2 and not kw:
            pairs = self.dict_pairs(ft.a[0] if ft.k == "attr" else T("ref", ft.a[0][:-4]), st)
            if pairs is not None:
                return self.dict_lookup(pairs, args[0], args[1] if len(args) > 1 else NONE, st, e, fr)
        if ft.k == "ref" and ft.a[0] == "builtins.len" and len(args) == 1 and args[0].k in ("dict", "newdict") and getattr(self.c, "known_dicts", False):
            ks = [k for k, _ in self.written(args[0], st)]
            if all(k.k == "const" for k in ks):
                return [(const(len(ks)), st)]
        if ft.k == "attr" and ft.a[1] == "pop" and (ft.a[0].k == "dict" or ft.a[0].k == "newdict" and getattr(self.c, "known_dicts", False)) and args and args[0].k == "const" and not kw:
            ps = dict(self.written(ft.a[0], st))
            if all(k.k == "const" for k in ps):
                if args[0] in ps and ps[args[0]].k != "phi":
                    return [(ps[args[0]], self.heap_write(ft.a[0], ("[]", args[0]), ABSENT, st))]
                if args[0] not in ps and len(args) > 1:
                    return [(args[1], st)]
        if ft.k == "attr" and ft.a[1] == "setdefault" and ft.a[0].k in ("dict", "newdict") and args and args[0].k == "const" and not kw:
            ps = dict(self.written(ft.a[0], st))
            if all(k.k == "const" for k in ps):
                if args[0] in ps:
                    return [(ps[args[0]], st)]
                v = args[1] if len(args) > 1 else NONE
                return [(v, self.heap_write(ft.a[0], ("[]", args[0]), v, st))]
        if ft.k == "attr" and ft.a[1] in STR_METHODS and ft.a[0].k == "const" and isinstance(ft.a[0].a[0], str) and not kw and all(a.k == "const" for a in args):
            try:
                return [(lifted(getattr(ft.a[0].a[0], ft.a[1])(*[a.a[0] for a in args])), st)]
            except (TypeError, ValueError):
                pass
        if len(args) == 1 and not kw and args[0].k == "const":
            at = ft.a[0] if ft.k == "attr" and ft.a[1] == "index" else T("ref", ft.a[0].rpartition(".")[0]) if ft.k == "ref" and ft.a[0].endswith(".index") else None
            seq_ = self.const_seq(at) if at is not None else None
            if seq_:
                if args[0] in seq_:
                    return [(const(seq_.index(args[0])), st)]
                fr.sink.append((Exc("builtins.ValueError", self.site(e, fr)), st))
                return []
        f, recv = self.target(ft)
        if f is not None and len(fr.stack) < self.c.inline_depth and fr.stack.count(f.qual) == 0 and self.c.inline(f, c):
            if f.has_decorator("contextmanager", "asynccontextmanager") and f.is_generator:
                return [(T("cm", f.qual, args), st)]
            if f.is_generator:
                return [(T("gen", f.qual, args), st)]
            if f.is_async:
                t = T("coro", f.qual, ft, args, kw)
                return [(t, st)]
            return self.inline_call(f, recv, args, kw, st, fr, e, closure=ft if ft.k == "closure" else None)
        return self.opaque(c, ft, args, kw, e, st, fr)

    def mkcall(self, ft, args, kw, e, st, fr):
        c = Call()
        c.fn, c.args, c.kw, c.node, c.module, c.func, c.st = ft, args, kw, e, fr.func.module, fr.func, st
        c.interp, c.stack = self, fr.stack
        if ft.k == "attr":
            c.name, c.recv = ft.a[1], ft.a[0]
        elif ft.k == "ref":
            c.name, c.recv = ft.a[0].split(".")[-1], None
        elif ft.k == "func":
            c.name, c.recv = ft.a[0].split(".")[-1], ft.a[1]
        else:
            c.name, c.recv = None, None
        return c

    def opaque(self, c, ft, args, kw, e, st, fr):
        self.opaque_calls += 1
        for cls in self.c.raises(c):
            fr.sink.append((Exc(cls, self.site(e, fr)), st))
        if ft.k == "ref" and (ft.a[0] in self.p.classes or self._looks_class(ft.a[0])):
            t = T("new", ft.a[0], args, kw, self.site(e, fr))
        elif (ft.k == "ref" and ft.a[0] in PURE) or (ft.k == "attr" and ft.a[1] in PURE_METHODS):
            if ft.k == "ref" and ft.a[0] in ("builtins.min", "builtins.max") and not getattr(self.c, "exact_minmax", False):
                args = tuple(self.flat_minmax(ft, a, 0) for a in args)
            t = T("call", ft, args, kw)
        else:
            t = T("call", ft, args, kw, self.site(e, fr))
            st = self.kill(st, t)
            if ft.k == "attr" and ft.a[1] == "update" and ft.a[0].k in ("dict", "newdict") and len(args) <= 1:
                items = [(const(k), v) for k, v in kw if k != "**"]
                if args and args[0].k in ("dict", "newdict"):
                    items = self.written(args[0], st) + items
                for k, v in items:
                    st = self.heap_write(ft.a[0], ("[]", k), v, st)
                if args and args[0].k not in ("dict", "newdict") or any(k == "**" for k, _ in kw):
                    st = self.heap_write(ft.a[0], ("[]", T("unk", "key")), args[0] if args else t, st)
            elif ft.k == "attr" and ft.a[1] in MUTATING and ft.a[0].k in ("dict", "newdict", "list"):
                st = self.heap_write(ft.a[0], ("[]", T("unk", "key")), t, st)
        if t.depth > self.max_depth:
            t = T("unk", "call", self.site(e, fr))
        return [(t, st)]

    def flat_minmax(self, ft, t, depth):
        """nested min/max arguments are replaced by their alternatives, so that loops converge"""
        if depth > 4:
            return t
        if t.k == "phi":
            return self.phi([self.flat_minmax(ft, x, depth + 1) for x in t.a[0]])
        if t.k == "call" and t.a[0] is ft and t.a[1]:
            return self.phi([self.flat_minmax(ft, x, depth + 1) for x in t.a[1]])
        return t

    def _looks_class(self, q):
        n = q.split(".")[-1]
        if q.startswith("builtins."):
            c = getattr(builtins, n, None)
            return isinstance(c, type) and issubclass(c, BaseException)
        return n[:1].isupper() and not n.isupper() and any(ch.islower() for ch in n)

    def bind_args(self, f, recv, args, kw, st, fr, closure=None):
        a = f.node.args
        env = Env()
        if closure is not None:
            env = Env(self.closures[closure][1])
        elif f.parent is not None:
            # nested function reached by name without a recorded closure: share the caller frame if it is the parent
            if fr.func is f.parent:
                env = Env({k: v for k, v in st.env.items() if isinstance(v, T)})
        pos = [x.arg for x in a.posonlyargs + a.args]
        vals = list(args)
        if recv is not None and f.parent is None and pos:
            vals = [recv] + vals
        defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        kwd = {k: v for k, v in kw if k != "**"}
        star_kw = any(k == "**" for k, _ in kw)
        extra = []
        i = 0
        unknown_rest = None
        for v in vals:
            if v.k == "rest":
                unknown_rest = v
                break
            if i < len(pos):
                env[pos[i]] = v
                i += 1
            else:
                extra.append(v)
        for n in pos[i:]:
            if n in kwd:
                env[n] = kwd.pop(n)
            elif unknown_rest is not None or star_kw:
                env[n] = T("unk", "arg", n, f.qual)
            elif n in defaults:
                env[n] = self.default(defaults[n], f)
            else:
                env[n] = T("unk", "arg", n, f.qual)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            n = x.arg
            if n in kwd:
                env[n] = kwd.pop(n)
            elif star_kw:
                env[n] = T("unk", "arg", n, f.qual)
            elif d is not None:
                env[n] = self.default(d, f)
            else:
                env[n] = T("unk", "arg", n, f.qual)
        if a.vararg:
            if unknown_rest is not None:
                extra.append(unknown_rest)
            env[a.vararg.arg] = T("tuple", tuple(extra))
        if a.kwarg:
            pairs = tuple((const(k), v) for k, v in kwd.items()) + tuple((T("starstar"), v) for k, v in kw if k == "**")
            env[a.kwarg.arg] = T("dict", pairs)
        return st.w(env=env)

    def default(self, node, f):
        if isinstance(node, ast.Constant):
            return const(node.value)
        d = dotted(node)
        if d:
            return self.ref(self.p.resolve(f.module, d))
        return T("unk", "default", f.qual)

    def inline_call(self, f, recv, args, kw, st, fr, node, closure=None):
        self.inlined.add(f.qual)
        self.visited_funcs.add(f.qual)
        caller_env = st.env
        cst = self.bind_args(f, recv, args, kw, st, fr, closure)
        cfr = Frame(f, fr.stack + (f.qual,))
        out = []
        for kind, payload, x in self._run_body(f, cst, cfr):
            y = x.w(env=caller_env)
            if kind == "return":
                out.append((payload, y))
            else:
                fr.sink.append((payload, y))
        return self.merge_ret(out)


def class_parts(t):
    """the classes of the second argument of isinstance"""
    if t.k in ("tuple", "list", "set"):
        return [y for x in t.a[0] for y in class_parts(x)]
    if t.k == "op" and t.a[0] == "BitOr":
        return class_parts(t.a[1]) + class_parts(t.a[2])
    return [t]


EXTRA_EXC = {
    "concurrent.futures.process.BrokenProcessPool": "builtins.RuntimeError",
    "concurrent.futures.CancelledError": "builtins.Exception",
    "asyncio.CancelledError": "builtins.BaseException",
    "json.JSONDecodeError": "builtins.ValueError",
    "json.decoder.JSONDecodeError": "builtins.ValueError",
    "binascii.Error": "builtins.ValueError",
    "pydantic.ValidationError": "builtins.ValueError",
    "urllib.error.URLError": "builtins.OSError",
    "urllib.error.HTTPError": "urllib.error.URLError",
    "http.client.HTTPException": "builtins.Exception",
}
