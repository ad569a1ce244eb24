"""A typestate client that records labelled events along every analysed path.

The abstract typestate is (locks held, capped sequence of labels).  Which calls and writes are
events is given by a table; only functions from which an event is reachable (or that are small and
straight-line, e.g. an extracted predicate) are analysed inline, everything else is one opaque step.
"""
from __future__ import annotations

import ast

from .interp import Client, Exc, Interp
from .project import Func, dotted
from .terms import NONE, T, const, show

MUTATORS = {"append", "appendleft", "add", "clear", "pop", "popitem", "popleft", "remove", "discard", "extend", "insert",
            "update", "setdefault", "sort", "reverse", "rotate", "extendleft", "__setitem__", "__delitem__",
            "difference_update", "intersection_update", "symmetric_difference_update"}

LOCK_CTORS = {"threading.Lock", "threading.RLock", "threading.Condition", "threading.Semaphore", "asyncio.Lock"}


class E:
    """Event declaration: calls by (method/function) name, optional predicate, declared exceptions."""
    def __init__(self, label, names, when=None, raises=(), quals=None, ret=None, split=False):
        self.label, self.names, self.when, self.raises = label, frozenset([names] if isinstance(names, str) else names), when, raises if callable(raises) else tuple(raises)
        self.split = split  # the failed label carries the exception's name
        self.ret = ret      # callable(call, st) -> list of terms (several: the call forks)


class W:
    """Event declaration for attribute writes (also augmented) `x.attr = v`."""
    def __init__(self, label, attrs, when=None):
        self.label, self.attrs, self.when = label, frozenset([attrs] if isinstance(attrs, str) else attrs), when


class M:
    """Event declaration for mutations of a container held in attribute `attr`:
    subscript store/delete, mutator method calls.  The label may be computed: label(op, key, value)."""
    def __init__(self, label, attrs, when=None):
        self.label, self.attrs, self.when = label, frozenset([attrs] if isinstance(attrs, str) else attrs), when

    def name(self, op, key, value):
        return self.label(op, key, value) if callable(self.label) else self.label


class Inst:
    __slots__ = ("label", "kind", "call", "st", "node", "func", "base", "key", "value", "locks", "seq", "op", "stack")

    @property
    def where(self):
        return f"{self.func.module.rel}:{getattr(self.node, 'lineno', 0)}"

    @property
    def fn(self):
        return self.func.qual

    def construct(self):
        return f"{self.func.qual}:{self.label}"


def container_attr(t):
    """(base, attr) when t denotes a container stored in an attribute (looking through .setdefault/[k])"""
    if t.k == "attr":
        return t.a[0], t.a[1]
    return None


class Relevance:
    def __init__(self, proj, names, attrs, stop=(), small=140):
        self.p, self.names, self.attrs, self.stop = proj, names, attrs, set(stop)
        self.memo = {}
        self.small = small

    def own(self, f):
        for n in ast.walk(f.node) if f.name != "<loop>" else (y for s in f.node.body for y in ast.walk(s)) if isinstance(f.node, (ast.For, ast.While, ast.AsyncFor)) else ast.walk(f.node):
            if isinstance(n, ast.Call):
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
                if nm in self.names:
                    return True
                if nm == "setattr" and self.attrs:
                    return True
            elif isinstance(n, ast.Attribute) and n.attr in self.attrs:
                return True
            elif isinstance(n, ast.Name) and n.id in self.names:
                return True
        return False

    def callees(self, f):
        out = []
        root = f
        while root.parent is not None:
            root = root.parent
        for n in ast.walk(f.node):
            tgt = n.func if isinstance(n, ast.Call) else n
            if isinstance(tgt, ast.Attribute):
                v = tgt.value
                if isinstance(v, ast.Name) and v.id in ("self", "cls") and root.cls is not None:
                    for q in [root.cls.qual] + self.p.subclasses(root.cls.qual) + self.p.mro(root.cls.qual):
                        c = self.p.classes.get(q)
                        if c and tgt.attr in c.methods:
                            out.append(c.methods[tgt.attr])
                elif isinstance(v, ast.Call) and dotted(v.func) == "super" and root.cls is not None:
                    for q in self.p.mro(root.cls.qual)[1:]:
                        c = self.p.classes.get(q)
                        if c and tgt.attr in c.methods:
                            out.append(c.methods[tgt.attr])
                else:
                    d = dotted(tgt)
                    if d:
                        q = self.p.resolve(f.module, d)
                        if q in self.p.functions:
                            out.append(self.p.functions[q])
            elif isinstance(tgt, ast.Name):
                q = self.p.resolve(f.module, tgt.id)
                if q in self.p.functions:
                    out.append(self.p.functions[q])
        return out

    def relevant(self, f):
        if f.qual in self.memo:
            return self.memo[f.qual]
        seen, stack, ok = set(), [f], False
        while stack:
            g = stack.pop()
            if g.qual in seen:
                continue
            seen.add(g.qual)
            if g is not f and g.name in self.stop:
                continue
            if self.memo.get(g.qual) or self.own(g):
                ok = True
                break
            stack.extend(self.callees(g))
        self.memo[f.qual] = ok
        return ok

    def is_small(self, f):
        n = 0
        for x in ast.walk(f.node):
            n += 1
            if isinstance(x, (ast.For, ast.While, ast.With, ast.AsyncFor, ast.AsyncWith, ast.Yield, ast.YieldFrom)):
                return False
        return n <= self.small


    def is_part(self, f):
        """a private helper used at one place of its module: a piece of its only caller"""
        if not f.name.startswith("_") or f.name.startswith("__"):
            return False
        uses = getattr(self.p, "_uses", None)
        if uses is None:
            uses = self.p._uses = {}
        if f.module.rel not in uses:
            got = uses[f.module.rel] = {}
            for n in ast.walk(f.module.tree):
                nm = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else None
                if nm is not None:
                    got[nm] = got.get(nm, 0) + 1
        return uses[f.module.rel].get(f.name) == 1 and sum(1 for _ in ast.walk(f.node)) <= 4 * self.small


class Rec(Client):
    inline_depth = 8

    def __init__(self, proj, events=(), stop=(), types=None, track_locks=True, cap=2, default_raises=None, seq=True,
                 small=140, inline_all=False, noinline_pred=None):
        self.p = proj
        self.ev = [e for e in events if isinstance(e, E)]
        self.wr = [e for e in events if isinstance(e, W)]
        self.mu = [e for e in events if isinstance(e, M)]
        names = set().union(*[e.names for e in self.ev]) if self.ev else set()
        attrs = set()
        for e in self.wr + self.mu:
            attrs |= e.attrs
        self.names = names
        self.by_name = {}
        for e in self.ev:
            for n in e.names:
                self.by_name.setdefault(n, []).append(e)
        self.stop = set(stop)
        self.rel = Relevance(proj, names, attrs, stop, small)
        self.insts: list[Inst] = []
        self._seen = set()
        self.types_map = dict(types or {})
        self.track_locks, self.cap, self.seq = track_locks, cap, seq
        self.default_raises = default_raises
        self.inline_all = inline_all
        self.noinline_pred = noinline_pred
        self.iters = []          # (iterable, St at end of an iteration)
        self.loop_label = None   # callable(kind, iterable term, st) -> label or None
        self.iter_rel = False    # per-iteration sequences for every loop that contains an event
        self.iter_events = None  # ... restricted to these event names
        self.keep_break = False
        self._loop_rel = {}
        self.iter_of = None      # predicate(iterable term) for per-iteration sequences
        self.acquires = []       # (lock, held, node, func)
        self.awaits = None
        self.dyn = None          # predicate for calls of values: (label, raises) or None
        self.yields = []
        self.assume_hook = None
        self.sub_raises = None   # predicate(base,key,st) -> exception class or None

    # ---- typestate
    def init(self, **kw):
        from .interp import St
        return St(ts=((), ()))

    def add(self, st, label):
        if not self.seq or not label or label.startswith("!"):
            return st
        locks, seq = st.ts or ((), ())
        if seq.count(label) >= self.cap:
            return st
        return st.w(ts=(locks, seq + (label,)))

    def record(self, label, kind, st, node, fr_func, call=None, base=None, key=None, value=None, op=None, stack=()):
        locks, seq = st.ts or ((), ())
        i = Inst()
        i.label, i.kind, i.call, i.st, i.node, i.func = label, kind, call, st, node, fr_func
        i.base, i.key, i.value, i.locks, i.seq, i.op, i.stack = base, key, value, locks, seq, op, stack
        k = (label, kind, id(node), st, stack)
        if k not in self._seen:
            self._seen.add(k)
            self.insts.append(i)

    # ---- calls
    def call(self, c, st):
        nm = c.name
        if self.dyn is not None and c.fn.k not in ("func", "ref", "closure"):
            r = self.dyn(c)
            if r:
                label, raises = r
                self.record(label, "dyn", st, c.node, c.func, call=c, base=c.recv, stack=c.stack)
                st2 = self.add(st, label)
                return [("raise", x, self.add(st2, label + "!")) for x in raises] + [("ok", self.default_term(c), st2)]
        if nm is None:
            return None
        if c.fn.k == "attr" and any(k == "truth" and not v and ts[0].k == "call" and ts[0].a[0].k == "ref" and ts[0].a[0].a[0] == "builtins.hasattr"
                                    and ts[0].a[1] == (c.fn.a[0], const(nm)) for k, ts, v in st.facts):
            return [("raise", "builtins.AttributeError", st)]
        # lock methods
        if self.track_locks and c.fn.k == "attr" and nm in ("acquire", "release") and self.is_lock(c.recv):
            locks, seq = st.ts or ((), ())
            lk = self.lock_id(c.recv)
            if nm == "acquire":
                self.acquires.append((lk, locks, c.node, c.func, True, c.stack))
                if c.args or c.kw:
                    return [("ok", const(True), st.w(ts=(locks + (lk,), seq))), ("ok", const(False), st)]
                return [("ok", const(True), st.w(ts=(locks + (lk,), seq)))]
            if lk in locks:
                i = len(locks) - 1 - locks[::-1].index(lk)
                return [("ok", NONE, st.w(ts=(locks[:i] + locks[i + 1:], seq)))]
            return [("ok", NONE, st)]
        if c.fn.k == "attr" and nm in MUTATORS:
            for e in self.mu:
                ca = container_attr(c.recv)
                if ca and ca[1] in e.attrs and (e.when is None or e.when(c.recv, st)):
                    lb = e.name(nm, c.arg(0), c.arg(len(c.args) - 1) if c.args else None)
                    self.record(lb, "mut", st, c.node, c.func, call=c, base=ca[0], key=c.arg(0), value=c.arg(len(c.args) - 1) if c.args else None, op=nm, stack=c.stack)
                    st2 = self.add(st, lb)
                    if not any(x.when is None or x.when(c) for x in self.by_name.get(nm, ())):
                        return [("ok", T("call", c.fn, c.args, c.kw, (c.module.rel, c.node.lineno, c.node.col_offset)), st2)]
                    st = st2
        for e in self.by_name.get(nm, ()):
            if e.when is None or e.when(c):
                label = e.label(c) if callable(e.label) else e.label
                self.record(label, "call", st, c.node, c.func, call=c, base=c.recv, stack=c.stack)
                st2 = self.add(st, label)
                out = []
                for x in (e.raises(c, st) if callable(e.raises) else e.raises):
                    # an event that raised is recorded as attempted-and-failed
                    out.append(("raise", x, self.add(st, (label or "") + "!" + ("asyncio" if e.split and x == "asyncio.CancelledError" else x.split(".")[-1].lstrip("*") if e.split else ""))))
                terms = e.ret(c, st2) if e.ret else None
                if terms is None:
                    terms = [self.default_term(c)]
                out += [("ok", t if isinstance(t, T) else t[0], st2 if isinstance(t, T) else t[1]) for t in terms]
                return out
        return None

    def invoke(self, c, fterm, args, st):
        """call a value (e.g. a registered callback) now; outcomes as call() returns them"""
        from .interp import Frame
        fr = Frame(c.func, c.stack)
        rs = []
        for v, x in c.interp.apply(fterm, tuple(args), (), c.node, st, fr):
            fn, recv = c.interp.target(v.a[1]) if v.k == "coro" else (None, None)
            rs += c.interp.inline_call(fn, recv, v.a[2], v.a[3], x, fr, c.node, closure=v.a[1] if v.a[1].k == "closure" else None) if fn is not None else [(v, x)]
        return [("ok", v, x) for v, x in rs] + [("raise", e, x) for e, x in fr.sink]

    def default_term(self, c):
        site = (c.module.rel, c.node.lineno, c.node.col_offset)
        f, _ = c.interp.target(c.fn)
        if f is not None and f.is_async:
            return T("call", c.fn, c.args, c.kw, site)
        if c.fn.k == "ref" and (c.fn.a[0] in self.p.classes or c.interp._looks_class(c.fn.a[0])):
            return T("new", c.fn.a[0], c.args, c.kw, site)
        return T("call", c.fn, c.args, c.kw, site)

    def raises(self, c):
        return self.default_raises(c) if self.default_raises else ()

    def inline(self, f, c):
        if f.name in self.stop:
            return False
        if self.noinline_pred and self.noinline_pred(f):
            return False
        if self.inline_all:
            return True
        return self.rel.relevant(f) or self.rel.is_small(f) or self.rel.is_part(f)

    # ---- locks
    def lock_attr_names(self):
        got = getattr(self.p, "_lock_attrs", None)
        if got is None:
            got = set()
            for m in self.p.modules.values():
                for n in ast.walk(m.tree):
                    tgts, val, ann = [], None, None
                    if isinstance(n, ast.Assign):
                        tgts, val = n.targets, n.value
                    elif isinstance(n, ast.AnnAssign):
                        tgts, val, ann = [n.target], n.value, n.annotation
                    for t in tgts:
                        nm = t.attr if isinstance(t, ast.Attribute) else t.id if isinstance(t, ast.Name) else None
                        if nm is None:
                            continue
                        if isinstance(val, ast.Call):
                            d = dotted(val.func) or ""
                            q = self.p.resolve(m, d) if d else ""
                            last = d.split(".")[-1]
                            if q in LOCK_CTORS or (q.startswith("asyncz.locks.") and q in self.p.classes) or (last.startswith("create_") and last.endswith("lock")):
                                got.add(nm)
                        if ann is not None and isinstance(n.target, (ast.Attribute, ast.Name)):
                            s = ast.unparse(ann)
                            if s.split(".")[-1].strip("'\"") in ("Lock", "RLock", "LockProtectedProtocol"):
                                got.add(nm)
            self.p._lock_attrs = got
        return got

    def is_lock(self, t):
        if t is None:
            return False
        if t.k == "attr":
            return t.a[1] in self.lock_attr_names()
        if t.k == "call" and t.a[0].k == "attr" and t.a[0].a[1] == "protected":
            return True
        if t.k == "call" and t.a[0].k == "ref" and t.a[0].a[0] == "builtins.getattr" and len(t.a[1]) >= 2 and t.a[1][1].k == "const":
            return t.a[1][1].a[0] in self.lock_attr_names()
        return False

    def lock_id(self, t):
        if t.k == "call" and t.a[0].k == "attr" and t.a[0].a[1] == "protected":
            return self.lock_id(t.a[0].a[0])
        if t.k == "attr":
            b = t.a[0]
            return (show(b) if b.k != "self" else "self") + "." + t.a[1]
        if t.k == "call" and len(t.a[1]) >= 2:
            return show(t.a[1][0]) + "." + str(t.a[1][1].a[0])
        return show(t)

    def with_enter(self, t, st, node, fr):
        if not self.track_locks or not self.is_lock(t):
            return None
        locks, seq = st.ts or ((), ())
        lk = self.lock_id(t)
        nonblock = t.k == "call" and any(k == "blocking" and v is const(False) for k, v in t.a[2])
        self.acquires.append((lk, locks, node, fr.func, not nonblock, fr.stack))
        return [(T("enter", t), st.w(ts=(locks + (lk,), seq)))]

    def with_exit(self, t, st, node, fr, exc):
        if not self.track_locks or not self.is_lock(t):
            return None
        locks, seq = st.ts or ((), ())
        lk = self.lock_id(t)
        if lk in locks:
            i = len(locks) - 1 - locks[::-1].index(lk)
            locks = locks[:i] + locks[i + 1:]
        return [("pass", st.w(ts=(locks, seq)))]

    # ---- writes
    def attr_write(self, base, name, value, st, node, fr):
        for e in self.wr:
            if name in e.attrs and (e.when is None or e.when(base, name, value, st)):
                label = e.label(base, name, value) if callable(e.label) else e.label
                self.record(label, "write", st, node, fr.func, base=base, key=name, value=value, op="=", stack=fr.stack)
                st = self.add(st, label)
        for e in self.mu:
            if name in e.attrs and (e.when is None or e.when(T("attr", base, name), st)):
                label = e.name("rebind", name, value)
                self.record(label, "mut", st, node, fr.func, base=base, key=name, value=value, op="rebind", stack=fr.stack)
                st = self.add(st, label)
        return st

    def sub_write(self, base, key, value, st, node, fr):
        for e in self.mu:
            ca = container_attr(base)
            if ca and ca[1] in e.attrs and (e.when is None or e.when(base, st)):
                lb = e.name("[]=", key, value)
                self.record(lb, "mut", st, node, fr.func, base=ca[0], key=key, value=value, op="[]=", stack=fr.stack)
                st = self.add(st, lb)
        return st

    def sub_del(self, base, key, st, node, fr):
        for e in self.mu:
            ca = container_attr(base)
            if ca and ca[1] in e.attrs and (e.when is None or e.when(base, st)):
                lb = e.name("del", key, None)
                self.record(lb, "mut", st, node, fr.func, base=ca[0], key=key, op="del", stack=fr.stack)
                st = self.add(st, lb)
        return st

    def sub_read(self, base, key, st, node, fr):
        if self.sub_raises:
            x = self.sub_raises(base, key, st)
            if x:
                return [st, (Exc(x, (fr.func.module.rel, node.lineno, node.col_offset)), st)]
        return st

    def at_yield(self, term, st, node, fr):
        self.yields.append((term, st, node, fr.func))
        return st

    # ---- loops
    def on_loop(self, kind, it, st, node, fr):
        if self.loop_label is not None:
            lb = self.loop_label(kind, it, st)
            if lb:
                st = self.add(st, lb)
        tracked = (self.iter_of is not None and self.iter_of(it)) or (self.iter_rel and self.loop_relevant(node, fr))
        if tracked and kind in ("iter", "exit", "break"):
            if kind == "break" and self.keep_break:
                return st
            locks, seq = st.ts or ((), ())
            if "@iter" in seq:
                self.iters.append((it, st, node, fr.func))
            if kind == "iter":
                return st.w(ts=(locks, ("@iter",)))
            return st.w(ts=(locks, ()))
        return st

    def loop_relevant(self, node, fr):
        got = self._loop_rel.get(id(node))
        if got is None:
            ev = self.iter_events
            old = None
            if ev is not None:
                old = self.rel
                self.rel = Relevance(self.p, ev, frozenset(), self.stop)
            f = Func(fr.func.qual + ".<loop>", "<loop>", node, fr.func.module, fr.func.cls, fr.func.parent)
            got = self._loop_rel[id(node)] = self.rel.relevant(f)
            self.rel.memo.pop(f.qual, None)
            if old is not None:
                self.rel = old
        return got

    def assume(self, lit, st, node, fr):
        if self.assume_hook:
            return self.assume_hook(lit, st, node, fr)
        return st

    def type_of(self, t):
        return self.types_map.get(t)

    def awaited(self, t, st, node, fr):
        if self.awaits:
            return self.awaits(t, st, node, fr)
        return None


def run(proj, client, func, self_cls=None, args=None, max_states=None, closure_env=None):
    from . import interp as I
    it = I.Interp(proj, client)
    it.closures.update(getattr(client, "closures", None) or {})   # of an earlier run this one goes on from
    f = proj.func(func) if isinstance(func, str) else func
    if max_states:
        it.maxst = max_states
    res = it.run(f, self_cls=self_cls, args=args, st=client.init(), closure_env=closure_env)
    return res, it
