"""Lock protectors, lock order, guarded registries."""
import ast

from sa.project import dotted, own_nodes
from sa.rec import E, M, Rec, W, run
from sa.report import prop
from ._common import seq
from sa.terms import FALSE, NONE, T, TRUE, const, contains, show, subterms

S = "asyncz.schedulers.base.BaseScheduler"


@prop("C01", "Lock protectors release exactly what they acquired, on every exit",
      """A lock-protection section that obtained its lock gives it back exactly once when the protected block ends, whether the
      block ends normally or by an exception, and a section that did not obtain the lock releases nothing. The value handed to the
      protected block says truthfully whether the lock is held, and a non-blocking request never waits for the lock.""",
      ["schedules", "fault_sequences"],
      "every lock protector class (in-process, re-entrant, file based, none) and the file-lock helper, every acquire outcome, every way the protected block can end",
      "tests only exercise blocks that end normally with an uncontended lock; a leak shows only when a block raises while the lock is held",
      ["asyncz/locks.py", "asyncz/file_locking.py"],
      [("acquire/yield/release context managers", "asyncz/locks.py"), ("flock wrapper", "asyncz/file_locking.py:with_lock")],
      "path-sensitive typestate dataflow (acquire/yield/release) over the syntax tree with exceptional edges",
      """Every path of every protector generator is enumerated, with the acquire outcome forked and an exception injected at the yield.
      Assumes Lock.acquire/flock behave as documented.""")
def c01(ctx):
    p = ctx.proj
    ctx.rule("release-balance", "after the yield (normal or raising) the lock is released exactly once iff it was acquired")
    ctx.rule("truthful-value", "the yielded value is true iff the lock was acquired")
    ctx.rule("no-release-before-yield", "the lock is still held while the protected block runs")
    ctx.rule("nonblocking", "a non-blocking request is passed on to the lock primitive as non-blocking")
    ctx.rule("flock-outcome", "the file lock primitive reports success iff flock succeeded, and contention as failure")
    targets = []
    for q, c in sorted(p.classes.items()):
        if "protected" in c.methods and not any("Protocol" == b.split(".")[-1] for b in c.base_quals):
            targets.append((q, c.methods["protected"]))
    ctx.need(len(targets) >= 2, "lock protector classes not found")
    fl = p.functions.get("asyncz.file_locking.with_lock")
    if fl is not None:
        targets.append(("asyncz.file_locking.with_lock", fl))
    acq = lambda c: [(TRUE, None), (FALSE, None)]

    class L(Rec):
        yield_raises = ("*Exception", "*BaseException")

        def call(self, c, st):
            nm = c.name
            is_acq = (nm == "acquire" and c.fn.k == "attr") or (c.qual or "").endswith("file_locking.lock")
            is_rel = (nm == "release" and c.fn.k == "attr") or (c.qual or "").endswith("file_locking.unlock")
            if is_acq:
                self.record("acquire", "call", st, c.node, c.func, call=c, base=c.recv)
                return [("ok", TRUE, self.add(st, "acq+")), ("ok", FALSE, self.add(st, "acq-"))]
            if is_rel:
                self.record("release", "call", st, c.node, c.func, call=c, base=c.recv)
                return [("ok", NONE, self.add(st, "rel"))]
            return None

        def at_yield(self, term, st, node, fr):
            self.yields.append((term, st, node, fr.func))
            return self.add(st, "yield")
    for q, f in targets:
        cl = L(p, [E("x", ["acquire", "release", "lock", "unlock"])], track_locks=False)
        cl.cap = 3
        res, it = run(p, cl, f, self_cls=q if q in p.classes else None)
        ctx.absorb(it)
        nolock = not cl.insts
        managed = any("contextmanager" in ast.unparse(d) for d in f.node.decorator_list)
        ctx.ob("no-release-before-yield", bool(cl.yields) or not managed, f"{q}:runs", f.where, "the protected block never runs")
        if nolock:
            # a protector without any lock must be the explicit null object: it only claims success
            for term, st, node, fn in cl.yields:
                ctx.ob("truthful-value", term is TRUE, f"{q}", fn.where, "a protector without a lock must report success")
            continue
        is_bool = q in p.classes
        for term, st, node, fn in cl.yields:
            done = seq(st)
            got = "acq+" in done
            if is_bool:
                tv = bool(term.a[0]) if term.k == "const" else None
                if tv is None:
                    for ff in st.facts:
                        if ff[0] == "truth" and ff[1][0] is term:
                            tv = ff[2]
                ctx.ob("truthful-value", tv is not None and tv == got, q, fn.where, f"yields {show(term)} when acquired={got}")
            ctx.ob("no-release-before-yield", "acq+" in done or "acq-" in done, f"{q}:acquire", fn.where, "the block runs without any attempt to take the lock")
            ctx.ob("no-release-before-yield", "rel" not in done, f"{q}:early-release", fn.where, "lock released before the block runs")
        for kind, payload, st in res:
            done = seq(st)
            if "yield" not in done:
                continue
            n = done.count("rel")
            got = "acq+" in done
            how = "normal end" if kind == "return" else f"block raising {payload.cls}"
            if got:
                ctx.ob("release-balance", n == 1, f"{q}:{'normal' if kind == 'return' else 'raise'}", f.where, f"released {n} times after {how}", [" -> ".join(done)])
            elif is_bool:
                ctx.ob("release-balance", n == 0, f"{q}:unacquired", f.where, f"released {n} times although never acquired ({how})", [" -> ".join(done)])
        if is_bool:
            for i in cl.insts:
                if i.label != "acquire":
                    continue
                blk = T("p", "blocking")
                if i.call.recv is not None:
                    a = i.call.arg(0, "blocking")
                    ok = a is blk or (a is not None and a.k == "const" and _blocking(i.st, blk) is bool(a.a[0]))
                    ctx.ob("nonblocking", ok, q, i.where, f"lock.acquire called with blocking={show(a) if a is not None else 'default (waits)'}")
                else:
                    a = i.call.arg(1, "flags")
                    has_nb = a is not None and any(t.k == "ref" and t.a[0].endswith("LOCK_NB") for t in subterms(a))
                    b = _blocking(i.st, blk)
                    ctx.ob("nonblocking", b is not None and has_nb == (not b) or (b is None and not has_nb and False), q, i.where, f"flock flags {show(a) if a is not None else None} with blocking={b}")
                    has_ex = a is not None and any(t.k == "ref" and t.a[0].endswith("LOCK_EX") for t in subterms(a))
                    ctx.ob("nonblocking", has_ex, q + ":exclusive", i.where, "the processing lock must be exclusive")
    # the primitive itself
    f = p.functions.get("asyncz.file_locking.lock")
    if f is not None:
        cl = Rec(p, [E("flock", ["flock", "LockFileEx"], raises=("builtins.BlockingIOError", "builtins.OSError"))], track_locks=False)
        res, it = run(p, cl, f)
        ctx.absorb(it)
        for kind, payload, st in res:
            if kind == "return":
                seq_ = st.ts[1]
                good = "flock" in seq_ and "flock!" not in seq_
                ctx.ob("flock-outcome", payload is const(good), "asyncz.file_locking.lock", f.where, f"returns {show(payload)} although flock {'succeeded' if good else 'did not succeed'}")
                if good:
                    fd = [i.call for i in cl.insts if i.label == "flock"]
                    ctx.ob("flock-outcome", all(any(contains(a, T("p", f.node.args.args[0].arg)) for a in c.args[:1]) and c.arg(1, "operation") is T("p", f.node.args.args[1].arg) for c in fd),
                           "asyncz.file_locking.lock:arguments", f.where, f"the system lock is requested as {[[show(a) for a in c.args] for c in fd]}, not with the file and the flags asked for")
    u = p.functions.get("asyncz.file_locking.unlock")
    if u is not None:
        cl = Rec(p, [E("un", ["flock", "UnlockFileEx"])], track_locks=False)
        res, it = run(p, cl, u)
        ctx.absorb(it)
        for i in cl.insts:
            a = i.call.arg(1, "operation")
            ctx.ob("flock-outcome", i.call.name != "flock" or (a is not None and any(t.k == "ref" and t.a[0].endswith("LOCK_UN") for t in subterms(a)) and any(contains(x, T("p", u.node.args.args[0].arg)) for x in i.call.args[:1])),
                   "asyncz.file_locking.unlock:arguments", i.where, f"unlock asks the system for {[show(x) for x in i.call.args]}, which does not release the file")
        for kind, payload, st in res:
            ctx.ob("flock-outcome", "un" in seq(st), "asyncz.file_locking.unlock", u.where, "unlock returns without telling the system to release the file")
    ctx.floor("release-balance", 3)
    ctx.floor("truthful-value", 3)
    ctx.floor("nonblocking", 2)


def _blocking(st, blk):
    for ff in st.facts:
        if ff[0] == "truth" and ff[1][0] is blk:
            return ff[2]
        if ff[0] in ("eq", "is") and ff[1][0] is blk and ff[1][1].k == "const":
            return bool(ff[1][1].a[0]) == ff[2]
    return None


ROLES = ["asyncz.schedulers.base.BaseScheduler", "asyncz.executors.base.BaseExecutor", "asyncz.stores.base.BaseStore"]


def role_of(p, q):
    if q is None:
        return None
    for r in ROLES:
        if r in p.mro(q):
            return r.split(".")[-1].replace("Base", "")
    # the class that owns the attribute is good enough for everything else
    return q.split(".")[-1]


class LockOrder(Rec):
    merge_by_ts = True

    def __init__(self, p):
        super().__init__(p, [E("x", ["protected", "acquire"])], seq=False)
        self.rel.names = frozenset(["protected", "acquire"])
        self.rel.attrs = self.lock_attr_names()
        self.by_name = {}

    def type_of(self, t):
        base = None
        if t.k in ("val", "elem"):
            base = t.a[0]
        elif t.k == "idx":
            base = t.a[0]
        elif t.k == "call" and t.a[0].k in ("func", "attr"):
            nm = t.a[0].a[0].split(".")[-1] if t.a[0].k == "func" else t.a[0].a[1]
            if nm == "lookup_executor":
                return ROLES[1]
            if nm == "lookup_store":
                return ROLES[2]
        if base is not None:
            while base.k == "call" and base.a[0].k == "ref" and base.a[1]:
                base = base.a[1][0]
            if base.k == "call" and base.a[0].k == "attr":
                base = base.a[0].a[0]
            if base.k == "attr":
                if base.a[1] == "executors":
                    return ROLES[1]
                if base.a[1] == "stores":
                    return ROLES[2]
        if t.k == "p":
            return {"store": ROLES[2], "executor": ROLES[1], "scheduler": ROLES[0]}.get(t.a[0])
        if t.k == "attr" and t.a[1] == "scheduler":
            return ROLES[0]
        return None

    def lock_id(self, t):
        if t.k == "call" and t.a[0].k == "attr" and t.a[0].a[1] == "protected":
            return self.lock_id(t.a[0].a[0])
        if t.k == "attr":
            b = t.a[0]
            q = b.a[0] if b.k == "self" else self.type_of(b) or (b.a[0] if b.k == "new" else None)
            r = role_of(self.p, q)
            return f"{r}.{t.a[1]}" if r else f"?{show(b)}.{t.a[1]}"
        if t.k == "call" and len(t.a[1]) >= 2 and t.a[1][1].k == "const":
            q = self.type_of(t.a[1][0])
            return f"{role_of(self.p, q) or '?'}.{t.a[1][1].a[0]}"
        return show(t)


def reentrant(p, q, attr):
    """True / False / None from the constructor assigned to the lock attribute."""
    for c in p.mro(q) if q in p.classes else []:
        k = p.classes.get(c)
        if k is None:
            continue
        for m in k.methods.values():
            for n in ast.walk(m.node):
                val, tg = None, []
                if isinstance(n, ast.Assign):
                    tg, val = n.targets, n.value
                elif isinstance(n, ast.AnnAssign):
                    tg, val = [n.target], n.value
                for t in tg:
                    if isinstance(t, ast.Attribute) and t.attr == attr and isinstance(val, ast.Call):
                        return ctor_reentrant(p, q, m.module, val)
    return None


def ctor_reentrant(p, q, module, call, depth=0):
    d = dotted(call.func) or ""
    r = p.resolve(module, d) if d and not d.startswith("self.") else ""
    if r == "threading.Lock" or r == "asyncio.Lock":
        return False
    if r in ("threading.RLock", "threading.Condition"):
        return True
    if r in p.classes:
        m = p.method(r, "create_lock")
        if m:
            for n in own_nodes(m.node):
                if isinstance(n, ast.Return) and isinstance(n.value, ast.Call):
                    return ctor_reentrant(p, r, m.module, n.value, depth + 1)
        return None
    last = d.split(".")[-1]
    m = p.method(q, last) if d.startswith("self.") else p.method(S, last)
    if m and depth < 4:
        for n in own_nodes(m.node):
            if isinstance(n, ast.Return) and isinstance(n.value, ast.Call):
                return ctor_reentrant(p, m.cls.qual if m.cls else q, m.module, n.value, depth + 1)
    return None


def lock_facts(p):
    got = getattr(p, "_lock_order", None)
    if got is not None:
        return got
    acqs, steps, funcs = [], 0, set()
    entries = []
    probe = LockOrder(p)
    for q, f in sorted(p.functions.items()):
        if f.parent is not None or f.module.name in ("asyncz.locks", "asyncz.file_locking"):
            continue
        if probe.rel.relevant(f):
            entries.append(f)
    n = 0
    for f in entries:
        cl = LockOrder(p)
        res, it = run(p, cl, f, max_states=12)
        acqs += [a + (f.qual,) for a in cl.acquires]
        steps += it.steps
        n += it.opaque_calls
        funcs |= it.visited_funcs
    p._lock_order = (entries, acqs, steps, n, funcs)
    return p._lock_order


@prop("C02", "Locks are acquired in one global order and never self-deadlock",
      """Any two of the library's own locks that are ever held together are always acquired in the same relative order, so that no
      interleaving of scheduler, executor, store and dashboard operations can block forever on them. No operation blocks on a
      non-re-entrant lock it already holds.""",
      ["schedules"],
      "every public and internal operation of scheduler, executors, stores and dashboard storages, in every interleaving of threads",
      "a lock-order inversion needs two threads in two particular operations at the same instant; unit tests run operations one at a time",
      ["asyncz/schedulers/base.py", "asyncz/executors/base.py", "asyncz/stores/base.py", "asyncz/contrib/dashboard/"],
      [("executor, store, processing, listener and refcount locks", "asyncz/schedulers/base.py"), ("per-executor lock", "asyncz/executors/base.py"), ("storage locks", "asyncz/contrib/dashboard")],
      "interprocedural lock-order graph (held-set dataflow) with cycle detection",
      """Every function from which a lock acquisition is reachable is an entry; held sets flow through inlined calls. Locks taken by user
      callbacks (listeners, task bodies) are outside the graph, as is time spent waiting for worker threads.""")
def c02(ctx):
    p = ctx.proj
    ctx.rule("lock-order", "the graph 'held -> blocking acquire' over lock roles is acyclic")
    ctx.rule("no-self-deadlock", "a non-re-entrant lock is never acquired blockingly while already held")
    entries, acqs, steps, opaque, funcs = lock_facts(p)
    ctx.functions |= funcs
    ctx.stat("statements_interpreted", steps)
    ctx.stat("entry_functions", len(entries))
    edges: dict = {}
    roles = set()
    re_cache = {}
    for lk, held, node, func, blocking, stack, entry in acqs:
        roles.add(lk)
        w = f"{func.module.rel}:{node.lineno}"
        if lk in held and blocking:
            if lk not in re_cache:
                attr = lk.rpartition(".")[2]
                owner = lk.rpartition(".")[0]
                qs = [r for r in ROLES if r.split(".")[-1].replace("Base", "") == owner] or [c for c in p.classes if c.split(".")[-1] == owner]
                vals = [reentrant(p, q, attr) for q in qs]
                re_cache[lk] = False if False in vals else True
            ctx.ob("no-self-deadlock", re_cache[lk], f"{func.qual}:{lk}", w, f"{lk} is not re-entrant and already held (held: {held})", list(stack))
        if blocking and lk not in held:
            for h in held:
                if h != lk:
                    edges.setdefault((h, lk), (w, func.qual, entry, stack))
    ctx.stat("lock_roles", len(roles))
    ctx.stat("order_edges", len(edges))
    graph: dict = {}
    for a, b in edges:
        graph.setdefault(a, set()).add(b)

    def reach(a, b):
        seen, stack = set(), [a]
        while stack:
            x = stack.pop()
            if x == b:
                return True
            if x in seen:
                continue
            seen.add(x)
            stack += graph.get(x, ())
        return False
    for (a, b), (w, fn, entry, stack) in sorted(edges.items()):
        back = reach(b, a)
        ctx.ob("lock-order", not back, f"{a}<->{b}" if a < b else f"{b}<->{a}", w, f"{fn} (from {entry}) takes {b} while holding {a}, elsewhere the order is reversed", list(stack))
    for lk in sorted(roles):
        ctx.ob("no-self-deadlock", True, lk, "", "")
    ctx.need(len(roles) >= 6, f"only {len(roles)} lock roles found")
    ctx.samples = [f"{a} -> {b} at {v[0]} in {v[1]}" for (a, b), v in sorted(edges.items())][:20] or ctx.samples


ITERATING = {"list", "tuple", "sorted", "set", "frozenset", "dict", "sum", "max", "min", "any", "all", "enumerate", "reversed", "deepcopy", "copy"}


class Guarded(Rec):
    """Records mutations and iterations of guarded attributes with the locks held."""
    merge_by_ts = True

    def __init__(self, p, attrs, **kw):
        super().__init__(p, [M("mut", attrs)], seq=False, **kw)
        self.gattrs = set(attrs)

    def strip(self, t):
        while t is not None:
            if t.k == "call" and t.a[0].k == "attr" and t.a[0].a[1] in ("items", "values", "keys", "copy"):
                t = t.a[0].a[0]
            elif t.k == "call" and t.a[0].k == "ref" and t.a[0].a[0] in ("builtins.enumerate", "builtins.reversed", "builtins.iter", "itertools.islice") and t.a[1]:
                t = t.a[1][0]
            elif t.k == "idx" and t.a[1].k == "slice":
                t = t.a[0]
            else:
                return t
        return t

    def on_loop(self, kind, it, st, node, fr):
        if kind == "iter":
            b = self.strip(it)
            if b.k == "attr" and b.a[1] in self.gattrs:
                self.record("iter", "iter", st, node, fr.func, base=b.a[0], key=b.a[1], stack=fr.stack)
        return st

    def call(self, c, st):
        if c.fn.k == "ref" and c.name in ITERATING and c.args:
            b = self.strip(c.args[0])
            if b.k == "attr" and b.a[1] in self.gattrs:
                self.record("iter", "iter", st, c.node, c.func, base=b.a[0], key=b.a[1], stack=c.stack)
        return super().call(c, st)

    def attr_write(self, base, name, value, st, node, fr):
        if name in self.gattrs:
            self.record("mut", "mut", st, node, fr.func, base=base, key=name, value=value, op="rebind", stack=fr.stack)
        return st

    def attr_of(self, i):
        if i.kind == "iter" or i.op == "rebind":
            return i.key
        if i.call is not None and i.call.recv is not None:
            ca = i.call.recv
            return ca.a[1] if ca.k == "attr" else None
        return None


def called_from_methods(p, cls_quals):
    """names of methods called as self.m() from other methods of the classes"""
    out = set()
    for q in cls_quals:
        for m in p.classes[q].methods.values():
            for n in ast.walk(m.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, (ast.Name, ast.Call)):
                    if n.func.attr != m.name:
                        out.add(n.func.attr)
    return out


def mentioned(p, q):
    """attribute names used in the modules of the class and of its relatives"""
    out = set()
    for m in {p.classes[c].module.name: p.classes[c].module for c in [q] + p.mro(q) + p.subclasses(q) if c in p.classes}.values():
        out |= {n.attr for n in ast.walk(m.tree) if isinstance(n, ast.Attribute)}
    return out


def check_guarded(ctx, cls, guards, exempt, rule_mut, rule_iter, iter_attrs=(), helper_ok=(), shared=False):
    p = ctx.proj
    quals = [cls] + p.subclasses(cls)
    attrs = set(guards)
    internal = called_from_methods(p, quals)
    done = set()
    n = 0
    used_names = mentioned(p, cls)
    for q in quals:
        for name in sorted({m for b in p.mro(q) if b in p.classes for m in p.classes[b].methods}):
            f = p.method(q, name)
            if f is None or f.name in exempt or (q, f.qual) in done:
                continue
            if q != cls and f.cls.qual == cls:
                continue          # inherited unchanged: analysed on the base class
            done.add((q, f.qual))
            if (f.name.startswith("_") and not f.name.startswith("__") or f.name in helper_ok) and f.name in internal:
                continue          # an internal step: analysed inline from its callers
            if f.name.startswith("_") and not f.name.startswith("__") and f.name not in used_names:
                continue          # never used
            cl = Guarded(p, attrs)
            if not cl.rel.relevant(f):
                continue
            res, it = run(p, cl, f, self_cls=q)
            ctx.absorb(it)
            for i in cl.insts:
                a = cl.attr_of(i)
                if a is None and i.kind == "mut":
                    # subscript store / delete: base is the owner; find which attribute from the node text
                    a = next((x for x in attrs if any(isinstance(y, ast.Attribute) and y.attr == x for y in ast.walk(i.node))), None) or (next(iter(attrs)) if len(attrs) == 1 else None)
                if a is None:
                    continue
                if i.base is not None and i.base.k in ("newlist", "list", "new"):
                    continue
                lk = guards[a]
                held = any(h.rpartition(".")[2] == lk for h in i.locks)
                if i.kind == "iter":
                    if a in iter_attrs:
                        ctx.ob(rule_iter, held, f"{i.func.qual}:{a}", i.where, f"{a} iterated without {lk} (entry {f.qual}, held {i.locks})", list(i.stack))
                else:
                    n += 1
                    ctx.ob(rule_mut, held, f"{i.func.qual}:{a}", i.where, f"{a} changed without {lk} (entry {f.qual}, held {i.locks})", list(i.stack))
    return n


@prop("C03", "Shared scheduler registries change only under their lock",
      """Once configured, the scheduler's executors, stores, listeners, pending tasks and start counter, and the running-instance counts,
      are changed only by a thread holding the lock that protects them. Executors, stores, listeners and pending tasks are also only
      iterated under that lock, so a concurrent registration can never corrupt or abort another operation.""",
      ["schedules"],
      "every operation of every scheduler and executor class, in every interleaving",
      "tests register components and listeners from a single thread; a missing lock only shows under a race",
      ["asyncz/schedulers/base.py", "asyncz/schedulers/asyncio.py", "asyncz/executors/base.py"],
      [("executor_lock/store_lock/listeners_lock/ref_lock", "asyncz/schedulers/base.py"), ("executor lock", "asyncz/executors/base.py:send_task")],
      "lockset dataflow: guarded-by rules over every mutation and iteration site",
      """Guarded attributes and their locks are listed in the check; every method of the classes (and overrides) is an entry, private helpers
      are analysed inline from their callers. Construction and configuration (before the object is shared) are exempt.""")
def c03(ctx):
    ctx.rule("guarded-mutation", "executors/stores/listeners/pending_tasks/ref_counter/instances are mutated only with their lock held")
    ctx.rule("guarded-iteration", "executors/stores/listeners/pending_tasks are iterated only with their lock held")
    guards = {"executors": "executor_lock", "stores": "store_lock", "listeners": "listeners_lock", "pending_tasks": "store_lock", "ref_counter": "ref_lock"}
    n = check_guarded(ctx, S, guards, {"__init__", "_setup", "setup"}, "guarded-mutation", "guarded-iteration",
                      iter_attrs={"executors", "stores", "listeners", "pending_tasks"}, helper_ok={"lookup_task"})
    n += check_guarded(ctx, "asyncz.executors.base.BaseExecutor", {"instances": "lock"}, {"__init__"}, "guarded-mutation", "guarded-iteration")
    ctx.floor("guarded-mutation", 10)
    ctx.floor("guarded-iteration", 5)
