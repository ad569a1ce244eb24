"""Dashboard storages, recorded histories, listeners, queries."""
import ast

from checks._common import *  # noqa: F401,F403
from checks.locks import check_guarded, mentioned
from sa.project import dotted, own_nodes
from sa.report import prop

D = "asyncz.contrib.dashboard."
HIST = D + "history.MemoryRunHistoryStorage"
AUDIT = D + "audit.MemoryAuditTrailStorage"
EVENTS = D + "events.MemorySchedulerEventStorage"
LOGS = D + "logs.storage.MemoryLogStorage"

CONTAINERS = {"dict", "list", "set", "deque", "OrderedDict", "defaultdict", "collections.deque", "collections.OrderedDict", "collections.defaultdict"}
GROW = {"append", "appendleft", "[]=", "setdefault", "extend", "insert", "add", "extendleft"}
SHRINK = {"pop", "popleft", "popitem", "remove", "discard", "del"}


def init_assigns(p, q):
    """{attr: value node} assigned on self by the constructors of the class"""
    out = {}
    for c in reversed(p.mro(q)):
        k = p.classes.get(c)
        f = k.methods.get("__init__") if k else None
        if f is None:
            continue
        nodes, done = list(ast.walk(f.node)), {"__init__"}
        for n in nodes:             # and its parts
            m = n.func.attr if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self" else None
            if m in k.methods and m not in done:
                done.add(m)
                nodes.extend(ast.walk(k.methods[m].node))
        for n in nodes:
            tg, v = ([n.target], n.value) if isinstance(n, ast.AnnAssign) else (n.targets, n.value) if isinstance(n, ast.Assign) else ([], None)
            for t in tg:
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self" and v is not None:
                    out[t.attr] = (v, k.module)
    return out


class Shape:
    """containers, bounded containers and lock of a storage class"""
    def __init__(self, p, q):
        self.q, self.bounded, self.open, self.lock = q, set(), set(), None
        for a, (v, m) in init_assigns(p, q).items():
            if isinstance(v, ast.Call):
                d = dotted(v.func) or ""
                r = p.resolve(m, d) if d else ""
                if r in ("threading.Lock", "threading.RLock"):
                    self.lock = a
                elif d.split(".")[-1] in {c.split(".")[-1] for c in CONTAINERS}:
                    ml = [k.value for k in v.keywords if k.arg == "maxlen"] + (v.args[1:2] if d.endswith("deque") else [])
                    if any(not (isinstance(x, ast.Constant) and x.value is None) for x in ml):
                        self.bounded.add(a)
                    else:
                        self.open.add(a)
            elif isinstance(v, (ast.Dict, ast.List, ast.Set, ast.ListComp, ast.DictComp)):
                self.open.add(a)
        self.all = self.bounded | self.open


def storages(p):
    out = []
    for q in sorted(p.classes):
        if q.startswith(D):
            s = Shape(p, q)
            if s.lock and s.all:
                out.append(s)
    return out


def entries(p, q):
    """methods reachable from outside: public ones, and private ones no method of the class calls"""
    called, used_names = set(), mentioned(p, q)
    for m in p.classes[q].methods.values():
        for n in ast.walk(m.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self":
                called.add(n.func.attr)
    return [m for n, m in sorted(p.classes[q].methods.items()) if n != "__init__" and not (n.startswith("_") and not n.startswith("__") and (n in called or n not in used_names))]


def opname(i):
    return {"[]=": "[]=", "del": "del"}.get(i.op, i.op)


def len_of(t):
    """attribute whose length the term is"""
    if t.k == "call" and t.a[0].k == "ref" and t.a[0].a[0] == "builtins.len" and t.a[1] and t.a[1][0].k == "attr":
        return t.a[1][0].a[1]
    return None


def is_cap(t):
    return t.k == "attr" and t.a[0].k == "self" and "max" in t.a[1] or t.k == "attr" and t.a[0].k == "self" and t.a[1] in ("limit", "capacity", "size")


class StoreRec(Rec):
    """growth, removal and bound comparisons of the containers of a storage, per path"""
    def __init__(self, p, sh, **kw):
        self.sh = sh
        evs = [M((lambda a: lambda op, k, v: self.label(a, op))(a), a) for a in sorted(sh.all)]
        super().__init__(p, evs, noinline_pred=lambda f: f.cls is None, **kw)
        self.assume_hook = self.hook
        self.iter_rel, self.iter_events = True, frozenset(["append", "appendleft", "add", "insert", "extend", "setdefault"])
        self.merge_by_ts = True

    def label(self, a, op):
        if op in GROW:
            return "grow:" + a
        if op in SHRINK:
            return "rm:" + a
        if op in ("clear", "rebind"):
            return "clear:" + a
        return "op:" + a

    def hook(self, lit, st, node, fr):
        kind, ts, val = lit
        if kind == "lt":
            a, b = ts
            if is_cap(a) and len_of(b):
                # len > cap
                return self.add(st, "over" if val else "bound")
            if len_of(a) and is_cap(b):
                # len < cap
                return self.add(st, "room" if val else "full")
        # what is listed in one container is present in the others (shown inductively by this very check)
        if val and kind == "is" and ts[1] is NONE and self.popped(ts[0]):
            return None
        if not val and kind == "truth" and self.popped(ts[0]):
            return None
        if not val and kind == "in" and self.taken(ts[0]) and ts[1].k == "attr" and ts[1].a[1] in self.sh.all:
            return None
        return st

    def on_loop(self, kind, it, st, node, fr):
        st = super().on_loop(kind, it, st, node, fr)
        if kind == "exit" and it is not None and it.k == "call" and it.a[0].k == "ref" and it.a[0].a[0] == "builtins.range" and len(it.a[1]) == 1:
            n = it.a[1][0]
            if n.k == "op" and n.a[0] == "Sub" and len_of(n.a[1]) and is_cap(n.a[2]):
                st = self.add(st, "bound")      # one removal per surplus entry (removals are checked to be in step)
        return st

    def popped(self, t):
        return t.k == "call" and t.a[0].k == "attr" and t.a[0].a[1] in ("pop", "get") and t.a[0].a[0].k == "attr" and t.a[0].a[0].a[1] in self.sh.all and t.a[1] and self.taken(t.a[1][0])

    def taken(self, t):
        return any(x.k == "call" and x.a[0].k == "attr" and x.a[0].a[1] in ("popleft", "pop", "popitem") and x.a[0].a[0].k == "attr" and x.a[0].a[0].a[1] in self.sh.all for x in subterms(t))


def fifo_removal(i, attr):
    """does this removal take the oldest entry of the container"""
    c = i.call
    if i.op == "popleft":
        return True
    if i.op == "pop" and c is not None and len(c.args) == 1 and c.args[0] is const(0):
        return True
    if i.op == "del" and i.key is not None and i.key is const(0):
        return True
    if i.op == "popitem" and c is not None:
        a = c.arg(0, "last")
        return a is FALSE
    return None


@prop("C60", "Dashboard stores stay bounded, consistent and thread-safe",
      """Each in-memory dashboard store (run history, audit trail, scheduler events, task logs) never holds more than its configured
      maximum, drops its oldest entries first, and keeps its internal indexes in step, so an entry that was dropped is never found again
      and an entry that is kept is never lost. All changes to and scans of a store, and all changes to a stored record, happen under its lock.""",
      ["inputs", "schedules", "histories"],
      "every storage class of the dashboard, every operation, every interleaving of scheduler threads and request handlers, any number of entries",
      "overflow needs thousands of entries and a race needs two threads inside the same operation; tests store a handful from one thread",
      ["asyncz/contrib/dashboard/history.py", "asyncz/contrib/dashboard/audit.py", "asyncz/contrib/dashboard/events.py", "asyncz/contrib/dashboard/logs/storage.py"],
      [("_upsert/_trim and the key index", "asyncz/contrib/dashboard/history.py:MemoryRunHistoryStorage"), ("append/_trim", "asyncz/contrib/dashboard/audit.py"),
       ("deque(maxlen)", "asyncz/contrib/dashboard/events.py"), ("buffer/mutex", "asyncz/contrib/dashboard/logs/storage.py")],
      "lockset dataflow plus path-sensitive typestate (growth, removal, bound check) over every method",
      """Containers, bounds and locks are read from the constructors. Indexes that move in step are shown inductively: each operation adds to and
      removes from all of them alike, with the same identity. The capacity is assumed to be a non-negative number.""",
      state=["shared"])
def c60(ctx):
    p = ctx.proj
    ctx.rule("guarded", "a store's containers are changed and scanned only with its lock held")
    ctx.rule("record-guarded", "fields of a stored record are written only with the store's lock held")
    ctx.rule("bounded", "after an entry is added the size is brought back to the maximum before the operation ends")
    ctx.rule("oldest-first", "what is dropped is the oldest entry")
    ctx.rule("in-step", "entries are added to, removed from and cleared in all indexes of a store together")
    ctx.rule("same-identity", "the identity used to drop an entry from an index is the one it was added under")
    shs = storages(p)
    for want in (HIST, AUDIT, EVENTS, LOGS):
        ctx.need(any(s.q == want for s in shs), f"storage class {want} not recognised")
    for sh in shs:
        q = sh.q
        nm = q.split(".")[-1]
        check_guarded(ctx, q, {a: sh.lock for a in sh.all}, {"__init__"}, "guarded", "guarded", iter_attrs=sh.all)
        recs, grows, rms = [], [], []
        for f in entries(p, q):
            cl = StoreRec(p, sh, cap=2)
            if not cl.rel.relevant(f):
                continue
            res, it = run(p, cl, f, self_cls=q)
            ctx.absorb(it)
            for i in cl.insts:
                if i.label.startswith("grow:"):
                    grows.append((f, i))
                elif i.label.startswith("rm:"):
                    rms.append((f, i))
            for st in [r[2] for r in res] + [x[1] for x in cl.iters]:
                s = seq(st)
                where = f.where
                for a in sh.open:
                    g, r = s.count("grow:" + a), s.count("rm:" + a)
                    if g:
                        last = len(s) - 1 - s[::-1].index("grow:" + a)
                        ok = "bound" in s[last:] or r >= g or "room" in s[:last]
                        ctx.ob("bounded", ok, f"{nm}.{f.name}", where, f"{a} grows without being brought back under the maximum", trace(st))
                for what in ("grow", "rm", "clear"):
                    n = {a: s.count(f"{what}:{a}") for a in sh.all}
                    if any(n.values()):
                        ctx.ob("in-step", len(set(n.values())) == 1, f"{nm}.{f.name}:{what}", where, f"{what} counts differ between the indexes of the store: {n}", trace(st))
        for a in sh.bounded:
            ctx.ob("bounded", True, f"{nm}.{a}", p.classes[q].methods["__init__"].where, "")
        # ---- record class and identities
        new = {x.a[0] for f, i in grows if i.value is not None for x in subterms(i.value) if x.k == "new" and x.a[0].startswith(D)}
        written = {}
        for cq in sorted(new & set(p.classes)):
            fields = {n.target.id for n in p.classes[cq].node.body if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name)}
            for f in entries(p, q):
                cl = Rec(p, [W("w", fields, when=lambda b, n, v, st: b.k != "self"), E("w", ["setattr"])], noinline_pred=lambda g: g.cls is None, seq=False)
                if not cl.rel.relevant(f):
                    continue
                res, it = run(p, cl, f, self_cls=q)
                ctx.absorb(it)
                for i in cl.insts:
                    if i.kind == "write":
                        written.setdefault(i.key, i)
                    held = any(h.rpartition(".")[2] == sh.lock for h in i.locks)
                    ctx.ob("record-guarded", held, f"{nm}.{i.func.name}", i.where, f"a {cq.split('.')[-1]} field is written without {sh.lock} (from {f.name}, held {i.locks})", list(i.stack))
        for f in sorted({x[0].name for x in grows}):
            for a in identities(ctx, p, sh, nm, [x for x in grows if x[0].name == f], [x for x in rms if x[0].name == f]):
                ctx.ob("same-identity", a not in written, f"{nm}:key-field:{a}", written[a].where if a in written else "", f"the record field {a}, from which an index key is recomputed, is rewritten after insertion")
    ctx.floor("guarded", 14)
    ctx.floor("bounded", 4)
    ctx.floor("in-step", 4)
    ctx.floor("oldest-first", 2)
    ctx.floor("record-guarded", 2)


def identities(ctx, p, sh, nm, grows, rms):
    used = set()          # record fields an index key is recomputed from
    if not sh.open:
        return used
    ordered = {}          # attr -> identities appended (ordering container)
    keyed = {}            # attr -> [(key, value)] mapping insertions
    for f, i in grows:
        a = i.label[5:]
        if i.op in ("append", "add", "insert", "appendleft", "extend"):
            ordered.setdefault(a, []).append((i, i.key if i.op != "insert" else i.value))
            if i.op in ("appendleft", "insert", "extendleft"):
                ctx.ob("oldest-first", False, f"{nm}:{a}", i.where, f"entries are added to the wrong end ({i.op})")
        elif i.op in ("[]=", "setdefault"):
            keyed.setdefault(a, []).append((i, i.key, i.value))
    ids = {t for v in ordered.values() for _, t in v}
    # insertion: the order and the records use one identity; another index maps its key to that identity
    for a, ins in keyed.items():
        for i, k, v in ins:
            if ids:
                ctx.ob("same-identity", k in ids or v in ids, f"{nm}:{a}:add", i.where, f"{a} is filled under {show(k)} -> {show(v)}, while the order records {', '.join(show(x) for x in ids)}")
    taken = {}
    for f, i in rms:
        a = i.label[3:]
        ff = fifo_removal(i, a)
        if a in ordered or not ordered:
            if ff is not None or a in ordered:
                ctx.ob("oldest-first", bool(ff), f"{nm}:{a}", i.where, f"{a} drops an entry that need not be the oldest ({i.op})")
                if i.call is not None:
                    taken[a] = True
        if a in keyed and i.key is not None and i.op in ("pop", "del"):
            k = i.key
            if any(removal_value(x, ordered) for x in subterms(k)) and removal_value(k, ordered):
                ok = any(kk in ids for _, kk, _ in keyed[a])
                ctx.ob("same-identity", ok, f"{nm}:{a}:drop", i.where, f"{a} is keyed by {', '.join(show(x) for _, x, _ in keyed[a])} but dropped by {show(k)}")
            else:
                # key derived from the dropped record: rewrite its fields back to what the record was built from
                back = rebuild(k, keyed)
                used.update(x.a[1] for x in subterms(k) if x.k == "attr" and x.a[0].k == "call")
                ok = back is None or any(back is kk for _, kk, _ in keyed[a])
                ctx.ob("same-identity", ok, f"{nm}:{a}:drop", i.where, f"{a} is keyed by {', '.join(show(x) for _, x, _ in keyed[a])} but dropped by {show(back) if back is not None else show(k)}")
    return used


def removal_value(t, ordered):
    return t.k == "call" and t.a[0].k == "attr" and t.a[0].a[1] in ("popleft", "pop") and t.a[0].a[0].k == "attr" and t.a[0].a[0].a[1] in ordered


def rebuild(t, keyed):
    """replace <dropped record>.field by the value the record is constructed with; None if unclear"""
    news = [v for ins in keyed.values() for _, _, v in ins if v is not None and v.k == "new"]
    if len(set(news)) != 1:
        return None
    kw = dict(news[0].a[2])

    def go(x):
        if not isinstance(x, T):
            return tuple(go(y) for y in x) if isinstance(x, tuple) else x
        if x.k == "attr" and x.a[0].k == "call" and x.a[0].a[0].k == "attr" and x.a[0].a[0].a[1] in ("pop", "get"):
            return kw.get(x.a[1]) or T("unk", "field", x.a[1])
        if x.k == "call":
            return T("call", x.a[0], go(x.a[1]), go(x.a[2]), *x.a[3:])
        return T(x.k, *[go(y) for y in x.a])
    r = go(t)

    def strip(x):
        if not isinstance(x, T):
            return tuple(strip(y) for y in x) if isinstance(x, tuple) else x
        if x.k == "call":
            return T("call", strip(x.a[0]), strip(x.a[1]), strip(x.a[2]))
        return T(x.k, *[strip(y) for y in x.a])
    r0 = strip(r)
    for ins in keyed.values():
        for _, k, _ in ins:
            if strip(k) is r0:
                return k
    return r


SUBMISSIONS = ("TASK_SUBMITTED", "TASK_MAX_INSTANCES")
EXECUTIONS = ("TASK_EXECUTED", "TASK_ERROR", "TASK_MISSED")


def sample_event(code):
    sub = code in SUBMISSIONS
    names = ["task_id", "store", "alias", "scheduler_identity"] + (["scheduled_run_times", "source", "coalesced_run_count"] if sub else ["scheduled_run_time", "return_value", "exception", "traceback"])
    return T("new", "asyncz.events.base." + ("TaskSubmissionEvent" if sub else "TaskExecutionEvent"), (), (("code", T("ref", EV + code)),) + tuple((n, T("p", "event." + n)) for n in names), ("sample", 0, 0))


FIELDS = ["status", "finished_at", "return_value", "exception", "exception_type", "exception_message", "traceback"]


class Firing(Rec):
    """registers a listener and lets one event of the given code reach it at once"""
    def __init__(self, p, code, events=()):
        super().__init__(p, [E("add_listener", ["add_listener"]), M(lambda op, k, v: "", ["_records", "_key_index", "_order"]),
                             W(lambda b, n, v: "w:" + n if n in ("status", "finished_at") or code in EXECUTIONS else "", FIELDS, when=lambda b, n, v, st: b.k != "self")] + list(events), cap=3)
        self.event = sample_event(code)
        self.iter_of = lambda it: any(x.k == "p" and x.a[0] == "event.scheduled_run_times" for x in subterms(it))
        self.code = code

    def inline(self, f, c):
        if f.cls is None and f.parent is None and not self.rel.relevant(f) and not (c is not None and len(c.stack) <= 1 and self.rel.is_part(f)):
            if not any(x.k == "ref" and x.a[0].startswith(EV) for a in list(c.args) + [v for _, v in c.kw] for x in subterms(a)):
                return False
        return super().inline(f, c)

    def type_of(self, t):
        if t.k == "call" and t.a[0].k in ("func", "ref"):
            f = self.p.functions.get(t.a[0].a[0])
            if f is not None and f.node.returns is not None:
                d = dotted(f.node.returns)
                q = self.p.resolve(f.module, d) if d else None
                if q in self.p.classes:
                    return q
        return super().type_of(t)

    def call(self, c, st):
        if c.name == "add_listener":
            self.record("add_listener", "call", st, c.node, c.func, call=c, base=c.recv, stack=c.stack)
            cb = c.arg(0, "callback")
            return self.invoke(c, cb, [self.event], self.add(st, "add_listener"))
        return super().call(c, st)

    def sub_write(self, base, key, value, st, node, fr):
        if base.k == "ref" and fr.func.module.name == base.a[0].rpartition(".")[0]:
            self.record("registry", "sub", st, node, fr.func, base=base, key=key, value=value, op="[]=", stack=fr.stack)
            return self.add(st, "registry")
        return super().sub_write(base, key, value, st, node, fr)


EXPECTED = {"TASK_SUBMITTED": "running", "TASK_MAX_INSTANCES": "max_instances", "TASK_EXECUTED": "succeeded", "TASK_ERROR": "failed", "TASK_MISSED": "missed"}
FINAL = {"succeeded", "failed", "missed", "max_instances"}


def unsited(x):
    """the term without call sites"""
    if not isinstance(x, T):
        return tuple(unsited(y) for y in x) if isinstance(x, tuple) else frozenset(unsited(y) for y in x) if isinstance(x, frozenset) else x
    if x.k in ("call", "new"):
        return T(x.k, *[unsited(y) for y in x.a[:3]])
    return T(x.k, *[unsited(y) for y in x.a])


def replace(t, old, new):
    if t is old:
        return new
    if isinstance(t, tuple):
        return tuple(replace(x, old, new) for x in t)
    if isinstance(t, frozenset):
        return frozenset(replace(x, old, new) for x in t)
    if not isinstance(t, T):
        return t
    return T(t.k, *[replace(x, old, new) for x in t.a])


def terminal(st, is_status, consts):
    """True / False / None: is the status (terms accepted by is_status) known to be one of the final ones"""
    no = set()
    for k, ts, v in st.facts:
        if k == "in" and is_status(ts[0]):
            vals = consts(ts[1])
            if vals and v and vals <= FINAL:
                return True
            if vals and not v:
                no |= vals
            if vals and v and not vals & FINAL:
                return False
        if k == "eq" and is_status(ts[0]) and ts[1].k == "const":
            if v:
                return ts[1].a[0] in FINAL
            no.add(ts[1].a[0])
    return False if FINAL <= no else None


@prop("C61", "Every run record tells what really happened to that run",
      """For every scheduled run there is one history record, found again under the same identity when the run is submitted and when it
      ends. Its final status is succeeded, failed or missed exactly as the execution event says (or max_instances when the run was skipped),
      with that event's return value, exception and traceback and a finishing time, and a submission notice that arrives late never reopens a
      record that is already final.""",
      ["schedules", "histories"],
      "every event code, every order in which submission and execution events of a run arrive, every known or unknown run",
      "the executor reports completion from another thread, so the execution event may overtake the submission event; tests feed them in order",
      ["asyncz/contrib/dashboard/history.py"],
      [("record_submission", "asyncz/contrib/dashboard/history.py"), ("record_execution", "asyncz/contrib/dashboard/history.py"), ("_upsert and the run key", "asyncz/contrib/dashboard/history.py")],
      "path-sensitive value-flow analysis: each event kind is pushed symbolically through the registered listener",
      """The listener the installer registers is analysed with an event of each code and otherwise unknown fields; every path must write the status
      that code stands for. Keys of the two reporting paths are compared as terms. Formatting helpers (repr, str) are opaque.""",
      state=["shared"])
def c61(ctx):
    p = ctx.proj
    ctx.rule("status", "the status written is the one the event code stands for, on every path")
    ctx.rule("no-reopen", "a submission changes the status only of a record that is not final")
    ctx.rule("outcome-fields", "return value, exception, traceback and finishing time come from the execution event")
    ctx.rule("one-record", "a record is created only when none exists under the run's key")
    ctx.rule("same-key", "submission and execution of a run use the same key")
    keys = {}

    def consts(t):
        v = folded(p, t)
        return set(v) if isinstance(v, (tuple, frozenset, dict)) else None
    for code in SUBMISSIONS + EXECUTIONS:
        cl = Firing(p, code)

        def final(lit, st, node, fr):
            kind, ts, val = lit
            if kind == "in" and val and ts[0].k == "attr" and ts[0].a[1] == "status" and (consts(ts[1]) or {0}) <= FINAL:
                return cl.add(st, "final")
            if kind == "eq" and val and ts[0].k == "attr" and ts[0].a[1] == "status" and ts[1].k == "const" and ts[1].a[0] in FINAL:
                return cl.add(st, "final")
            if mentions_index(ts) and (kind == "is" and ts[1] is NONE and val or kind in ("in", "truth") and not val):
                return cl.add(st, "absent")
            return st
        cl.assume_hook = final
        res, it = run(p, cl, D + "history.install_run_history_listener", args={"storage": T("p", "storage"), "log_storage": NONE})
        ctx.absorb(it)
        want = EXPECTED[code]
        status = [i for i in cl.insts if i.kind == "write" and i.key == "status"]
        for i in status:
            ctx.ob("status", i.value is const(want), f"{code}:{i.func.name}", i.where, f"an event {code} sets the status to {show(i.value)}, not {want!r}", list(i.stack))
        ctx.ob("status", bool(status), f"{code}", "", f"no status is ever written for {code}")
        if code in EXECUTIONS:
            for kind, pl, st in res:
                s = seq(st)
                if kind == "return":
                    for fl in FIELDS:
                        ctx.ob("status" if fl == "status" else "outcome-fields", "w:" + fl in s, f"{code}:{fl}:written", "asyncz/contrib/dashboard/history.py", f"a path records {code} without setting {fl}", trace(st))
            for i in cl.insts:
                if i.kind != "write":
                    continue
                src = {"return_value": "event.return_value", "traceback": "event.traceback"}.get(i.key, "event.exception" if i.key.startswith("exception") else None)
                if src:
                    got = {x.a[0] for x in subterms(i.value) if x.k == "p" and x.a[0].startswith("event.")}
                    none = i.value is NONE and fact(i.st, "is", lambda ts: ts == (T("p", src), NONE)) is True
                    ctx.ob("outcome-fields", got == {src} or none, f"{code}:{i.key}", i.where, f"{i.key} is set from {show(i.value)}")
                elif i.key == "finished_at":
                    ctx.ob("outcome-fields", i.value is not NONE, f"{code}:{i.key}", i.where, "the finishing time is left unset")
        else:
            for i in status:
                is_status = lambda t: t.k == "attr" and t.a[1] == "status"
                ctx.ob("no-reopen", terminal(i.st, is_status, consts) is False, f"{code}:{i.func.name}", i.where, "the status is overwritten although the record may already be final", list(i.stack))
            for i in cl.insts:
                if i.kind == "write" and i.key == "finished_at" and code == "TASK_SUBMITTED":
                    ctx.ob("outcome-fields", i.value.k == "attr" and i.value.a[1] == "finished_at", f"{code}:finished_at", i.where, "a submission sets the finishing time")
            for itb, st, node, fn in cl.iters:
                s = seq(st)
                if code == "TASK_MAX_INSTANCES":
                    ctx.ob("outcome-fields", "w:finished_at" in s, f"{code}:finished_at:written", f"{fn.module.rel}:{node.lineno}", "a skipped run is never given a finishing time", trace(st))
                ok = "w:status" in s or "final" in s
                ctx.ob("status", ok, f"{code}:every-run", f"{fn.module.rel}:{node.lineno}", "a run of the event is not recorded", trace(st))
            ctx.ob("status", bool(cl.iters), f"{code}:loop", "", "the run times of the event are not visited")
        for i in cl.insts:
            if i.kind == "mut" and i.op in ("[]=", "setdefault") and i.call is None and i.key is not None:
                attr = grown_attr(i)
                if attr == "_key_index":
                    keys.setdefault(code in SUBMISSIONS, {})[unsited(replace(i.key, T("elem", T("p", "event.scheduled_run_times")), T("p", "event.scheduled_run_time")))] = i
                if attr in ("_key_index", "_records"):
                    ctx.ob("one-record", "absent" in i.seq, f"{attr}:{code in SUBMISSIONS and 'submission' or 'execution'}", i.where, "a record is created without having found that none exists", list(i.stack))
    ctx.ob("same-key", set(keys.get(True, ())) == set(keys.get(False, ())) and len(keys.get(True, ())) == 1, "run key", "asyncz/contrib/dashboard/history.py",
           f"submission key {[show(k, 9) for k in keys.get(True, ())]} / execution key {[show(k, 9) for k in keys.get(False, ())]}")
    for ks in keys.values():
        for k in ks:
            got = {x.a[0] for x in subterms(k) if x.k == "p" and x.a[0].startswith("event.")}
            ctx.ob("same-key", {"event.task_id", "event.store", "event.scheduled_run_time"} <= got, "key fields", "asyncz/contrib/dashboard/history.py", f"the key does not tell apart task, store and run time: {show(k, 9)}")
            for fn in sorted({x.a[0].a[0] for x in subterms(k) if x.k == "call" and x.a[0].k in ("func", "ref") and x.a[0].a[0] in p.functions}):
                # the helpers that build the key may not drop any of its parts
                f = p.functions[fn]
                res, it = run(p, Rec(p, []), f)
                ctx.absorb(it)
                for kind, pl, st in res:
                    if kind != "return":
                        continue
                    for a in f.node.args.args + f.node.args.kwonlyargs:
                        t = T("p", a.arg)
                        ok = contains(pl, t) or fact(st, "is", lambda ts: ts == (t, NONE)) is True or fact(st, "truth", lambda ts: ts == (t,)) is False
                        ctx.ob("same-key", ok, f"{f.name}:{a.arg}", f.where, f"{f.name} drops {a.arg}: {show(pl, 9)}")
    ctx.floor("status", 12)
    ctx.floor("outcome-fields", 15)
    ctx.floor("no-reopen", 2)
    ctx.floor("one-record", 2)


def mentions_index(ts):
    return any(x.k == "attr" and x.a[1] in ("_key_index", "_records") for t in ts for x in subterms(t))


def grown_attr(i):
    for n in ast.walk(i.node):
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute):
            return n.value.attr
    return None


INSTALLERS = [(D + "history.install_run_history_listener", SUBMISSIONS + EXECUTIONS), (D + "events.install_scheduler_event_listener", None)]


@prop("C62", "Dashboard listeners see every relevant event exactly once",
      """However often a dashboard is attached to a scheduler, exactly one history listener and one event-log listener stay registered for it:
      attaching again first takes away the one installed before and remembers the new one. The registration covers every event code the
      listener records, and each event of such a code is recorded exactly once.""",
      ["histories", "inputs"],
      "any number of attachments to any number of schedulers, every event code",
      "a duplicate registration shows only when the same scheduler is attached twice, and a missing mask bit only for that one event code",
      ["asyncz/contrib/dashboard/history.py", "asyncz/contrib/dashboard/events.py"],
      [("install_run_history_listener", "asyncz/contrib/dashboard/history.py"), ("install_scheduler_event_listener", "asyncz/contrib/dashboard/events.py")],
      "typestate and value-flow analysis of the installers and of the closures they register, with constant folding of the masks",
      "Identity is established by the weak reference kept for the scheduler; removal that fails because the listener is already gone is allowed.",
      state=["shared"])
def c62(ctx):
    p = ctx.proj
    ctx.rule("replace", "a listener installed earlier for the same scheduler is removed before the new one is added")
    ctx.rule("remember", "the listener that was added is the one remembered under the scheduler's identity, with a reference to the scheduler")
    ctx.rule("one-registration", "each attachment registers exactly one listener")
    ctx.rule("mask", "the registration mask covers every code the listener records")
    ctx.rule("recorded-once", "an event reaching the listener is recorded exactly once, whole")
    for q, codes in INSTALLERS:
        f = p.functions.get(q)
        ctx.need(f is not None, f"{q} not found")
        nm = f.name
        cl = Installer(p)
        res, it = run(p, cl, f, args={"storage": T("p", "storage"), "log_storage": NONE})
        ctx.absorb(it)
        for kind, pl, st in res:
            if kind != "return":
                continue
            s = seq(st)
            ctx.ob("one-registration", s.count("add") == 1, nm, f.where, f"{s.count('add')} listeners registered", trace(st))
            ctx.ob("remember", s.count("registry") == 1, nm, f.where, "the registered listener is not remembered", trace(st))
            alive, known = None, None
            for k, ts, v in st.facts:
                if k == "is" and ts[1] is NONE and from_registry(ts[0]) and not any(x.k == "idx" for x in subterms(ts[0])):
                    known = not v
                if k == "truth" and from_registry(ts[0]):
                    known = v
                if k == "is" and T("p", "scheduler") in ts and any(from_registry(x) for x in ts):
                    alive = v
            if known is not False and alive is not False:
                first = min([s.index(x) for x in ("remove", "remove!") if x in s], default=len(s))
                ctx.ob("replace", first < (s.index("add") if "add" in s else -1), nm, f.where, "the listener installed before is not removed before the new one is added", trace(st))
        added = [i for i in cl.insts if i.label == "add"]
        for i in added:
            ctx.ob("one-registration", i.call.recv is T("p", "scheduler"), nm + ":scheduler", i.where, f"registered on {show(i.call.recv)}")
        cbs = {i.call.arg(0, "callback") for i in added}
        for i in cl.insts:
            if i.label == "registry":
                refs = any(x.k in ("call", "new") and contains(x, T("p", "scheduler")) and "ref" in show(x) for x in subterms(i.value))
                cb = any(contains(i.value, c) for c in cbs if c is not None)
                key_ok = contains(i.key, T("p", "scheduler"))
                ctx.ob("remember", refs and cb and key_ok, nm + ":entry", i.where, f"remembered {show(i.key)} -> {show(i.value)}")
            if i.label == "remove":
                a = i.call.arg(0, "callback")
                ctx.ob("replace", i.call.recv is T("p", "scheduler") and from_registry(a), nm + ":removed", i.where, f"removes {show(a)} from {show(i.call.recv)}")
        for i in added:
            m = i.call.arg(1, "mask")
            mv = None if m is None else folded(p, m)
            if m is None:
                mv = -1      # the default mask listens to everything
            for c in codes or [k for k in all_codes(p)]:
                cv = folded(p, T("ref", EV + c))
                ctx.ob("mask", isinstance(mv, int) and isinstance(cv, int) and mv & cv == cv, f"{nm}:{c}", i.where, f"the mask {show(m) if m is not None else None} does not include {c}")
        for c in codes or ["TASK_ADDED", "TASK_SUBMITTED", "TASK_EXECUTED", "SCHEDULER_SHUTDOWN"]:
            fl = Once(p, c)
            res, it = run(p, fl, f, args={"storage": T("p", "storage"), "log_storage": NONE})
            ctx.absorb(it)
            for kind, pl, st in res:
                if kind == "return":
                    n = [x for x in seq(st) if x.startswith("record")]
                    ctx.ob("recorded-once", len(n) == 1, f"{nm}:{c}", f.where, f"an event {c} is recorded {len(n)} times", trace(st))
            for i in fl.insts:
                if i.label.startswith("record"):
                    ctx.ob("recorded-once", fl.event in list(i.call.args) + [v for _, v in i.call.kw], f"{nm}:{c}:event", i.where, "what is recorded is not the event itself")
                    if codes is not None:
                        good = "submission" if c in SUBMISSIONS else "execution"
                        ctx.ob("recorded-once", good in i.label, f"{nm}:{c}:kind", i.where, f"an event {c} is recorded by {i.label}")
    ctx.floor("mask", 10)
    ctx.floor("recorded-once", 9)
    ctx.floor("replace", 2)
    ctx.floor("remember", 2)


def all_codes(p):
    m = p.modules.get("asyncz.events.constants")
    return [k for k in m.assigns if (k.startswith(("TASK_", "SCHEDULER_", "STORE_", "EXECUTOR_", "ALL_TASKS_"))) and isinstance(folded(p, T("ref", EV + k)), int)]


def from_registry(t):
    return any(x.k == "ref" and x.a[0].startswith(D) and "istener" in x.a[0] and not x.a[0].endswith("_listener") for x in subterms(t)) or any(x.k == "call" and x.a[0].k == "attr" and x.a[0].a[0].k == "ref" and x.a[0].a[0].a[0].startswith(D) for x in subterms(t))


class Installer(Rec):
    def __init__(self, p):
        super().__init__(p, [E("add", ["add_listener"]), E("remove", ["remove_listener"], raises=(EXC,))], cap=2)

    sub_write = Firing.sub_write


class Once(Firing):
    """how often an event reaching the registered listener is recorded"""
    def __init__(self, p, code):
        Rec.__init__(self, p, [E("add_listener", ["add_listener"]), E(lambda c: "record:" + c.name, ["record_submission", "record_execution", "append", "add_event"], when=lambda c: self.holder(c))], cap=2)
        self.event = sample_event(code) if code in SUBMISSIONS + EXECUTIONS else T("new", "asyncz.events.base." + ("TaskEvent" if code.startswith("TASK") else "SchedulerEvent"), (), (("code", T("ref", EV + code)), ("alias", T("p", "event.alias"))), ("sample", 0, 0))

    def holder(self, c):
        """is the receiver the storage"""
        r = c.recv
        return r is not None and r.k != "attr" and r.k not in ("newlist", "list")


def order_of(t, up=None):
    """'new' / 'old' first: the order in which iterating the term visits stored entries; None if unknown"""
    flip = {"new": "old", "old": "new", None: None}
    if t.k == "attr":
        return "old" if t.a[0].k == "self" else None
    if t.k == "phi":
        got = {order_of(x) for x in t.a[0]}
        return got.pop() if len(got) == 1 else None
    if t.k == "comp":
        return order_of(t.a[2][0]) if t.a[2] else None
    if t.k == "call" and t.a[0].k == "ref":
        n = t.a[0].a[0].split(".")[-1]
        if n in ("list", "tuple", "iter", "enumerate", "islice", "deque", "filter") and t.a[1]:
            return order_of(t.a[1][-1] if n == "filter" else t.a[1][0])
        if n == "reversed" and t.a[1]:
            return flip[order_of(t.a[1][0])]
        if n == "sorted" and t.a[1]:
            rev = dict(t.a[2]).get("reverse", FALSE)
            return "new" if rev is TRUE else "old" if rev is FALSE else None
    if t.k == "call" and t.a[0].k == "attr" and t.a[0].a[1] in ("values", "copy", "items", "keys"):
        return order_of(t.a[0].a[0])
    if t.k == "idx" and t.a[1].k == "slice":
        step = t.a[1].a[0][2]
        o = order_of(t.a[0])
        return flip[o] if step is const(-1) else o if step is NONE else None
    if t.k in ("copyof", "elem"):
        return order_of(t.a[0])
    if t.k == "newlist":
        return "new"             # the result itself: filled by append from a newest-first loop (both are checked)
    return None


class Query(Rec):
    """which entries a query takes, leaves out, and how it stops"""
    def __init__(self, p, params):
        super().__init__(p, [E("take", ["append", "insert", "appendleft"], when=lambda c: c.recv is not None and c.recv.k in ("newlist", "list")),
                             E(self.reordered, ["reverse", "sort"], when=lambda c: c.recv is not None)], cap=2, inline_all=True)
        self.moved = {}
        self.sorts = set()
        self.params = params
        self.assume_hook = self.hook
        self.iter_of = lambda it: it.k != "newlist" and order_of(it) is not None
        self.order = {}
        self.nested = {}         # mapping-valued entry fields and the keys looked up in them

    def reordered(self, c):
        """label of an in-place reverse() or sort()"""
        n = len(self.moved)
        lab = f"moved:{n}"
        kw = dict(c.kw)
        if c.name == "sort":
            rev = kw.get("reverse", FALSE)
            self.sorts.add(T("call", T("ref", "builtins.sorted"), (c.recv,), tuple(sorted(kw.items()))))
            self.moved[lab] = (c.recv, "new" if rev is TRUE else "old" if rev is FALSE else None)
        else:
            self.moved[lab] = (c.recv, "flip")
        return lab

    def order_in(self, t, st):
        o = order_of(t)
        for lab in seq(st):
            if lab in self.moved and self.moved[lab][0] is t:
                k = self.moved[lab][1]
                o = {"new": "old", "old": "new", None: None}[o] if k == "flip" else k
        return o

    def given(self, t):
        return {x.a[0] for x in subterms(t) if x.k == "p" and x.a[0] in self.params}

    @staticmethod
    def entry(t):
        """attributes of the visited entry the term is made of"""
        out = set()
        for x in subterms(t):
            if x.k == "attr" and x.a[0].k in ("elem", "val", "idx") :
                out.add(x.a[1])
            if x.k == "call" and x.a[0].k == "attr" and x.a[0].a[1] == "get" and x.a[1] and x.a[1][0].k == "const":
                out.add(x.a[1][0].a[0])
        return out

    def relation(self, kind, ts, val):
        """(parameter, matched?) a literal about a filter and the entry says"""
        if kind == "truth":
            return None
        a, b = ts
        ga, gb, ea, eb = self.given(a), self.given(b), self.entry(a), self.entry(b)
        if kind in ("eq", "is") and (ga and eb or gb and ea):
            n = next(iter(ga or gb))
            if n in (ea | eb):
                return n, val
        if kind == "in" and ga and eb:
            return next(iter(ga)), val
        if kind == "lt":
            if ea and gb == {"since"}:
                return "since", not val
            if eb and ga == {"until"}:
                return "until", not val
        return None

    def hook(self, lit, st, node, fr):
        kind, ts, val = lit
        if kind == "truth" and not val and ts[0].k == "attr" and self.entry(ts[0]) == {ts[0].a[1]}:
            return self.add(st, "lacks:" + ts[0].a[1])
        for x in (y for t in ts for y in subterms(t)):
            if x.k == "call" and x.a[0].k == "attr" and x.a[0].a[1] == "get" and x.a[1] and x.a[1][0].k == "const" and x.a[0].a[0].k == "attr":
                self.nested.setdefault(x.a[0].a[0].a[1], set()).add(x.a[1][0].a[0])
        r = self.relation(kind, ts, val)
        if r and not r[1]:
            return self.add(st, "no:" + r[0])
        if kind == "lt":
            a, b = ts
            if is_len(a) and self.given(b) == {"limit"}:
                return self.add(st, "below" if val else "reached")
            if is_len(b) and self.given(a) == {"limit"}:
                return st if val else self.add(st, "atmost")
        if kind == "eq" and is_len(ts[0]) and self.given(ts[1]) == {"limit"}:
            return self.add(st, "reached" if val else "below")
        return st

    def on_loop(self, kind, it, st, node, fr):
        if isinstance(node, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)) and not any(g.ifs for g in node.generators):
            return st            # maps entries one to one: leaves nothing out
        if kind == "iter" and self.iter_of(it):
            self.order.setdefault(id(node), (it, self.order_in(it, st)))
        if kind == "break" and self.iter_of(it):
            st = self.add(st, "broke")
        return super().on_loop(kind, it, st, node, fr)

    def on_elt(self, terms, st, node, fr):
        if (isinstance(node, ast.Call) or any(g.ifs for g in node.generators)) and len(terms) == 1 and terms[0].k in ("elem", "val", "idx"):
            self.record("take", "elt", st, node, fr.func, key=terms[0], stack=fr.stack)
            st = self.add(st, "take")
        return st

    def on_skip(self, it, st, node, fr):
        if order_of(it) is not None:
            self.iters.append((it, st, node, fr.func))


def is_len(t):
    return t.k == "call" and t.a[0].k == "ref" and t.a[0].a[0] == "builtins.len"


@prop("C63", "Dashboard queries return exactly the matching entries, newest first",
      """A query on the run history, the audit trail, the scheduler events or the task logs returns every stored entry that satisfies all the
      filters that were given, and only those, ordered from newest to oldest, and stops at the requested limit (at least one). A time window
      includes its two bounds, and a filter that is empty or absent excludes nothing.""",
      ["inputs"],
      "every combination of filters, every stored content, every limit from one up",
      "the filters combine freely (up to seven on one query); tests try one or two at a time on a few entries",
      ["asyncz/contrib/dashboard/history.py", "asyncz/contrib/dashboard/audit.py", "asyncz/contrib/dashboard/events.py", "asyncz/contrib/dashboard/logs/storage.py"],
      [("query", "asyncz/contrib/dashboard/history.py"), ("query", "asyncz/contrib/dashboard/audit.py"), ("query", "asyncz/contrib/dashboard/events.py"), ("query", "asyncz/contrib/dashboard/logs/storage.py")],
      "path-sensitive analysis of the filter loop with all filters symbolic (each taken or skipped entry is justified by path facts)",
      """Every path through the loop body is enumerated. A status-like filter must be compared with the entry's field of the same name; what the free-text
      needle is searched in is not judged beyond being made of the entry's fields.""")
def c63(ctx):
    p = ctx.proj
    ctx.rule("only-matching", "an entry is taken only when every filter is absent or satisfied by it")
    ctx.rule("all-matching", "an entry is left out only because it fails a filter")
    ctx.rule("newest-first", "entries are visited from newest to oldest and kept in that order")
    ctx.rule("limit", "no more entries than the limit are taken")
    n = 0
    for sh in storages(p):
        f = p.classes[sh.q].methods.get("query")
        if f is None:
            continue
        n += 1
        nm = sh.q.split(".")[-1]
        params = [a.arg for a in f.node.args.kwonlyargs + f.node.args.args if a.arg != "self"]
        filters = [x for x in params if x != "limit"]
        cl = Query(p, params)
        res, it = run(p, cl, f, self_cls=sh.q, max_states=4000)
        ctx.absorb(it)
        takes = [i for i in cl.insts if i.label == "take" and (i.kind == "elt" or i.call.args)]
        for i in takes:
            for P in filters:
                ok = False
                for k, ts, v in i.st.facts:
                    if k == "truth" and cl.given(ts[0]) == {P} and not cl.entry(ts[0]) and not v:
                        ok = True
                    if k == "is" and ts[1] is NONE and cl.given(ts[0]) == {P} and v:
                        ok = True
                    r = cl.relation(k, ts, v)
                    if r == (P, True):
                        ok = True
                ctx.ob("only-matching", ok, f"{nm}:{P}", i.where, f"an entry is taken although the filter {P} is neither absent nor known to match")
            if i.kind == "call":
                ctx.ob("newest-first", i.call.name == "append", f"{nm}:append", i.where, f"entries are added with {i.call.name}")
        ctx.ob("only-matching", bool(takes), f"{nm}:takes", f.where, "no entry is ever taken")
        for itb, st, node, fn in cl.iters:
            s = seq(st)
            w = f"{fn.module.rel}:{node.lineno}"
            ctx.ob("all-matching", "broke" not in s or "reached" in s, nm + ":stop", w, "the search stops before the limit is reached", trace(st))
            if "take" not in s:
                lacks = any(x.startswith("lacks:") and any(k == "truth" and v and cl.given(ts[0]) & cl.nested.get(x[6:], set()) for k, ts, v in st.facts) for x in s)
                ctx.ob("all-matching", lacks or any(x.startswith("no:") for x in s) or "reached" in s or "atmost" in s, nm, w, "an entry is left out although it fails no filter", trace(st) + [f"{k} {show(ts)} {v}" for k, ts, v in st.facts])
            else:
                ctx.ob("all-matching", True, nm, w)
                sliced = all(cut(pl, cl) for k, pl, _ in res if k == "return")
                ctx.ob("limit", "below" in s or "reached" in s or sliced, nm, w, "an entry is taken without comparing the number of entries with the limit", trace(st))
        for _, (itb, o) in sorted(cl.order.items()):
            ctx.ob("newest-first", o == "new", f"{nm}:order", f.where, f"entries are visited in the order of {show(itb)}")
        for kind, pl, st in res:
            if kind == "return":
                if pl.k in ("newlist", "list"):
                    ctx.ob("newest-first", True, f"{nm}:result", f.where)
                else:
                    ctx.ob("newest-first", cl.order_in(pl, st) == "new", f"{nm}:result", f.where, f"returns {show(pl)}")
                    ctx.ob("limit", cut(pl, cl), nm + ":result", f.where, f"the result is not cut at the limit: {show(pl)}")
        for n2 in sorted_calls(cl):
            ks = {a for a in attrs_of_key(p, it, dict(n2.a[2]).get("key"))}
            ctx.ob("newest-first", ks is not None and bool(ks) and all(a.endswith("_at") or a == "ts" for a in ks), f"{nm}:sort-key", f.where, f"entries are sorted by {sorted(ks)}")
    ctx.need(n >= 4, "query methods not found")
    ctx.floor("only-matching", 18)
    ctx.floor("all-matching", 4)
    ctx.floor("newest-first", 4)


def cut(pl, cl):
    """is the result cut at the limit"""
    if pl.k == "idx" and pl.a[1].k == "slice":
        return cl.given(pl.a[1].a[0][1]) == {"limit"}
    if pl.k == "call" and pl.a[0].k == "ref":
        n = pl.a[0].a[0].split(".")[-1]
        if n == "islice" and len(pl.a[1]) == 2:
            return cl.given(pl.a[1][1]) == {"limit"}
        if n in ("list", "tuple") and pl.a[1]:
            return cut(pl.a[1][0], cl)
    return False


def sorted_calls(cl):
    return cl.sorts | {x for t, _ in cl.order.values() for x in subterms(t) if x.k == "call" and x.a[0].k == "ref" and x.a[0].a[0] == "builtins.sorted"}


def attrs_of_key(p, it, key):
    """entry attributes a sort key is made of"""
    if key is None:
        return {"<the entry itself>"}
    if key.k == "closure":
        return attrs_of_arg(p, it.closures[key][0])
    if key.k in ("func", "ref"):
        f = p.functions.get(key.a[0])
        if f is not None:
            return attrs_of_arg(p, f.node)
    if key.k in ("call", "new") and "attrgetter" in show(key) and key.a[1] and key.a[1][0].k == "const":
        return {key.a[1][0].a[0]}
    return {"<unknown>"}


def attrs_of_arg(p, node, depth=0):
    """attributes read from a function's argument, in it or in a function of the same name scope it hands the argument to"""
    arg = [a.arg for a in node.args.args if a.arg != "self"][0]
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == arg:
            out.add(n.attr)
        if isinstance(n, ast.Call) and depth < 3 and any(isinstance(a, ast.Name) and a.id == arg for a in n.args):
            name = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else None
            for f in p.functions.values():
                if f.name == name and isinstance(f.node, (ast.FunctionDef, ast.Lambda)):
                    out |= attrs_of_arg(p, f.node, depth + 1)
    return out
