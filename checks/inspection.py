"""C37, C38: inspecting tasks and schedulers."""
import ast

from sa.effects import Effects
from sa.report import prop

from ._common import *
from .tasks import model_fields, names_in

B = "asyncz.schedulers.base."
TASK = "asyncz.tasks.base.Task"
BT = "asyncz.triggers.base.BaseTrigger"
BST = "asyncz.stores.base.BaseStore"
READS = ("get_tasks", "get_task", "get_task_info", "get_task_infos", "preview_task_runs", "get_scheduler_info", "get_scheduler_instance_infos")
CHANGING = {"add_task", "create_task", "update_task", "delete_task", "remove_all_tasks", "pause_task", "resume_task", "reschedule_task", "run_task", "start", "shutdown",
            "dispatch_event", "send_task", "wakeup", "add_store", "remove_store", "add_executor", "remove_executor", "process_tasks", "process_due_tasks", "add_listener", "remove_listener",
            "delete", "pause", "resume", "reschedule", "update", "real_add_task"}
INFOS = ["asyncz.tasks.inspection.TaskInfo", "asyncz.tasks.inspection.TaskRunPreview", "asyncz.schedulers.inspection.SchedulerInfo", "asyncz.schedulers.inspection.SchedulerInstanceInfo"]


def effects(ctx, f, cls, **kw):
    p = ctx.proj
    an = Effects(p, skip=lambda q: q.startswith("asyncz.stores.") or q.startswith("asyncz.contrib.") or q.startswith("asyncz.cli."), **kw)
    es = an.of(f, cls)
    ctx.functions |= an.visited
    ctx.stat("functions_in_call_graph", len(an.visited))
    return es


def changing_call(e, p):
    return e.kind == "call"


@prop("C37", "Inspection never changes tasks, triggers, stores or the scheduler",
      """Listing or looking up tasks, task infos, run previews and scheduler infos changes no task, trigger, store, executor or scheduler setting
      and triggers no event; computing upcoming run times leaves the trigger and the task as they were. What is returned is detached: a
      new list, an immutable model, so changing it cannot affect the scheduler.""",
      ["inputs", "histories"],
      "every inspection method of every scheduler class, every trigger type's run-time computation, every store's listing methods",
      "a preview or listing that advances or alters state is invisible to a test that looks only at what is returned",
      ["asyncz/schedulers/base.py", "asyncz/tasks/types.py", "asyncz/tasks/base.py", "asyncz/tasks/inspection.py", "asyncz/schedulers/inspection.py", "asyncz/triggers/base.py", "asyncz/stores/memory.py"],
      [("BaseScheduler.get_*/preview_task_runs", "asyncz/schedulers/base.py"), ("TaskType.snapshot", "asyncz/tasks/types.py"), ("<Trigger>.get_next_trigger_time", "asyncz/triggers/*")],
      "interprocedural mod-set (side-effect) analysis with freshness of locally created objects",
      "The write effects of each entry are collected over the whole call graph, re-rooted at every call; writes to objects created on the way are dropped.",
      assumptions=["the heartbeat timestamp (last_seen_at) is not a setting", "third-party functions do not modify their arguments",
                   "what a store's own listing does is decided by the store properties (C25-C32)"])
def c37(ctx):
    p = ctx.proj
    ctx.rule("pure", "the call writes nothing that existed before it")
    ctx.rule("read-api", "stores are only read")
    ctx.rule("detached", "the result is new, not the internal container")
    ctx.rule("immutable", "inspection models are frozen")
    for cls in [S] + p.subclasses(S):
        for m in READS:
            f = p.method(cls, m)
            ctx.ob("pure", f is not None, f"{cls}.{m}", "asyncz/schedulers/base.py", "not implemented")
            if f is None or (cls != S and f.cls.qual == S and all(p.method(cls, x).cls.qual == S for x in READS) and False):
                continue
            bad = [e for e in effects(ctx, f, cls, calls=CHANGING) if not (e.root == "self" and e.name == "last_seen_at")]
            ctx.ob("pure", not [e for e in bad if e.kind != "call"], f"{cls.split('.')[-1]}.{m}", f.where, "; ".join(f"{e.kind} {e.name} of {e.root}" for e in bad if e.kind != "call"),
                   [f"{e.where}: " + " > ".join(e.chain) for e in bad if e.kind != "call"])
            ctx.ob("read-api", not [e for e in bad if e.kind == "call"], f"{cls.split('.')[-1]}.{m}", f.where, "calls " + ", ".join(e.name for e in bad if e.kind == "call"),
                   [f"{e.where}: " + " > ".join(e.chain) for e in bad if e.kind == "call"])
    for cls in [TASK] + p.subclasses(TASK):
        for m in ("snapshot", "schedule_state", "paused", "get_run_times", "__str__", "__repr__", "__eq__", "__getstate__"):
            f = p.method(cls, m)
            if f is None:
                continue
            bad = effects(ctx, f, cls, calls=CHANGING)
            ctx.ob("pure", not bad, f"{cls.split('.')[-1]}.{m}", f.where, "; ".join(f"{e.kind} {e.name} of {e.root}" for e in bad), [f"{e.where}: " + " > ".join(e.chain) for e in bad])
    for cls in p.subclasses(BT):
        for m in ("get_next_trigger_time", "__str__", "__repr__", "__getstate__"):
            f = p.method(cls, m)
            if f is None or not f.module.name.startswith("asyncz.triggers"):
                continue
            bad = effects(ctx, f, cls)
            ctx.ob("pure", not bad, f"{cls.split('.')[-1]}.{m}", f.where, "; ".join(f"{e.kind} {e.name} of {e.root}" for e in bad), [f"{e.where}: " + " > ".join(e.chain) for e in bad])
    from sa.effects import FuncEffects
    an = Effects(p)
    targets = [(S, "get_tasks"), (S, "get_task_infos")] + [(q, m) for q in [BST] + p.subclasses(BST) for m in ("get_all_tasks", "get_due_tasks")]
    for cls, m in targets:
        f = p.method(cls, m)
        if f is None or any(isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and len(f.node.body) == 1 for n in f.node.body) or f.has_decorator("abstractmethod"):
            continue
        fe = FuncEffects(an, f, cls)
        from sa.project import own_nodes
        rets = [n for n in own_nodes(f.node) if isinstance(n, ast.Return) and n.value is not None]
        for r in rets:
            bare = fe.roots(r.value)
            # a call of an own method that itself is checked, or a fresh value
            ok = not bare or isinstance(r.value, ast.Call)
            ctx.ob("detached", ok, f"{cls.split('.')[-1]}.{m}", f"{f.module.rel}:{r.lineno}", f"returns an object reachable from {sorted(bare)}")
    for q in INFOS:
        c = p.classes.get(q)
        ctx.ob("immutable", c is not None, q, "asyncz", "inspection model not found")
        if c is None:
            continue
        ctx.ob("immutable", frozen(p, q), c.name, f"{c.module.rel}:{c.node.lineno}", "the model is not frozen")
    ctx.floor("pure", 20)
    ctx.floor("detached", 4)


def frozen(p, q):
    for b in p.mro(q):
        c = p.classes.get(b)
        if c is None:
            continue
        for k in c.node.keywords:
            if k.arg == "frozen":
                return isinstance(k.value, ast.Constant) and k.value.value is True
        v = c.attrs.get("model_config")
        if v is not None:
            kws = {k.arg: k.value for k in v.keywords} if isinstance(v, ast.Call) else {k.value: x for k, x in zip(v.keys, v.values) if isinstance(k, ast.Constant)} if isinstance(v, ast.Dict) else {}
            x = kws.get("frozen")
            if x is not None:
                return isinstance(x, ast.Constant) and x.value is True
    return False


STATES = ("PENDING", "PAUSED", "SCHEDULED")
NEXT = T("p", "NEXT")
COPIED = ("id", "name", "executor", "store_alias", "next_run_time", "coalesce", "max_instances", "mistrigger_grace_time", "pending", "submitted")


def boolval(st, t, name, kind="truth"):
    for x in st.facts:
        a = x[1][0]
        if a.k == "attr" and a.a[1] == name and a.a[0].k == "self":
            if x[0] == "truth":
                return x[2]
            if x[0] in ("is", "eq") and x[1][1] is TRUE:
                return x[2]
            if x[0] in ("is", "eq") and x[1][1] is FALSE:
                return not x[2]
    return None


def noneval(st, name):
    for x in st.facts:
        a = x[1][0]
        if a.k == "attr" and a.a[1] == name and a.a[0].k == "self":
            if x[0] == "is" and x[1][1] is NONE:
                return x[2]
            if x[0] == "truth":
                return not x[2]
    return None


def refname(t):
    return t.a[0].split(".")[-1] if t is not None and t.k == "ref" else None


def boolterm(t):
    """constant truth of (A is B) between two named members"""
    if t is TRUE or t is FALSE:
        return t is TRUE
    if t.k == "cmp" and t.a[0] in ("is", "eq", "==", "Is", "Eq") and refname(t.a[1]) and refname(t.a[2]):
        return refname(t.a[1]) == refname(t.a[2])
    return None


@prop("C38", "Task infos, listings and previews report the real state of a task",
      """A task is reported pending while not committed to a running store, otherwise paused without and scheduled with a next run time; its info
      repeats the task's own id, name, executor, store, next run time and limits. Listing tasks returns the waiting tasks of a stopped
      scheduler and the tasks of the chosen stores otherwise, and a missing task is reported as none. A preview has between 1 and 50
      requested runs, never more than requested, and each follows from the previous one by the task's trigger.""",
      ["inputs", "histories"],
      "every task state, store filter, preview size and scheduler state",
      "each of these is a decision over combinations of state that samples only visit partly",
      ["asyncz/schedulers/base.py", "asyncz/tasks/types.py"],
      [("TaskType.schedule_state/paused/snapshot", "asyncz/tasks/types.py"), ("BaseScheduler.get_tasks/get_task/preview_task_runs", "asyncz/schedulers/base.py")],
      "path-sensitive decision tables by abstract interpretation",
      "All paths of the inspection functions are interpreted; outcome and branch facts are compared with the decision table.")
def c38(ctx):
    p = ctx.proj
    ctx.rule("state", "pending > paused (no next run) > scheduled")
    ctx.rule("copied", "info fields are the task's own")
    ctx.rule("listed", "the right tasks are listed")
    ctx.rule("lookup", "a missing task is None, other errors pass")
    ctx.rule("preview", "bounded chain of run times")
    for m in ("schedule_state", "paused"):
        f = p.method(TASK, m)
        res, it = run(p, Rec(p, []), f, self_cls=TASK)
        ctx.absorb(it)
        for k, pl, st in res:
            pen, none = boolval(st, None, "pending"), noneval(st, "next_run_time")
            want = "PENDING" if pen else "PAUSED" if none else "SCHEDULED"
            if m == "schedule_state":
                ok = k == "return" and refname(pl) == want and pen is not None and (pen or none is not None)
                ctx.ob("state", ok, m, f.where, f"pending={pen}, no next run={none}: {show(pl) if k == 'return' else pl}")
            else:
                b = boolterm(pl) if k == "return" else None
                if b is None and k == "return" and pl.k in ("cmp", "and"):
                    continue
                ok = k == "return" and (b is (want == "PAUSED"))
                ctx.ob("state", ok, m, f.where, f"pending={pen}, no next run={none}: {show(pl) if k == 'return' else pl}")
    f = p.method(TASK, "snapshot")
    res, it = run(p, Rec(p, [], stop={"get_callable_name"}), f, self_cls=TASK)
    ctx.absorb(it)
    me = T("self", TASK)
    for k, pl, st in res:
        ok = k == "return" and pl.k == "new" and pl.a[0].endswith("TaskInfo")
        ctx.ob("copied", ok, "snapshot", f.where, f"{k} {show(pl) if k == 'return' else pl.cls}")
        if not ok:
            continue
        for fld in COPIED:
            v = new_kw(pl, fld)
            ctx.ob("copied", v is T("attr", me, fld), f"snapshot:{fld}", f.where, f"{fld} reported as {show(v) if v is not None else 'nothing'}")
        for fld in ("args", "kwargs"):
            v = new_kw(pl, fld)
            ctx.ob("copied", v is not None and contains(v, T("attr", me, fld)), f"snapshot:{fld}", f.where, f"{fld} reported as {show(v) if v is not None else 'nothing'}")
        pen, none = boolval(st, None, "pending"), noneval(st, "next_run_time")
        v = new_kw(pl, "schedule_state")
        want = "PENDING" if pen else "PAUSED" if none else "SCHEDULED"
        ctx.ob("copied", v is not None and (refname(v) == want or v.k in ("attr", "call")), "snapshot:schedule_state", f.where, f"reported as {show(v) if v is not None else 'nothing'}")
        v = new_kw(pl, "paused")
        b = boolterm(v) if v is not None else None
        ctx.ob("copied", v is not None and (b is (want == "PAUSED") or b is None), "snapshot:paused", f.where, f"paused reported as {show(v) if v is not None else 'nothing'} for {want}")
    # ---- listing
    f = p.method(S, "get_tasks")
    sp = T("p", [a.arg for a in f.node.args.args if a.arg != "self"][0])
    cl = Rec(p, [E("all", "get_all_tasks"), E("put", ["append", "extend", "insert"])], cap=3)
    cl.iter_rel = True
    res, it = run(p, cl, f, self_cls=S)
    ctx.absorb(it)
    sources = {"pending_tasks": 0, "stores": 0}
    for itm, st, node, fn in cl.iters:
        if itm is None:
            continue
        src = next((a for a in sources if contains(itm, T("attr", T("self", S), a))), None)
        if src is None:
            continue
        sources[src] += 1
        stopped = state_is(st, "STATE_STOPPED")
        ctx.ob("listed", stopped is (src == "pending_tasks"), f"get_tasks:{src}", f"{fn.module.rel}:{node.lineno}", f"{src} listed while stopped={stopped}", trace(st))
        anyst = is_none_fact(st, sp)
        hit = matches(st, sp, src)
        want = anyst is True or hit is True
        if anyst is None and hit is None:
            want = True
        got = "put" in seq(st)
        ctx.ob("listed", got == want, f"get_tasks:{src}:filter", f"{fn.module.rel}:{node.lineno}", f"no store asked={anyst}, store matches={hit}: task {'listed' if got else 'omitted'}", trace(st))
    vals = [pl for k, pl, st in res if k == "return"] + [v for k, pl, st in res for v in st.heap.values()] + [a for i in cl.insts if i.label == "put" for a in i.call.args]
    comps = [x for v in vals for x in subterms(v) if x.k == "comp"]
    for a, n in sources.items():
        ctx.ob("listed", n > 0 or any(contains(x, T("attr", T("self", S), a)) for x in comps), f"get_tasks:{a}:visited", f.where, f"{a} is never listed")
    for k, pl, st in res:
        ctx.ob("listed", k == "return", "get_tasks:raises", f.where, f"raises {pl.cls if k == 'raise' else ''}")
    # ---- single
    f = p.method(S, "get_task")
    cl = Rec(p, [E("lookup", "lookup_task", raises=[LOOKUP, OTHER], split=True)])
    res, it = run(p, cl, f, self_cls=S)
    ctx.absorb(it)
    for k, pl, st in res:
        s = seq(st)
        if any(x.startswith("lookup!") and "TaskLookup" in x for x in s):
            ctx.ob("lookup", k == "return" and pl is NONE, "get_task:missing", f.where, "a missing task is not reported as None", trace(st))
        elif any(x.startswith("lookup!") for x in s):
            ctx.ob("lookup", k == "raise", "get_task:error", f.where, "another error is reported as a missing task", trace(st))
        else:
            ctx.ob("lookup", k == "return" and pl.k == "idx" and callee(pl.a[0]) == "lookup_task", "get_task:found", f.where, f"returns {show(pl) if k == 'return' else pl.cls}", trace(st))
    for i in cl.insts:
        names = [a.arg for a in f.node.args.args if a.arg != "self"]
        ctx.ob("lookup", i.call.arg(0) is T("p", names[0]) and (i.call.arg(1, "store_alias") is T("p", names[1]) or i.call.arg(1, "store") is T("p", names[1])), "get_task:args", i.where, f"looks up {show(i.call.args)}")
    f = p.method(S, "lookup_task")
    names = [a.arg for a in f.node.args.args if a.arg != "self"]
    tid, sal = T("p", names[0]), T("p", names[1])
    pend = T("attr", T("self", S), "pending_tasks")

    class Lk(Rec):
        def on_elt(self, terms, st, node, fr):
            if any(contains(t, pend) for t in terms):
                self.kept.append((next((y for t in terms for y in subterms(t) if y.k == "elem"), terms[0]), st))
            return st

        def on_skip(self, it, st, node, fr):
            if contains(it, pend):
                self.iters.append((T("elem", it), st, node, fr.func))

    def is_it(st, el):
        """the waiting task `el` is the one asked for: True, False or not decided"""
        same = store = None
        for x in st.facts:
            if x[0] == "eq" and tid in x[1] and any(y.k == "attr" and y.a[1] == "id" and contains(y, el) for y in x[1]):
                same = x[2]
            if x[0] == "eq" and sal in x[1] and any(y.k == "attr" and y.a[1] == "store_alias" and contains(y, el) for y in x[1]):
                store = x[2] or store
                store = False if store is None else store
            if x[0] == "is" and x[1][0] is sal and x[1][1] is NONE and x[2]:
                store = True
            if x[0] == "in" and x[1][0] is sal and x[1][1].k in ("tuple", "list", "set"):
                store = x[2]
        if same is False or store is False:
            return False
        return True if same and store else None
    cl = Lk(p, [E("ask", "lookup_task", when=lambda c: not is_self(c.recv), ret=lambda c, st: [T("p", "FOUND"), NONE])], cap=2)
    cl.iter_rel = True
    cl.kept = []
    res, it = run(p, cl, f, self_cls=S)
    ctx.absorb(it)
    n = {"pending": 0, "store": 0, "missing": 0}
    for k, pl, st in res:
        if k == "raise":
            n["missing"] += 1
            ctx.ob("lookup", pl.cls.endswith("TaskLookupError"), "lookup_task:missing", f.where, f"raises {pl.cls}", trace(st))
            continue
        ok = pl.k in ("tuple", "list") and len(pl.a[0]) == 2
        ctx.ob("lookup", ok, "lookup_task:shape", f.where, f"returns {show(pl)}", trace(st))
        if not ok:
            continue
        t, al = pl.a[0]
        if t is T("p", "FOUND"):
            n["store"] += 1
            ask = [i for i in cl.insts if i.label == "ask"]
            own = [a for i in ask for a in subterms(i.call.recv) if a.k == "elem"]
            ctx.ob("lookup", state_is(st, "STATE_STOPPED") is False, "lookup_task:stores", f.where, "the stores of a stopped scheduler are asked", trace(st))
            ctx.ob("lookup", al.k == "key" and contains(al, T("attr", T("self", S), "stores")) or any(contains(al, e) for e in own), "lookup_task:alias", f.where, f"the store is reported as {show(al)}", trace(st))
        else:
            n["pending"] += 1
            ctx.ob("lookup", state_is(st, "STATE_STOPPED") is True, "lookup_task:waiting", f.where, "a waiting task is returned by a running scheduler", trace(st))
            el = next((y for y in subterms(t) if y.k == "elem"), t)
            ctx.ob("lookup", is_it(st, el) is True or bool(cl.kept) and any(x.k == "comp" for x in subterms(t)) and all(is_it(s2, e2) is True for e2, s2 in cl.kept), "lookup_task:same", f.where, f"{show(t)} is returned without being the task asked for", trace(st))
            ctx.ob("lookup", al is NONE, "lookup_task:nostore", f.where, f"a waiting task is reported in store {show(al)}", trace(st))
    for itm, st, node, fn in cl.iters:
        if itm is None:
            continue
        if contains(itm, T("attr", T("self", S), "pending_tasks")):
            el = next((y for y in subterms(itm) if y.k == "elem"), itm)
            ctx.ob("lookup", is_it(st, el) is False, "lookup_task:skipped", f"{fn.module.rel}:{node.lineno}", "a waiting task that may be the one asked for is skipped", trace(st))
        elif contains(itm, T("attr", T("self", S), "stores")):
            anyst, hit = is_none_fact(st, sal), matches(st, sal, "stores")
            skip = hit is False and (anyst is False or any(x[0] == "in" and x[1][0] is sal and not x[2] and any(y is NONE for y in subterms(x[1][1])) for x in st.facts))
            empty = any(x[0] == "is" and x[1][0] is NONE and x[1][1] is NONE for x in st.facts) or "ask" in seq(st)
            ctx.ob("lookup", skip or empty, "lookup_task:skipped store", f"{fn.module.rel}:{node.lineno}", "a store that may hold the task is not asked", trace(st))
            ctx.ob("lookup", not (skip and "ask" in seq(st)), "lookup_task:other store", f"{fn.module.rel}:{node.lineno}", "a store that was not chosen is asked", trace(st))
    for i in cl.insts:
        if i.label == "ask":
            ctx.ob("lookup", is_none_fact(i.st, sal) is True or matches(i.st, sal, "stores") is True, "lookup_task:chosen", i.where, "a store that was not chosen is asked", trace(i.st))
            ctx.ob("lookup", i.call.arg(0) is tid, "lookup_task:id", i.where, f"asks for {show(i.call.args)}")
    for a, c in n.items():
        ctx.ob("lookup", c > 0, "lookup_task:" + a, f.where, "this outcome is impossible")
    # ---- preview
    f = p.method(S, "preview_task_runs")
    TK = T("p", "TASK")
    cl = Rec(p, [E("", "get_task", ret=lambda c, st: [TK, NONE]), E("next", "get_next_trigger_time", ret=lambda c, st: [NEXT]), E("put", ["append"])], cap=2, stop={"get_task", "snapshot"})
    cnt = T("p", next(a.arg for a in f.node.args.kwonlyargs + f.node.args.args if a.arg == "count"))

    def hook(lit, st, node, fr):
        if lit[0] == "lt" and lit[1][1] is cnt and callee(lit[1][0]) == "len":
            return cl.add(st, "room" if lit[2] else "full")
        return st
    cl.assume_hook = hook
    res, it = run(p, cl, f, self_cls=S)
    ctx.absorb(it)
    nrt = T("attr", TK, "next_run_time")
    zero = 0
    for k, pl, st in res:
        lo = [x[2] for x in st.facts if x[0] == "lt" and x[1][0] is cnt and x[1][1] is const(1)]
        lo += [not x[2] for x in st.facts if x[0] == "lt" and x[1][0] is const(0) and x[1][1] is cnt]
        hi = [x[2] for x in st.facts if x[0] == "lt" and x[1][1] is cnt and x[1][0] is const(50)]
        hi += [not x[2] for x in st.facts if x[0] == "lt" and x[1][0] is cnt and x[1][1] is const(51)]
        if k == "raise" and pl.cls.endswith("ValueError") and (True in lo or True in hi):
            zero += 1
            continue
        ctx.ob("preview", True not in lo and True not in hi, "preview_task_runs:bound", f.where, "a preview of less than 1 or more than 50 runs is accepted", trace(st))
        if k != "return":
            continue
        if pl is NONE:
            miss = any(x[0] == "is" and x[1][0] is TK and x[2] for x in st.facts) or not any(contains(x, TK) for fct in st.facts for x in fct[1] if isinstance(x, T.__class__) or hasattr(x, "k"))
            ctx.ob("preview", miss, "preview_task_runs:none", f.where, "an existing task has no preview", trace(st))
            continue
        ctx.ob("preview", (False in lo) and (False in hi) or not lo and not hi, "preview_task_runs:checked", f.where, "the requested count is not checked against 1 and 50", trace(st))
    ctx.ob("preview", zero >= 2, "preview_task_runs:refused", f.where, "a count outside 1..50 is not refused")
    prevs = set()
    for i in cl.insts:
        if i.label != "next":
            continue
        pv, nw = i.call.arg(1, "previous_time"), i.call.arg(2, "now")
        ctx.ob("preview", i.call.recv is T("attr", TK, "trigger"), "preview_task_runs:trigger", i.where, f"asks {show(i.call.recv)}")
        ctx.ob("preview", pv in (NONE, NEXT, nrt), "preview_task_runs:previous", i.where, f"previous is {show(pv) if pv is not None else 'missing'}")
        if pv is NONE:
            some = is_none_fact(i.st, nrt)
            ctx.ob("preview", some is True, "preview_task_runs:first", i.where, "the preview does not start with the task's own next run time", trace(i.st))
            nowp = T("p", "now")
            given = is_none_fact(i.st, nowp)
            src = None if nw is None else [y for y in subterms(nw) if y is nowp or callee(y) in ("now", "utcnow")]
            ok = src is not None and bool(src) and all((y is nowp) == (given is False) for y in src) and (given is not None or len(src) > 1)
            ctx.ob("preview", ok, "preview_task_runs:base", i.where, f"now given={given is False}: computed from {show(nw) if nw is not None else 'nothing'}", trace(i.st))
        else:
            prevs.add(pv)
            ctx.ob("preview", nw is pv, "preview_task_runs:now", i.where, f"computed from {show(nw) if nw is not None else 'the current time'} instead of the previous run")
    ctx.ob("preview", any(i.label == "next" and i.call.arg(1, "previous_time") is NONE for i in cl.insts), "preview_task_runs:start", f.where, "a task without next run time is never previewed")
    ctx.ob("preview", NEXT in prevs, "preview_task_runs:chain", f.where, "the chain does not continue from a computed run time")
    n = 0
    for i in cl.insts:
        if i.label == "put":
            v = i.call.arg(0)
            n += 1
            bounded = i.seq.count("room") > i.seq.count("put") or i.seq.count("room") >= cl.cap
            ctx.ob("preview", v in (nrt, NEXT), "preview_task_runs:element", i.where, f"previews {show(v)}")
            ctx.ob("preview", bounded or in_range_loop(f, i.node, cnt), "preview_task_runs:limit", i.where, "runs are added beyond the requested count")
            none = any(x[0] == "is" and x[1][0] is v and x[1][1] is NONE and not x[2] or x[0] == "truth" and x[1][0] is v and x[2] for x in i.st.facts)
            ctx.ob("preview", none, "preview_task_runs:notnone", i.where, "an exhausted trigger adds a run", trace(i.st))
    exhausted(ctx, p, f)
    ctx.floor("state", 2)
    ctx.floor("copied", 10)


def members(t):
    """the elements of a list written out, with the lists unpacked into it"""
    if t.k in ("rest", "call"):
        return members(t.a[0]) if t.k == "rest" else [x for y in t.a[1] for x in members(y)]
    if t.k in ("list", "tuple"):
        return [x for y in t.a[0] for x in (members(y) if y.k in ("rest", "newlist") else [y])]
    return []


def exhausted(ctx, p, f):
    """the runs and the `exhausted` mark of previews of a trigger that gives a known row of times"""
    from checks.firstrun import preset, truth
    TK, N0 = T("p", "TASK"), T("p", "N0")
    A, B, TRIG = T("p", "GIVES1"), T("p", "GIVES2"), T("p", "TRIG")
    known = {TK, N0, A, B, TRIG}
    for name, has, nxt, gives, count, runs, done in [
            ("no-trigger", NONE, N0, [], 2, [], True), ("no-trigger-next", NONE, NONE, [], 2, [], True),
            ("planned", TRIG, N0, [A, B, NONE], 1, [N0], False), ("planned-more", TRIG, N0, [A, B, NONE], 2, [N0, A], False), ("planned-last", TRIG, N0, [NONE, NONE], 2, [N0], True),
            ("ends-at-count", TRIG, N0, [A, NONE, NONE], 2, [N0, A], True), ("none", TRIG, NONE, [NONE, NONE], 2, [], True), ("paused", TRIG, NONE, [A, B, NONE], 1, [A], False),
            ("paused-last", TRIG, NONE, [A, NONE], 1, [A], True)]:
        def answer(c, st, gives=gives):
            n = seq(st).count("next")
            return [gives[min(n, len(gives)) - 1] if gives else NONE]
        cl = Rec(p, [E("", "get_task", ret=lambda c, st: [TK]), E("next", "get_next_trigger_time", ret=answer), E(lambda c: "put:" + show(c.arg(0)) if c.arg(0) is not None else "put:?", ["append"])], cap=8,
                 stop={"get_task", "snapshot"})
        cl.loop_rounds = 6
        cl.known_seqs = set()

        def hook(lit, st, node, fr, cl=cl):
            if lit[0] in ("is", "eq") and NONE in lit[1] and set(lit[1]) & known:
                return None if lit[2] else st
            if lit[0] == "truth" and lit[1][0] in known:
                return st if lit[2] else None
            if lit[0] == "lt":
                a, b = lit[1]
                if not st.ts:
                    return st
                put = sum(1 for x in seq(st) if x.startswith("put"))
                for x, y, lt in ((a, b, lambda n, k: n < k), (b, a, lambda n, k: k < n)):
                    if callee(x) == "len" and y.k == "const" and isinstance(y.a[0], int):
                        put = put or len(members(x.a[1][0]))
                        return st if lt(put, y.a[0]) == lit[2] else None
            return st
        cl.assume_hook = hook
        heap = {(TK, "next_run_time"): nxt, (TK, "trigger"): has}
        res, it = preset(p, cl, f, heap, {x.arg: {"count": const(count)}.get(x.arg, NONE if x.arg == "now" else T("p", x.arg)) for x in f.node.args.args[1:] + f.node.args.kwonlyargs})
        ctx.absorb(it)
        want = ["put:" + show(x) for x in runs]
        good, seen = False, []
        for k, pl, st in res:
            if k != "return" or pl is NONE:
                seen.append(f"{k} {show(pl) if k == 'return' else pl.cls}")
                continue
            puts = [x for x in seq(st) if x.startswith("put")]
            v = new_kw(pl, "exhausted")
            got = truth(it, v, N0, f) if v is not None else {None}
            rt = new_kw(pl, "run_times")
            part = rt is None or any(y.k == "slice" for y in subterms(rt))
            lists = [y for y in subterms(rt) if y.k in ("list", "tuple") and set(y.a[0]) & known] if rt is not None and not puts else []
            if lists:
                puts = ["put:" + show(x) for x in members(lists[0])]
            seen.append(f"{', '.join(puts) or 'no runs'}; exhausted={sorted(map(str, got))}")
            good = good or puts == want and got == {done} and not part
            for fld, src in (("requested_count", const(count)),):
                v = new_kw(pl, fld)
                ctx.ob("preview", v is src, f"preview_task_runs:{fld}", f.where, f"{fld} is {show(v) if v is not None else 'missing'}", trace(st))
            v = new_kw(pl, "timezone")
            ctx.ob("preview", v is not None and contains(v, T("attr", T("self", S), "timezone")), "preview_task_runs:timezone", f.where, f"timezone is {show(v) if v is not None else 'missing'}")
            v = new_kw(pl, "generated_at")
            ctx.ob("preview", v is not None and any(callee(y) in ("now", "utcnow") for y in subterms(v)), "preview_task_runs:generated_at", f.where, f"generated_at is {show(v) if v is not None else 'missing'}")
        ctx.ob("preview", good, "preview_task_runs:" + name, f.where, f"expected {', '.join(want) or 'no runs'}; exhausted={done}; got {' | '.join(seen)}"[:400])


def in_range_loop(f, node, cnt):
    for n in ast.walk(f.node):
        if isinstance(n, ast.For) and any(x is node for x in ast.walk(n)) and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "range" and len(n.iter.args) == 1 \
                and isinstance(n.iter.args[0], ast.Name) and n.iter.args[0].id == cnt.a[0]:
            return True
    return False


def is_none_fact(st, t):
    for x in st.facts:
        if x[0] == "is" and x[1][0] is t and x[1][1] is NONE:
            return x[2]
        if x[0] == "truth" and x[1][0] is t:
            return not x[2]
    return None


def matches(st, sp, src):
    for x in st.facts:
        if x[0] in ("eq", "in") and any(y is sp for y in x[1] if hasattr(y, "k")):
            return x[2]
    return None


TSS = "asyncz.tasks.types.TaskScheduleState"
SAME = ["identity", "state", "state_label", "started_at", "uptime_seconds", "timezone", "executor_aliases", "store_aliases", "task_count", "scheduled_task_count", "paused_task_count",
        "pending_task_count", "submitted_task_count"]


@prop("C41", "Scheduler and instance snapshots tell the real state and exact counts",
      """A scheduler snapshot reports the scheduler's own identity, state, time zone, limits and the aliases of exactly its executors and stores;
      its task counts are the number of tasks and of those scheduled, paused, pending and submitted. A stopped scheduler has no start time and no
      uptime; a started one reports the time of that start and an uptime that is never negative. The instance snapshot repeats the scheduler
      snapshot, is active exactly while the scheduler runs and stale otherwise.""",
      ["inputs", "histories"],
      "every scheduler state, any set of tasks, stores and executors",
      "each number is right for the few mixtures of task states a test builds, wrong ones show in other mixtures",
      ["asyncz/schedulers/base.py", "asyncz/schedulers/inspection.py"],
      [("BaseScheduler.get_scheduler_info", "asyncz/schedulers/base.py:BaseScheduler.get_scheduler_info"), ("BaseScheduler.get_scheduler_instance_infos", "asyncz/schedulers/base.py:BaseScheduler.get_scheduler_instance_infos")],
      "path-sensitive dataflow into the snapshot's fields; counts by constant propagation over a distinguishing set of task infos",
      "Every path is interpreted; the counts are folded for one abstract listing whose numbers per state are all different.")
def c41(ctx):
    p = ctx.proj
    ctx.rule("count", "counts of the listed tasks")
    ctx.rule("own", "fields are the scheduler's own")
    ctx.rule("time", "no start time and uptime while stopped, those of this start otherwise")
    ctx.rule("repeat", "the instance repeats the scheduler snapshot")
    ctx.rule("active", "active while running, stale otherwise")
    me = T("self", S)
    f = p.method(S, "get_scheduler_info")
    enum = next((q for q in p.classes if q.endswith(".TaskScheduleState")), None)
    ctx.need(enum is not None, "TaskScheduleState not found")
    infos = [("SCHEDULED", True), ("SCHEDULED", True), ("SCHEDULED", True), ("PAUSED", True), ("PAUSED", False), ("PENDING", False)]
    want = {"task_count": 6, "scheduled_task_count": 3, "paused_task_count": 2, "pending_task_count": 1, "submitted_task_count": 4}
    els = tuple(T("p", f"INFO{n}") for n in range(len(infos)))
    LIST = T("tuple", els)

    def listing(c, st):
        for t, (s, sub) in zip(els, infos):
            st = c.interp.heap_write(t, "schedule_state", T("ref", f"{enum}.{s}"), st)
            st = c.interp.heap_write(t, "submitted", const(sub), st)
            st = c.interp.heap_write(t, "pending", const(s == "PENDING"), st)
            st = c.interp.heap_write(t, "paused", const(s == "PAUSED"), st)
        return [(LIST, st)]
    cl = Rec(p, [E("list", "get_task_infos", ret=listing)], cap=2, stop={"get_task_infos"})
    cl.known_seqs = {LIST}
    cl.dyn = lambda c: None
    res, it = run(p, cl, f, self_cls=S, max_states=2000)
    ctx.absorb(it)
    for i in cl.insts:
        if i.label == "list":
            given = [v for v in list(i.call.args) + [v for _, v in i.call.kw] if v is not NONE]
            ctx.ob("count", not given, "get_scheduler_info:all", i.where, f"only the tasks matching {[show(v) for v in given]} are counted")
    seen = set()
    for k, pl, st in res:
        ok = k == "return" and pl.k == "new" and pl.a[0].endswith("SchedulerInfo")
        ctx.ob("own", ok, "get_scheduler_info", f.where, f"{k} {show(pl) if k == 'return' else pl.cls}", trace(st))
        if not ok:
            continue
        for fld, n in want.items():
            v = new_kw(pl, fld)
            if v is not None and v.k == "const":
                ctx.ob("count", v.a[0] == n and v.a[0] is not True, f"get_scheduler_info:{fld}", f.where, f"{fld} is {v.a[0]} for 3 scheduled, 2 paused, 1 pending and 4 submitted of 6 tasks", trace(st))
            else:
                ctx.ob("count", v is not None and (contains(v, LIST) or any(contains(v, e) for e in els) or v.k in ("newdict", "idx", "call", "unk")), f"get_scheduler_info:{fld}", f.where, f"{fld} is {show(v) if v is not None else 'missing'}", trace(st))
        for fld in ("identity", "store_retry_interval", "startup_delay", "timezone"):
            v = new_kw(pl, fld)
            ctx.ob("own", v is not None and contains(v, T("attr", me, fld)), f"get_scheduler_info:{fld}", f.where, f"{fld} is {show(v) if v is not None else 'missing'}")
        for fld, src in (("executor_aliases", "executors"), ("store_aliases", "stores")):
            v = new_kw(pl, fld)
            other = {"executors", "stores"} - {src}
            ok = v is not None and contains(v, T("attr", me, src)) and not any(contains(v, T("attr", me, o)) for o in other)
            part = v is not None and any(y.k == "slice" or y.k == "comp" and y.a[3] for y in subterms(v))
            ctx.ob("own", ok and not part, f"get_scheduler_info:{fld}", f.where, f"{fld} is {show(v) if v is not None else 'missing'}")
        v, lab, run_ = new_kw(pl, "state"), new_kw(pl, "state_label"), new_kw(pl, "running")
        own_state = T("attr", me, "state")
        ctx.ob("own", v is not None and (contains(v, own_state) or v.k == "ref" and state_is(st, v.a[0].split(".")[-1]) is True), "get_scheduler_info:state", f.where, f"state is {show(v) if v is not None else 'missing'}")
        stopped = state_is(st, "STATE_STOPPED")
        if stopped is None:
            stopped = next((x[2] for x in st.facts if x[0] in ("is", "eq") and any("STATE_STOPPED" in show(y) for y in x[1]) and any(contains(y, own_state) for y in x[1])), None)
        ctx.ob("own", lab is not None and (contains(lab, own_state) or lab.k == "const" and "STATE_" + str(lab.a[0]).upper() in ("STATE_STOPPED", "STATE_RUNNING", "STATE_PAUSED")), "get_scheduler_info:state_label", f.where, f"label is {show(lab) if lab is not None else 'missing'}")
        b = running_of(run_, own_state, stopped)
        ctx.ob("own", b, "get_scheduler_info:running", f.where, f"stopped={stopped}: running is {show(run_) if run_ is not None else 'missing'}")
        sa, up = new_kw(pl, "started_at"), new_kw(pl, "uptime_seconds")
        own_sa = T("attr", me, "started_at")
        none = is_none_fact(st, own_sa)
        seen.add(stopped)
        if stopped:
            ctx.ob("time", sa is NONE and up is NONE, "get_scheduler_info:stopped", f.where, f"a stopped scheduler reports start {show(sa) if sa is not None else ''} and uptime {show(up) if up is not None else ''}", trace(st))
        elif stopped is False:
            ctx.ob("time", sa is own_sa or sa is NONE and none is True, "get_scheduler_info:start", f.where, f"start reported as {show(sa) if sa is not None else 'nothing'}", trace(st))
            ctx.ob("time", up is NONE if none else up is not None and none is False and contains(up, own_sa) and nonneg(up, own_sa), "get_scheduler_info:uptime", f.where, f"started={none is False}: uptime is {show(up) if up is not None else 'nothing'}", trace(st))
        else:
            ctx.ob("time", sa is NONE and none is True and up is NONE, "get_scheduler_info:undecided", f.where, "whether the scheduler is stopped is not considered", trace(st))
    ctx.ob("time", {True, False} <= seen, "get_scheduler_info:cases", f.where, "stopped and started are not told apart")
    # ---- start time is written by the effective start only
    for m in ("_start", "start", "shutdown"):
        f = p.method(S, m)
        if f is None:
            continue
        if m != "_start":
            cl = Rec(p, [W(lambda b, n, v: "begin" if v is not NONE else "end", ["started_at"], when=lambda b, n, v, st: is_self(b)), E("ref", ["inc_refcount", "decr_refcount"], ret=lambda c, st: [TRUE, FALSE])], cap=3, stop={"inc_refcount", "decr_refcount", "add_executor", "add_store", "real_add_task", "dispatch_event", "wakeup"})
            cl.merge_by_ts = True
            res, it = run(p, cl, f, self_cls=S, max_states=3000)
            ctx.absorb(it)
            for k, pl, st in res:
                s = list(seq(st))
                if k == "return" and pl is TRUE:
                    ctx.ob("time", ("begin" in s) if m == "start" else "begin" not in s, m, f.where, "the start time is not taken at the start" if m == "start" else "the shutdown sets a start time", trace(st))
                elif k == "return":
                    ctx.ob("time", "begin" not in s and "end" not in s, m + ":nested", f.where, "a nested start or shutdown changes the start time", trace(st))
            for i in cl.insts:
                if i.label == "begin":
                    ctx.ob("time", callee(i.value) in ("now", "utcnow"), m + ":value", i.where, f"start time is {show(i.value)}")
    # ---- instance
    f = p.method(S, "get_scheduler_instance_infos")
    INFO = T("p", "SNAPSHOT")
    cl = Rec(p, [E("info", "get_scheduler_info", ret=lambda c, st: [INFO]), W("seen", ["last_seen_at"], when=lambda b, n, v, st: is_self(b))], cap=3, stop={"get_scheduler_info"})
    res, it = run(p, cl, f, self_cls=S)
    ctx.absorb(it)
    for k, pl, st in res:
        ok = k == "return" and pl.k in ("tuple", "list") and len(pl.a[0]) == 1 and pl.a[0][0].k == "new"
        ctx.ob("repeat", ok, "get_scheduler_instance_infos", f.where, f"{k} {show(pl) if k == 'return' else pl.cls}", trace(st))
        if not ok:
            continue
        t = pl.a[0][0]
        for fld in SAME:
            v = new_kw(t, fld)
            ctx.ob("repeat", v is T("attr", INFO, fld), f"get_scheduler_instance_infos:{fld}", f.where, f"{fld} is {show(v) if v is not None else 'missing'}", trace(st))
        r = T("attr", INFO, "running")
        rv = next((x[2] for x in st.facts if x[0] == "truth" and x[1][0] is r), None)
        for fld, inv in (("active", False), ("stale", True)):
            v = new_kw(t, fld)
            ctx.ob("active", v is not None and bool_means(v, r, rv, inv), f"get_scheduler_instance_infos:{fld}", f.where, f"running={rv}: {fld} is {show(v) if v is not None else 'missing'}", trace(st))
        v = new_kw(t, "stale_after_seconds")
        ctx.ob("own", v is not None and contains(v, T("attr", me, "heartbeat_stale_after")), "get_scheduler_instance_infos:stale_after", f.where, f"is {show(v) if v is not None else 'missing'}")
        v = new_kw(t, "last_seen_at")
        ctx.ob("time", v is not None and (callee(v) in ("now", "utcnow") or v is T("attr", me, "last_seen_at")) and "seen" in seq(st), "get_scheduler_instance_infos:last_seen", f.where, f"last seen is {show(v) if v is not None else 'missing'}", trace(st))
        v = new_kw(t, "heartbeat_age_seconds")
        ctx.ob("time", v is not None and (v.k == "const" and isinstance(v.a[0], (int, float)) and v.a[0] >= 0 or callee(v) in ("max", "abs")), "get_scheduler_instance_infos:age", f.where, f"age is {show(v) if v is not None else 'missing'}")
    ctx.floor("own", 8)
    ctx.floor("count", 5)
    ctx.floor("repeat", 10)


def nonneg(v, start):
    """max(0, x) / abs: not negative, and the difference is now - start"""
    ok = callee(v) in ("max", "abs") and (callee(v) == "abs" or any(y.k == "const" and y.a[0] == 0 for y in v.a[1]))
    subs = [y for y in subterms(v) if y.k in ("bin", "op") or y.k == "call" and callee(y) in ("__sub__",)]
    rev = any(len(y.a) >= 3 and y.a[1] is start for y in subs if y.k in ("bin", "op"))
    return ok and not rev


def running_of(t, own, stopped):
    if t is None:
        return False
    if t.k == "const":
        return stopped is not None and t.a[0] is (not stopped)
    if t.k == "cmp":
        a, b = t.a[1], t.a[2]
        about = (contains(a, own) and "STATE_STOPPED" in show(b)) or (contains(b, own) and "STATE_STOPPED" in show(a))
        return about and t.a[0] in ("!=", "is not", "ne", "isnot", "NotEq", "IsNot")
    if t.k == "not":
        x = t.a[0]
        return x.k == "cmp" and x.a[0] in ("==", "is", "eq", "Eq", "Is") and contains(x, own) and "STATE_STOPPED" in show(x)
    return t.k == "attr" and t.a[1] == "running"


def bool_means(v, r, rv, inverted):
    """the value of v, as a boolean over r, is r (or not r when inverted)"""
    def val(t, b):
        if t is r:
            return b
        if t.k == "const":
            return bool(t.a[0])
        if t.k == "not":
            x = val(t.a[0], b)
            return None if x is None else not x
        if t.k in ("and", "or"):
            xs = [val(x, b) for x in t.a[0]]
            if t.k == "and":
                return False if False in xs else None if None in xs else True
            return True if True in xs else None if None in xs else False
        return val(t.a[1][0], b) if t.k == "call" and callee(t) == "bool" and t.a[1] else None
    return all(val(v, b) is (b != inverted) for b in ((True, False) if rv is None else (rv,)))
