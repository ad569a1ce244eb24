"""Scheduler life cycle: nested starts, pause/resume, shutdown, component and life-cycle events, pending tasks."""
import ast

from sa.report import prop

from ._common import *

FILES = ["asyncz/schedulers/base.py", "asyncz/schedulers/asyncio.py"]


def schedulers(p):
    return [S] + [q for q in p.subclasses(S)]


def concrete_methods(p, name):
    """distinct implementations of a method over the scheduler classes: {func qual: (class, func)}"""
    out = {}
    for q in schedulers(p):
        f = p.method(q, name)
        if f is not None and f.qual not in out:
            out[f.qual] = (q, f)
    return out


def state_label(b, a, v):
    return "state:" + (v.a[0].split(".")[-1] if v.k == "ref" else "RUNNING|PAUSED" if v.k == "phi" else "?")


def is_state(b, a, v, st):
    return is_self(b)


class Counting(Rec):
    """start the analysis with a known value of the start counter"""
    n0 = None

    def attr_value(self, base, name, st):
        if name == "ref_counter" and is_self(base) and self.n0 is not None:
            return const(self.n0)
        return None


def counter_at(st, n0):
    for (b, a), v in st.heap.items():
        if a == "ref_counter":
            return v.a[0] if v.k == "const" else show(v)
    return n0


@prop("C15", "Nested starts and stops are balanced, also when a start fails",
      """A scheduler that was started several times is really started by the first start only and really stopped by the matching last shutdown
      only; the calls in between change nothing and report that nothing was done. A start that fails leaves the scheduler stopped and does
      not count, so a later start works; a shutdown without a start never makes the count negative. Counting is atomic.""",
      ["histories", "schedules", "fault_sequences"],
      "every sequence of starts, failing starts and shutdowns, from any threads, on every scheduler class",
      "tests run short balanced sequences; failing starts and concurrent counting are not reached",
      FILES, [("start counter", "asyncz/schedulers/base.py:inc_refcount/decr_refcount"), ("start", "asyncz/schedulers/base.py:start"), ("shutdown", "asyncz/schedulers/base.py:shutdown")],
      "path-sensitive dataflow over start/shutdown for each abstract counter value, with injected start failures",
      "The counter is abstracted to its values 0..3 (constant propagation); every path of start and shutdown of the base scheduler is enumerated for each.")
def c15(ctx):
    p = ctx.proj
    ctx.rule("first-start", "with counter 0 start starts executors and stores once and sets the state; otherwise it changes nothing and reports no start")
    ctx.rule("last-stop", "shutdown tears down iff it brings the counter to zero")
    ctx.rule("count", "start adds one, shutdown takes one off, never below zero")
    ctx.rule("failed-start", "a start that raises restores the counter and leaves the state stopped")
    ctx.rule("atomic", "the counter is read and written only under its own lock")
    ev = [E("X.start", "start", when=lambda c: is_executor(c.recv), raises=[OTHER]), E("S.start", "start", when=lambda c: is_store(c.recv), raises=[OTHER]),
          E("X.stop", "shutdown", when=lambda c: is_executor(c.recv)), E("S.stop", "shutdown", when=lambda c: is_store(c.recv)),
          W(state_label, ["state"], when=is_state), W("count", ["ref_counter"]), DISPATCH()]
    for n in range(4):
        for name in ("start", "shutdown"):
            f = p.method(S, name)
            ctx.need(f, f"{name} not found")
            cl = Counting(p, ev, stop={"dispatch_event", "real_add_task", "wakeup", "_shutdown_fn_helper", "_ashutdown_fn_helper", "check_uwsgi", "process_tasks"}, cap=1)
            cl.n0 = n
            res, it = run(p, cl, f, self_cls=S)
            ctx.absorb(it)
            for k, pl, st in res:
                s = [x for x in seq(st) if x != "count"]
                acts = [x for x in s if not x.endswith("!")]
                end = counter_at(st, n)
                if name == "start":
                    if k == "raise":
                        if n == 0 and any(x.endswith("!") for x in s):
                            last = [x for x in s if x.startswith("state:")][-1:] or ["state:STATE_STOPPED"]
                            ctx.ob("failed-start", end == 0, "start:counter", f.where, f"after a failed start the counter is {end}", trace(st))
                            ctx.ob("failed-start", last == ["state:STATE_STOPPED"], "start:state", f.where, "a failed start leaves the state " + " ".join(last), trace(st))
                        continue
                    ctx.ob("count", end == n + 1, "start", f.where, f"counter {n} -> {end} after start", trace(st))
                    if n > 0:
                        ctx.ob("first-start", not acts, "start:nested", f.where, "nested start does " + " ".join(acts), trace(st))
                        ctx.ob("first-start", pl is FALSE, "start:nested-result", f.where, f"nested start returns {show(pl)}", trace(st))
                    else:
                        ctx.ob("first-start", pl is TRUE, "start:result", f.where, f"first start returns {show(pl)}", trace(st))
                        ctx.ob("first-start", any(x.startswith("state:") for x in acts), "start:state", f.where, "first start does not set the state", trace(st))
                else:
                    want = max(n - 1, 0)
                    ctx.ob("count", end == want, "shutdown", f.where, f"counter {n} -> {end} after shutdown", trace(st))
                    if n > 1:
                        ctx.ob("last-stop", not acts and pl is FALSE and k == "return", "shutdown:nested", f.where, f"shutdown number {4 - n} of a nested start does {acts} and returns {show(pl) if k == 'return' else pl}", trace(st))
                    elif k == "return":
                        ctx.ob("last-stop", pl is TRUE and "state:STATE_STOPPED" in acts, "shutdown:last", f.where, f"last shutdown does {acts} and returns {show(pl)}", trace(st))
            starts = {i.label for i in cl.insts}
            if n == 0 and name == "start":
                ctx.ob("first-start", {"X.start", "S.start"} <= starts, "start:components", f.where, f"start only does {sorted(starts)}")
            if n == 1 and name == "shutdown":
                ctx.ob("last-stop", {"X.stop", "S.stop"} <= starts, "shutdown:components", f.where, f"shutdown only does {sorted(starts)}")
    # atomicity: every function that touches the counter, other than construction and plain reporting reads
    touch = {}
    for q, f in sorted(p.functions.items()):
        if f.cls is None or S not in p.mro(f.cls.qual):
            continue
        if any(isinstance(x, ast.Attribute) and x.attr == "ref_counter" and isinstance(x.ctx, ast.Store) for x in ast.walk(f.node)):
            touch.update(outer(p, f))
    for q, f in sorted(touch.items()):
        if f.name == "__init__" or f.cls is None:
            continue
        cl = Rec(p, [W("count", ["ref_counter"])])
        rd = []
        res, it = run(p, cl, f, self_cls=f.cls.qual)
        ctx.absorb(it)
        for i in cl.insts:
            ctx.ob("atomic", any("ref" in x or "lock" in x for x in i.locks), f.qual, i.where, "the start counter is changed without its lock")
        for k, pl, st in res:
            for fa in st.facts:
                pass
        # the decision must be taken in the same critical section as the change
        if any(isinstance(x, ast.Return) for x in ast.walk(f.node)):
            ctx.ob("atomic", _reads_locked(p, f), f.qual + ":read", f.where, "the start counter is read outside its lock")
    ctx.floor("count", 2)
    ctx.floor("failed-start", 2)
    ctx.floor("atomic", 2)


def _reads_locked(p, f):
    """every read of the counter in f lies inside a with-block on a lock"""
    ok = True

    def walk(node, locked):
        nonlocal ok
        for ch in ast.iter_child_nodes(node):
            lk = locked
            if isinstance(node, (ast.With,)) and ch in node.body:
                lk = locked or any(isinstance(i.context_expr, ast.Attribute) and "lock" in i.context_expr.attr for i in node.items)
            if isinstance(ch, ast.Attribute) and ch.attr == "ref_counter" and not lk:
                ok = False
            walk(ch, lk)
    if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "acquire" for x in ast.walk(f.node)):
        return True
    walk(f.node, False)
    return ok


@prop("C16", "A paused or stopped scheduler never submits due tasks",
      """While the scheduler is paused or stopped, a scheduling pass submits no task and asks for no further wakeup, whatever wakeups were
      already on their way; a manual run is refused on a stopped scheduler. Pausing and resuming a stopped scheduler is refused, pausing a
      paused one and resuming a running one change nothing, and resuming wakes the scheduler so that overdue tasks are processed.""",
      ["schedules", "histories"],
      "every sequence of pause, resume, shutdown and wakeups, in every state",
      "tests pause before any timer fires; a wakeup that arrives after pause or shutdown is a race they do not produce",
      FILES, [("pass", "asyncz/schedulers/base.py:process_tasks"), ("pause/resume", "asyncz/schedulers/base.py:pause"), ("manual run", "asyncz/schedulers/base.py:run_task")],
      "path-sensitive dataflow over the scheduler state at each submission, plus a who-may-submit query",
      "Every path to an executor submission is checked for the state test; the state is sampled at the start of the pass.")
def c16(ctx):
    p = ctx.proj
    ctx.rule("gate", "on every path to an executor submission the scheduler was found running (manual: not stopped)")
    ctx.rule("no-rearm", "a pass on a paused or stopped scheduler returns no wait time")
    ctx.rule("who-submits", "executor submission happens only in the pass and in manual runs")
    ctx.rule("transitions", "pause: running -> paused, stopped refused; resume: paused -> running and wakeup, stopped refused")
    reached = set()
    for entry in ("process_tasks", "run_task"):
        for fq, (q, f) in concrete_methods(p, entry).items():
            cl = Rec(p, [E("send", "send_task"), DISPATCH()], stop={"dispatch_event"}, cap=1)
            cl.merge_by_ts = True
            res, it = run(p, cl, f, self_cls=q)
            ctx.absorb(it)
            for i in cl.insts:
                if i.label == "send":
                    reached.add((i.func.module.rel, i.node.lineno))
            for nm in ("STATE_STOPPED", "STATE_PAUSED", "STATE_RUNNING"):
                cl = _with_state(p, nm, [E("send", "send_task"), DISPATCH()], {"dispatch_event"}, cap=1)
                cl.merge_by_ts = True
                res, it = run(p, cl, f, self_cls=q)
                ctx.absorb(it)
                sends = [i for i in cl.insts if i.label == "send"]
                if nm == "STATE_RUNNING":
                    ctx.ob("gate", bool(sends), f"{entry}:{nm}", f.where, "a running scheduler submits nothing")
                elif entry == "process_tasks":
                    ctx.ob("gate", not sends, f"{entry}:{nm}", f.where, f"a scheduler in {nm} submits tasks")
                    ok = all(k == "return" and pl is NONE for k, pl, st in res)
                    ctx.ob("no-rearm", ok, f"{entry}:{nm}", f.where, f"pass on a scheduler in {nm} gives {[show(pl) if k == 'return' else pl for k, pl, st in res]}")
                elif nm == "STATE_STOPPED":
                    ctx.ob("gate", not sends and all(k == "raise" and pl.cls.endswith("SchedulerNotRunningError") for k, pl, st in res), f"{entry}:{nm}", f.where, "manual run on a stopped scheduler is not refused")
    ctx.need(len(reached) >= 2, "executor submission call not found")
    for m in p.modules.values():
        if not m.name.startswith("asyncz.schedulers"):
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("send_task", "do_send_task"):
                ctx.ob("who-submits", (m.rel, n.lineno) in reached, f"{m.name}:{n.func.attr}", f"{m.rel}:{n.lineno}", "submission outside the gated pass and the manual run")
    for name, src, dst, code in (("pause", "STATE_RUNNING", "STATE_PAUSED", "SCHEDULER_PAUSED"), ("resume", "STATE_PAUSED", "STATE_RUNNING", "SCHEDULER_RESUMED")):
        for fq, (q, f) in concrete_methods(p, name).items():
            for cur in ("STATE_STOPPED", "STATE_RUNNING", "STATE_PAUSED"):
                cl = _with_state(p, cur, [W(state_label, ["state"], when=is_state), E("wake", "wakeup"), DISPATCH()], {"dispatch_event", "wakeup"})
                res, it = run(p, cl, f, self_cls=q)
                ctx.absorb(it)
                for k, pl, st in res:
                    s = list(seq(st))
                    if cur == "STATE_STOPPED":
                        ok = k == "raise" and pl.cls.endswith("SchedulerNotRunningError") and not s
                    elif cur == src:
                        ok = k == "return" and s[:1] == [f"state:{dst}"] and s.count(f"ev:{code}") == 1 and len(s) == 2 + (name == "resume") and (name == "pause" or s[-1] == "wake" or "wake" in s[1:])
                    else:
                        ok = k == "return" and not s
                    ctx.ob("transitions", ok, f"{name}:{cur}", f.where, f"{name} in {cur} does {s} and {'returns' if k == 'return' else 'raises ' + str(pl)}", trace(st))
    ctx.floor("gate", 3)
    ctx.floor("transitions", 6)


def _with_state(p, cur, events, stop, cap=2, cls=Rec):
    class C(cls):
        def attr_value(self, base, name, st):
            if name == "state" and is_self(base):
                return STATE(self.p, cur)
            return cls.attr_value(self, base, name, st)
    return C(p, events, stop=stop, cap=cap)


def STATE(p, name):
    for q, c in p.classes.items():
        if name in c.attrs and q.split(".")[-1] == "SchedulerState":
            return T("ref", f"{q}.{name}")
    from sa.project import AnalysisError
    raise AnalysisError("SchedulerState not found")


@prop("C17", "Shutdown stops everything once and isolates shutdown tasks",
      """A real shutdown marks the scheduler stopped first, then shuts down every executor exactly once with the caller's wait choice and every
      store exactly once, and announces the shutdown exactly once, at the end. Tasks with a shutdown trigger are deleted from their store and
      run at most once each, and other tasks are not run; a failing shutdown task stops neither the other ones nor the shutdown. An asyncio
      scheduler's timer is cancelled. Shutting down a stopped scheduler is refused.""",
      ["histories", "fault_sequences"],
      "every set of executors, stores and shutdown tasks, failing shutdown tasks included, on every scheduler class",
      "tests use one executor and one store and shutdown tasks that succeed",
      FILES, [("shutdown", "asyncz/schedulers/base.py:shutdown"), ("asyncio shutdown", "asyncz/schedulers/asyncio.py")],
      "interprocedural event-sequence dataflow with injected shutdown-task failures",
      "All paths of shutdown with helper inlining; per-iteration sequences for the executor, store and task loops. Errors of executors and stores themselves are outside the property.")
def c17(ctx):
    p = ctx.proj
    ctx.rule("stopped-first", "the state is stopped before any executor or store is shut down")
    ctx.rule("each-executor", "every executor is shut down exactly once with the wait argument")
    ctx.rule("each-store", "every store is shut down exactly once, after its shutdown tasks were collected")
    ctx.rule("shutdown-tasks", "exactly the shutdown-trigger tasks are deleted, and run at most once after deletion")
    ctx.rule("isolated", "an error of a shutdown task does not leave the helper")
    ctx.rule("announced", "the shutdown event is dispatched exactly once, last, and only on success")
    ctx.rule("refused", "shutdown of a stopped scheduler raises and does nothing")
    ctx.rule("timer", "asyncio schedulers cancel their timer when they really shut down")
    f = p.method(S, "shutdown")

    def runfn(c):
        if c.fn.k == "attr" and c.fn.a[1] == "fn":
            return "run", (OTHER, "builtins.BaseException")
        return None
    cnt = W("", ["ref_counter"])
    ev = [W(state_label, ["state"], when=is_state), E("X.stop", "shutdown", when=lambda c: is_executor(c.recv)), E("S.stop", "shutdown", when=lambda c: is_store(c.recv)),
          E("S.del", "delete_task", when=lambda c: is_store(c.recv) or is_self(c.recv)), DISPATCH()]
    stop = {"dispatch_event", "handle_shutdown_coros"}

    def mk(events, itn=None):
        cl = Counting(p, [cnt] + list(events), stop=stop, cap=2)
        cl.n0 = 1
        cl.dyn = runfn
        cl.rel.names = cl.rel.names | {"fn"}
        if itn:
            cl.iter_rel, cl.iter_events = True, frozenset(itn)
        return cl
    # whole function
    cl = mk(ev[:3] + [DISPATCH()])
    cl.dyn = None
    cl.merge_by_ts = False
    res, it = run(p, cl, f, self_cls=S)
    ctx.absorb(it)
    for k, pl, st in res:
        s = list(seq(st))
        if k == "raise":
            if pl.cls.endswith("SchedulerNotRunningError"):
                ctx.ob("refused", not s, "shutdown", f.where, f"refused shutdown did {s}", trace(st))
            continue
        act = [x for x in s if x in ("X.stop", "S.stop")]
        ctx.ob("stopped-first", s[:1] == ["state:STATE_STOPPED"], "shutdown", f.where, f"shutdown begins with {s[:1]}", trace(st))
        ctx.ob("announced", s.count("ev:SCHEDULER_SHUTDOWN") == 1 and s[-1] == "ev:SCHEDULER_SHUTDOWN", "shutdown", f.where, "shutdown event: " + " ".join(s), trace(st))
        ctx.ob("each-executor", "state:STATE_RUNNING" not in s, "shutdown:state", f.where, "state set back", trace(st))
    cl = _with_state(p, "STATE_STOPPED", ev + [cnt], stop, cls=Counting)
    cl.n0 = 1
    res, it = run(p, cl, f, self_cls=S)
    for k, pl, st in res:
        ctx.ob("refused", k == "raise" and not seq(st), "shutdown:stopped", f.where, f"shutdown of a stopped scheduler {'raises' if k == 'raise' else 'returns'} after {seq(st)}", trace(st))
    # loops
    for label, rule, container in (("X.stop", "each-executor", "executors"), ("S.stop", "each-store", "stores")):
        e = ev[1] if label == "X.stop" else ev[2]
        cl = mk([e], ["shutdown"])
        cl.dyn = None
        cl.merge_by_ts = True
        loops = []
        cl.iter_rel = False
        cl.keep_break = True
        cl.iter_of = lambda itm: itm is NONE or from_attr(itm, container)
        res, it = run(p, cl, f, self_cls=S)
        got = [i for i in cl.insts if i.label == label]
        ctx.ob(rule, bool(got), "shutdown:call", f.where, f"{container} are not shut down in shutdown()")
        if not got:
            continue
        nodes = {}
        for itm, st, node, fn in cl.iters:
            nodes.setdefault(id(node), set()).add(tuple(x for x in seq(st) if x == label))
        full = [v for v in nodes.values() if v == {(label,)}]
        ctx.ob(rule, len(full) == 1 and all(v in ({(label,)}, {()}) for v in nodes.values()), "shutdown", got[0].where, f"{container} loop: per iteration {[sorted(v) for v in nodes.values()]}")
        for k, pl, st in res:
            if k == "return":
                ctx.ob(rule, "@iter" not in seq(st), "shutdown:early", f.where, f"the {container} loop can end early", trace(st))
        for i in got:
            itb = i.base
            ctx.ob(rule, container_of(itb) == container, "shutdown:receiver", i.where, f"{show(itb)}")
            if label == "X.stop":
                ctx.ob(rule, i.call.arg(0, "wait") is T("p", "wait"), "shutdown:wait", i.where, f"executor.shutdown({show(i.call.arg(0, 'wait')) if i.call.arg(0, 'wait') is not None else ''}) ignores the caller's wait")
    # shutdown tasks
    cl = mk([ev[3], E("coro", "_ashutdown_fn_helper"), E("S.stop", "shutdown", when=lambda c: is_store(c.recv))], ["delete_task", "fn", "_ashutdown_fn_helper"])
    tags = lambda t: t.k == "attr" and t.a[1] == "alias"

    def hook(lit, st, node, fr):
        kind, ts, val = lit
        if kind in ("eq", "is", "in") and (tags(ts[0]) or (ts[0].k == "const" and tags(ts[1]))) and any(x is const("shutdown") or (x.k in ("tuple", "list", "set") and const("shutdown") in x.a[0]) for x in ts):
            return cl.add(st, "sd+" if val else "sd-")
        return st
    cl.assume_hook = hook
    res, it = run(p, cl, f, self_cls=S)
    ctx.absorb(it)
    n = 0
    paths = [seq(st) for _, st, _, _ in cl.iters] + [seq(st) for k, pl, st in res if "@iter" in seq(st)]
    runs = [i for i in cl.insts if i.label in ("run",)]
    ctx.ob("shutdown-tasks", any(i.label == "S.del" for i in cl.insts), "shutdown:delete", f.where, "shutdown tasks are not deleted")
    ctx.ob("shutdown-tasks", bool(runs), "shutdown:run", f.where, "shutdown tasks are not run")
    for s in set(paths):
        s = list(s)
        nd, nr, nc = s.count("S.del"), s.count("run"), s.count("coro")
        if "sd+" in s:
            n += 1
            ctx.ob("shutdown-tasks", nd == 1 and nr + nc <= 1 and (nr + nc == 0 or s.index("S.del") < min(s.index(x) for x in ("run", "coro") if x in s)), "shutdown:task", f.where, "shutdown task: " + " ".join(s))
        elif nd or nr or nc:
            ctx.ob("shutdown-tasks", False, "shutdown:task", f.where, "a task without shutdown trigger is " + " ".join(s))
    ctx.ob("shutdown-tasks", n > 0, "shutdown:test", f.where, "shutdown tasks are not selected by their trigger")
    for k, pl, st in res:
        if k == "raise":
            ctx.ob("isolated", pl.cls not in (OTHER, "builtins.BaseException"), "shutdown", f.where, f"a failing shutdown task makes shutdown raise {pl}", trace(st))
    ctx.ob("isolated", True, "shutdown", f.where)
    for i in runs:
        c = i.call
        ctx.ob("shutdown-tasks", any(x.k == "starred" or x.k == "star" or from_attr(x, "args") for x in c.args) and any(from_attr(v, "kwargs") for _, v in c.kw), "shutdown:arguments", i.where, f"shutdown task called with {show(c.args)} {c.kw}")
    # async helper
    g = p.method(S, "_ashutdown_fn_helper")
    if g is not None:
        cl = Rec(p, [])
        cl.dyn = runfn
        res, it = run(p, cl, g, self_cls=S)
        ctx.absorb(it)
        for k, pl, st in res:
            if k == "raise" and pl.cls == "builtins.AssertionError":
                continue
            ctx.ob("isolated", k == "return", g.qual, g.where, f"an async shutdown task's error leaves the helper: {pl}", trace(st))
    # asyncio timers
    for name in ("_shutdown", "shutdown"):
        for fq, (q, h) in concrete_methods(p, name).items():
            if h.cls.qual == S:
                continue
            tr = _super_outcomes(p, h, q, f)
            for outcome, s, w in tr:
                if outcome:
                    ctx.ob("timer", "cancel" in s, h.qual, h.where, "the timer keeps running after shutdown: " + " ".join(s))
                else:
                    ctx.ob("timer", "cancel" not in s, h.qual + ":nested", h.where, "a nested shutdown cancels the timer")
    ctx.floor("timer", 2)


def _super_outcomes(p, h, q, f):
    out = []
    for val in (TRUE, FALSE):
        cl = Rec(p, [E("cancel", ["stop_timer"]), E("super", "shutdown", when=lambda c: (c.fn.k == "func" and c.fn.a[0] == f.qual) or (c.recv is not None and c.recv.k == "super"), ret=lambda c, st: [val])], stop={"stop_timer"}, cap=1)
        res, it = run(p, cl, h, self_cls=q)
        for k, pl, st in res:
            if k == "return" and "super" in seq(st):
                out.append((val is TRUE, seq(st), h.where))
    return out
