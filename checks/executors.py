"""Executors: instance limit, exactly one completion report, one outcome per run time, pool recovery."""
import ast
import importlib.util

from sa.report import prop

from ._common import *
from .lifecycle import concrete_methods  # noqa: F401
from .scheduling import QUEUE, kwarg

X = "asyncz.executors.base.BaseExecutor"
FILES = ["asyncz/executors/base.py", "asyncz/executors/asyncio.py", "asyncz/executors/debug.py", "asyncz/executors/pool.py", "asyncz/executors/process_pool.py"]
CANCEL = "concurrent.futures.CancelledError"
ACANCEL = "asyncio.CancelledError"
REPORT = ("run_task_success", "run_task_error")


def impls(p, name, base=X):
    """distinct concrete implementations of a method over the executor classes"""
    out = {}
    for q in [base] + p.subclasses(base):
        f = p.method(q, name)
        if f is not None and f.qual not in out and f.cls is not None and base in p.mro(f.cls.qual):
            out[f.qual] = (q, f)
    return out


def slot_label(op, key, value):
    if op == "[]=" and value is not None:
        for x in [value] if value.k != "phi" else value.a[0]:
            if x.k == "op" and x.a[0] in ("Add", "Sub") and const(1) in x.a[1:]:
                return "slot+" if x.a[0] == "Add" else "slot-"
        return "slot=?"
    if op in ("del", "pop", "popitem"):
        return "slot-del"
    return "slot:" + op


class Sect(Rec):
    """marks entering/leaving any lock of the executor"""
    def with_enter(self, t, st, node, fr):
        r = Rec.with_enter(self, t, st, node, fr)
        if r and not st.ts[0]:
            r = [(a, self.add(b, "lock+")) for a, b in r]
        return r

    def with_exit(self, t, st, node, fr, exc):
        r = Rec.with_exit(self, t, st, node, fr, exc)
        if r:
            r = [(a, self.add(b, "lock-")) if not b.ts[0] else (a, b) for a, b in r]
        return r


def zero_marker(cl):
    """mark where the remaining count is known to be zero"""
    def hook(lit, st, node, fr):
        kind, ts, val = lit
        cnt = next((t for t in ts if isinstance(t, T) and is_count(t)), None)
        if cnt is None:
            return st
        left = cnt.k == "op" and cnt.a[0] == "Sub" and const(1) in cnt.a[1:]
        n = const(0) if left else const(1)
        z = False
        if kind == "truth":
            z = left and not val
        elif kind == "eq":
            z = val and n in ts
        elif kind == "lt" and len(ts) == 2:
            z = (not val and ts[1] is cnt and ts[0] is n) or (val and ts[0] is cnt and ts[1] is const(n.a[0] + 1))
        return cl.add(st, "zero") if z else st
    cl.assume_hook = hook


def is_max(t):
    return any(x.k == "attr" and x.a[1] == "max_instances" for x in subterms(t))


def is_count(t):
    return any(x.k == "idx" and from_attr(x.a[0], "instances") or x.k == "call" and x.a[0].k == "attr" and x.a[0].a[1] == "get" and from_attr(x.a[0].a[0], "instances") for x in subterms(t))


@prop("C10", "No task runs in more instances at once than its limit allows",
      """An executor hands a task on only when the number of its running instances is below the task's max_instances, and raises
      MaximumInstancesError otherwise without submitting. Check, submission and the increment by one happen in one lock section; a failing
      submission takes no slot. Each completion report gives back exactly one slot under the lock, before its events are announced and also when
      announcing fails.""",
      ["inputs", "schedules", "fault_sequences"],
      "every submission and completion of every executor class, concurrent or failing",
      "a check made outside the lock or a slot leaked on a failing submission shows only under concurrency or after a fault",
      FILES, [("send_task", "asyncz/executors/base.py:send_task"), ("completion reports", "asyncz/executors/base.py:run_task_success/run_task_error")],
      "path-sensitive event-sequence dataflow with lock-section markers",
      "Every path of every implementation of send_task and of the two completion reports is enumerated.")
def c10(ctx):
    p = ctx.proj
    ctx.rule("limit", "submission only below the limit, MaximumInstancesError otherwise")
    ctx.rule("one-section", "limit test, submission and increment in one lock section")
    ctx.rule("one-slot", "an accepted submission takes exactly one slot, a refused or failing one none")
    ctx.rule("give-back", "a completion report gives back exactly one slot, under the lock")
    ctx.rule("right-slot", "limit test, slot and submission are about the same task")
    for fq, (q, f) in impls(p, "send_task").items():
        ev = [E("submit", "do_send_task", raises=[OTHER]), M(slot_label, ["instances"])]
        cl = Sect(p, ev)

        def hook(lit, st, node, fr):
            kind, ts, val = lit
            if kind == "lt" and len(ts) == 2:
                a, b = ts
                if is_count(a) and is_max(b):
                    return cl.add(st, "below" if val else "full")
                if is_max(a) and is_count(b):
                    return cl.add(st, "over" if val else "atmost")     # max < n  /  n <= max
            if kind == "eq" and any(is_max(x) for x in ts) and any(is_count(x) for x in ts):
                return cl.add(st, "full" if val else "notequal")
            return st
        cl.assume_hook = hook
        res, it = run(p, cl, f, self_cls=q)
        ctx.absorb(it)
        ok = ref = 0
        for k, pl, st in res:
            s = list(seq(st))
            tried = "submit" in s or "submit!" in s
            if tried:
                at = s.index("submit") if "submit" in s else s.index("submit!")
                good = "below" in s[:at]
                ctx.ob("limit", good, fq, f.where, "submission although the instance count is not known to be below the limit", trace(st))
                if good:
                    b = s.index("below")
                    end = max([at] + [x for x, y in enumerate(s) if y.startswith("slot")])
                    ctx.ob("one-section", "lock+" in s[:b] and "lock-" not in s[s.index("lock+"):end + 1], fq, f.where, "limit test, submission and increment are not one lock section", trace(st))
            net = s.count("slot+") - s.count("slot-")
            odd = [x for x in s if x.startswith("slot") and x not in ("slot+", "slot-", "slot-del")]
            if k == "return":
                ok += 1
                ctx.ob("one-slot", "submit" in s and s.count("submit") == 1 and net == 1 and not odd and "slot-del" not in s, fq, f.where, "accepted submission: " + " ".join(s), trace(st))
            else:
                ctx.ob("one-slot", net == 0 and not odd, f"{fq}:failed", f.where, "refused or failed submission: " + " ".join(s), trace(st))
                if "full" in s and not tried:
                    ref += pl.cls == MAXINST
                    ctx.ob("limit", pl.cls == MAXINST, f"{fq}:refusal", f.where, f"limit reached reported as {pl.cls}", trace(st))
        ctx.ob("limit", ok > 0 and ref > 0, f"{fq}:outcomes", f.where, "acceptance or refusal is not reachable")
        tp = T("p", [a.arg for a in f.node.args.args][1])
        rt = T("p", [a.arg for a in f.node.args.args][2])
        for i in cl.insts:
            if i.label == "submit":
                ctx.ob("right-slot", i.call.arg(0, "task") is tp and i.call.arg(1, "run_times") is rt, fq, i.where, f"submits {show(i.call.args)}")
            elif i.label.startswith("slot"):
                ctx.ob("right-slot", i.key is T("attr", tp, "id"), fq + ":slot", i.where, f"slot of {show(i.key)}")
    for name in REPORT:
        for fq, (q, f) in impls(p, name).items():
            tid = T("p", [a.arg for a in f.node.args.args][1])
            cl = Sect(p, [M(slot_label, ["instances"]), E("ev", "dispatch_event", raises=[OTHER])], cap=1)
            zero_marker(cl)
            res, it = run(p, cl, f, self_cls=q)
            ctx.absorb(it)
            for k, pl, st in res:
                if k == "raise" and pl.cls.endswith("AssertionError"):
                    continue
                s = list(seq(st))
                given = s.count("slot-") == 1 or "slot-del" in s and "zero" in s[:s.index("slot-del")]
                ctx.ob("give-back", given and "slot+" not in s and not any(x.startswith("slot") and x not in ("slot-", "slot-del") for x in s), fq, f.where, "completion: " + " ".join(s), trace(st))
                if "ev" in s or "ev!" in s:
                    e = min(s.index(x) for x in ("ev", "ev!") if x in s)
                    ctx.ob("give-back", "slot-" in s[:e] or "slot-del" in s[:e], fq + ":order", f.where, "events announced before the slot is given back", trace(st))
                if "slot-del" in s:
                    ctx.ob("give-back", "zero" in s[:s.index("slot-del")], fq + ":delete", f.where, "the counter is dropped without knowing that it is zero", trace(st))
            # cap=1 hides repeats: recount with a higher cap
            cl2 = Rec(p, [M(slot_label, ["instances"])], cap=2)
            res, it = run(p, cl2, f, self_cls=q)
            for k, pl, st in res:
                if k == "raise" and pl.cls.endswith("AssertionError"):
                    continue
                ctx.ob("give-back", seq(st).count("slot-") <= 1 and seq(st).count("slot-del") <= 1, fq + ":once", f.where, f"{seq(st).count('slot-')} slots given back", trace(st))
            for i in cl.insts:
                if i.label.startswith("slot"):
                    ctx.ob("give-back", bool(i.locks), fq + ":lock", i.where, "slot given back without the lock")
                    ctx.ob("right-slot", i.key is tid, fq, i.where, f"slot of {show(i.key)}")
    ctx.floor("limit", 2)
    ctx.floor("give-back", 4)


@prop("C11", "Every run time of an execution has exactly one truthful outcome",
      """For each run time handed to a task execution exactly one outcome event is produced, with the task, store and that run time: missed iff a
      grace time is set and the run starts later than it allows, and then the function is not called; otherwise the function is called exactly
      once with the task's arguments and the outcome is executed with its return value, or error with the exception it raised. An error or a
      miss of one run time does not keep the others from running, and no Exception of the function escapes.""",
      ["inputs", "fault_sequences"],
      "every list of run times, grace setting, lateness and outcome of the task function, for plain and coroutine tasks",
      "tests run one or two run times with one outcome each; the mapping must hold for every mix",
      FILES[:1], [("run_task", "asyncz/executors/base.py:run_task"), ("run_coroutine_task", "asyncz/executors/base.py:run_coroutine_task")],
      "per-iteration path-sensitive event-sequence dataflow with branch markers",
      "Every path of one loop iteration of both execution functions is enumerated; the function call is forked into success and failure.")
def c11(ctx):
    p = ctx.proj
    ctx.rule("one-outcome", "exactly one outcome event per run time")
    ctx.rule("missed", "missed iff a grace time is set and exceeded; then no call")
    ctx.rule("called-once", "otherwise exactly one call with the task's arguments")
    ctx.rule("truthful", "executed with the return value or error with the raised exception")
    ctx.rule("payload", "the event names task, store and run time")
    ctx.rule("all-run-times", "an outcome never ends the loop; no exception of the function escapes; all events are returned")
    n = 0
    fs = [f for f in p.functions.values() if f.module.name.startswith("asyncz.executors") and f.cls is None and f.parent is None and f.name in ("run_task", "run_coroutine_task")]
    for f in fs:
        n += 1
        pn = [a.arg for a in f.node.args.args]
        task, store, runs = T("p", pn[0]), T("p", pn[1]), T("p", pn[2])
        cl = Rec(p, [QUEUE()], cap=2)
        cl.rel.names = frozenset(cl.rel.names | {"fn"})
        cl.rel.attrs = frozenset({"fn"})
        cl.dyn = lambda c: ("call", [EXC]) if c.fn.k == "attr" and c.fn.a[1] == "fn" else None
        cl.iter_of = lambda itm: contains(itm, runs)
        cl.keep_break = True
        grace = T("attr", task, "mistrigger_grace_time")

        def hook(lit, st, node, fr):
            kind, ts, val = lit
            if kind in ("is", "truth") and ts[0] is grace and (kind == "truth" or ts[1] is NONE):
                none = (kind == "is") == val
                return cl.add(st, ("nograce" if kind == "is" else "nograce?") if none else "grace")
            if kind == "lt" and len(ts) == 2:
                sign = lateness(ts[0], ts[1], grace, runs)
                if sign is not None:
                    return cl.add(st, ("late" if val else "ontime") if sign == 1 else ("ontime" if val else "late-or-equal") if sign == -1 else "?")
                g = [any(x is grace for x in subterms(t)) for t in ts]
                if g == [True, False] and is_elapsed(ts[1]):
                    return cl.add(st, "late" if val else "ontime")
                if g == [False, True] and is_elapsed(ts[0]):
                    return cl.add(st, "ontime" if val else "late-or-equal")
                if any(g):
                    # e.g. run_time + grace < now
                    lhs, rhs = ts
                    if any(is_now(x) for x in subterms(rhs)) and not any(is_now(x) for x in subterms(lhs)):
                        return cl.add(st, "late" if val else "ontime")
                    if any(is_now(x) for x in subterms(lhs)) and not any(is_now(x) for x in subterms(rhs)):
                        return cl.add(st, "ontime" if val else "late-or-equal")
            return st
        cl.assume_hook = hook
        res, it = run(p, cl, f)
        ctx.absorb(it)
        ctx.need(cl.iters, f"{f.name}: loop over the run times not found")
        got = set()
        for itm, st, node, fn in cl.iters:
            s = [x for x in seq(st) if x != "@iter"]
            q = [x for x in s if x.startswith("q:")]
            calls = s.count("call")
            ctx.ob("one-outcome", len(q) == 1, f.qual, f.where, f"{len(q)} outcome events for a run time: " + " ".join(s), trace(st))
            if not q:
                continue
            got.add(q[0])
            if q[0] == "q:TASK_MISSED":
                ctx.ob("missed", calls == 0 and "late" in s, f.qual, f.where, "reported missed: " + " ".join(s), trace(st))
            else:
                ctx.ob("called-once", calls == 1, f.qual, f.where, f"function called {calls} times", trace(st))
                ctx.ob("missed", "nograce" in s or "ontime" in s, f.qual + ":run", f.where, "run although not known to be on time: " + " ".join(s), trace(st))
                ctx.ob("truthful", q[0] == ("q:TASK_EXECUTED" if "call!" not in s else "q:TASK_ERROR"), f.qual, f.where, "outcome: " + " ".join(s), trace(st))
        ctx.ob("one-outcome", {"q:TASK_MISSED", "q:TASK_EXECUTED", "q:TASK_ERROR"} <= got, f.qual + ":all", f.where, f"only {sorted(got)} can be reported")
        for k, pl, st in res:
            if k == "raise":
                ctx.ob("all-run-times", pl.cls not in (EXC, BEXC, OTHER), f.qual, f.where, f"{pl.cls} escapes", trace(st))
            else:
                ctx.ob("all-run-times", "@iter" not in seq(st), f.qual + ":loop", f.where, "the loop over the run times ends early", trace(st))
        rets = {pl for k, pl, st in res if k == "return"}
        lists = {i.call.recv for i in cl.insts if i.label.startswith("q:")}
        ctx.ob("all-run-times", rets == lists and len(rets) == 1, f.qual + ":returned", f.where, f"events collected in {[show(x) for x in lists]}, returned {[show(x) for x in rets]}")
        calls = {i.call for i in cl.insts if i.label == "call"}
        for i in cl.insts:
            if i.label == "call":
                c = i.call
                ok = T("rest", T("attr", task, "args")) in c.args or any(contains(a, T("attr", task, "args")) for a in c.args)
                kw = any(contains(v, T("attr", task, "kwargs")) for k, v in c.kw)
                ctx.ob("called-once", ok and kw and c.fn is T("attr", task, "fn"), f.qual + ":args", i.where, f"called with {show(c.args)} {c.kw}")
            elif i.label.startswith("q:"):
                code = i.label[2:]
                for nw in [y for a in i.call.args for y in event_terms(a)]:
                    ctx.ob("payload", new_kw(nw, "task_id") is T("attr", task, "id") and new_kw(nw, "store") is store, f"{f.qual}:{code}", i.where, "event names another task or store")
                    rt = new_kw(nw, "scheduled_run_time")
                    ctx.ob("payload", rt is not None and not (rt.k == "idx" and rt.a[1].k in ("const", "slice")) and contains(rt, runs), f"{f.qual}:{code}:time", i.where, f"event run time is {show(rt) if rt is not None else None}")
                    if code == "TASK_EXECUTED":
                        v = new_kw(nw, "return_value")
                        ctx.ob("truthful", v is not None and any(x.k == "attr" and x.a[1] == "fn" for x in subterms(v)), f"{f.qual}:value", i.where, f"return value is {show(v) if v is not None else None}")
                    if code == "TASK_ERROR":
                        v = new_kw(nw, "exception")
                        ctx.ob("truthful", v is not None and v.k == "excv", f"{f.qual}:exception", i.where, f"exception is {show(v) if v is not None else None}")
    ctx.need(n >= 2, "execution functions not found")


def is_now(t):
    return t.k == "call" and t.a[0].k in ("ref", "attr") and show(t.a[0]).split(".")[-1] in ("now", "utcnow", "time")


def linear(t, factor=1, out=None):
    """{leaf: coefficient} of sums and differences, looking through unit conversions of times"""
    out = {} if out is None else out
    if t.k == "op" and t.a[0] in ("Add", "Sub") and len(t.a) == 3:
        linear(t.a[1], factor, out)
        linear(t.a[2], factor if t.a[0] == "Add" else -factor, out)
    elif t.k == "call" and t.a[0].k == "attr" and t.a[0].a[1] in ("total_seconds", "timestamp") and not is_now(t):
        linear(t.a[0].a[0], factor, out)
    elif t.k in ("call", "new") and show(t.a[0] if t.k == "call" else T("ref", t.a[0])).split(".")[-1] == "timedelta" and [k for k, _ in t.a[2]] == ["seconds"] and not t.a[1]:
        linear(t.a[2][0][1], factor, out)
    else:
        out[t] = out.get(t, 0) + factor
    return out


def lateness(lhs, rhs, grace, runs):
    """lhs < rhs is: 1 now - run time > grace, -1 its opposite, 0 something else about them, None not understood"""
    form = linear(rhs)
    for t, n in linear(lhs).items():
        form[t] = form.get(t, 0) - n
    form = {t: n for t, n in form.items() if n}
    now, late = [n for t, n in form.items() if is_now(t)], [n for t, n in form.items() if t is grace]
    run_ = [n for t, n in form.items() if not is_now(t) and t is not grace and contains(t, runs)]
    if len(now) != 1 or len(late) != 1 or len(run_) != 1 or len(form) != 3:
        return None
    return 1 if (now[0], late[0], run_[0]) == (1, -1, -1) else -1 if (now[0], late[0], run_[0]) == (-1, 1, 1) else 0


def is_elapsed(t):
    return any(x.k == "op" and x.a[0] == "Sub" and any(is_now(y) for y in subterms(x.a[1])) and not any(is_now(y) for y in subterms(x.a[2])) for x in subterms(t))


class Callbacks(Rec):
    """runs a registered done callback at once and marks its outcome"""
    def call(self, c, st):
        if c.name == "add_done_callback" and c.args:
            self.record("attach", "call", st, c.node, c.func, call=c, base=c.recv, stack=c.stack)
            st = self.add(st, "attach")
            out = []
            for kind, v, x in self.invoke(c, c.args[0], (c.recv,), st):
                if kind == "raise":
                    x = self.add(x, "escaped")
                out.append(("ok", NONE, self.add(x, "cb.")))
            return out
        return Rec.call(self, c, st)


@prop("C12", "Every accepted execution is reported complete exactly once",
      """For every execution an executor accepts, exactly one of success or error is reported to the scheduler, exactly once, with the task's
      id, whatever happens to it: it returns, raises, or is cancelled; nothing escapes the completion callback before the report. Success is
      reported with the events the execution produced and each of them is announced exactly once, in order.""",
      ["inputs", "fault_sequences"],
      "every executor class and every way an execution can end (result, any exception, cancellation)",
      "cancelled and failing futures are not exercised together with the instance accounting; a lost report blocks the task for ever",
      FILES, [("asyncio", "asyncz/executors/asyncio.py:do_send_task"), ("pools", "asyncz/executors/pool.py:do_send_task"), ("debug", "asyncz/executors/debug.py:do_send_task"), ("reports", "asyncz/executors/base.py:run_task_success/run_task_error")],
      "path-sensitive event-sequence dataflow through the registered completion callbacks",
      "Each implementation of do_send_task is analysed with its done callback inlined; future results are forked into value, exception and cancellation.")
def c12(ctx):
    p = ctx.proj
    ctx.rule("reported-once", "exactly one completion report per accepted execution, before anything can escape")
    ctx.rule("attached", "a completion callback is attached exactly once to every accepted execution")
    ctx.rule("truthful", "success only with the events of a finished execution, for the same task")
    ctx.rule("announced", "each event of a successful execution is announced exactly once")
    ctx.rule("tracked", "the asyncio executor tracks every future until its callback and cancels the unfinished ones at shutdown")
    n = 0
    for fq, (q, f) in impls(p, "do_send_task").items():
        if f.is_abstract if hasattr(f, "is_abstract") else f.has_decorator("abstractmethod"):
            continue
        n += 1
        tp = T("p", [a.arg for a in f.node.args.args][1])
        ev = [E("ok", "run_task_success", when=lambda c: True), E("err", "run_task_error"),
              E("res", "result", raises=[CANCEL, ACANCEL, EXC], split=True, when=fut),
              E("exc", ["exception", "exception_info"], raises=[CANCEL, ACANCEL], split=True, when=fut),
              E("run", ["run_task"], raises=[OTHER]),
              E("sub", ["submit", "run_coroutine_threadsafe"], when=lambda c: not is_self(c.recv)),
              E("asub", ["run_in_executor", "create_task", "ensure_future"], when=lambda c: not is_self(c.recv)),
              E("", "cancelled", when=fut)]
        cl = Callbacks(p, ev, cap=3)

        def hook(lit, st, node, fr):
            kind, ts, val = lit
            a = ts[0]
            if kind == "truth" and a.k == "call" and a.a[0].k == "attr" and a.a[0].a[1] == "cancelled":
                return cl.add(st, "canc+" if val else "canc-")
            ex = a.k in ("call", "idx", "elem") and any(x.k == "call" and x.a[0].k == "attr" and x.a[0].a[1] in ("exception", "exception_info") for x in subterms(a))
            if ex and (kind == "truth" or kind == "is" and ts[1] is NONE):
                return cl.add(st, "exc+" if val == (kind == "truth") else "exc-")
            return st
        cl.assume_hook = hook
        res, it = run(p, cl, f, self_cls=q)
        ctx.absorb(it)
        okp = 0
        kinds = set()
        for k, pl, st in res:
            s = list(seq(st))
            if infeasible(s):
                continue
            s = ["sub" if x == "asub" else x for x in s]
            if k == "raise":
                ctx.ob("reported-once", "attach" not in s or pl.cls.endswith("AssertionError"), f"{fq}:raise", f.where, f"accepted execution raises {pl.cls}", trace(st))
                continue
            okp += 1
            rep = s.count("ok") + s.count("err")
            ctx.ob("reported-once", rep == 1, fq, f.where, f"{rep} completion reports: " + " ".join(s), trace(st))
            ctx.ob("reported-once", "escaped" not in s, fq + ":escape", f.where, "the callback raises: " + " ".join(s), trace(st))
            if "sub" in s:
                ctx.ob("attached", s.count("attach") == 1, fq, f.where, f"{s.count('attach')} callbacks attached", trace(st))
            if "ok" in s:
                kinds.add("ok")
                done = [x for x in s[:s.index("ok")] if x in ("res", "run")]
                ctx.ob("truthful", bool(done) and "exc+" not in s and "canc+" not in s, fq + ":success", f.where, "success reported for " + " ".join(s), trace(st))
            if "err" in s:
                kinds.add("err")
                ctx.ob("truthful", any("!" in x for x in s) or "exc+" in s or "canc+" in s, fq + ":error", f.where, "error reported for " + " ".join(s), trace(st))
        ctx.ob("reported-once", okp > 0 and kinds == {"ok", "err"}, fq + ":outcomes", f.where, f"reports possible: {sorted(kinds)}")
        for i in cl.insts:
            if i.label in ("ok", "err"):
                ctx.ob("truthful", i.call.arg(0, "task_id") is T("attr", tp, "id"), f"{fq}:{i.label}:id", i.where, f"reported for {show(i.call.arg(0, 'task_id'))}")
                if i.label == "ok":
                    e = i.call.arg(1, "events")
                    ctx.ob("truthful", e is not None and e.k == "call" and show(e.a[0]).split(".")[-1] in ("result", "run_task"), f"{fq}:events", i.where, f"events are {show(e) if e is not None else None}")
    ctx.need(n >= 3, "executor implementations not found")
    f = p.method(X, "run_task_success")
    cl = Rec(p, [E("ev", "dispatch_event"), E("err", "run_task_error")], cap=3)
    cl.iter_rel = True
    evp = T("p", [a.arg for a in f.node.args.args][2])
    cl.keep_break = True
    res, it = run(p, cl, f, self_cls=X)
    ctx.absorb(it)
    ctx.ob("announced", bool(cl.iters), "success", f.where, "the events of a finished execution are not announced")
    for itm, st, node, fn in cl.iters:
        itm = bare(itm)
        if itm.k in ("newlist", "list", "tuple"):
            # `events or []`
            none = any(v is False and k == "truth" and ts[0] is evp or v and k == "is" and ts == (evp, NONE) for k, ts, v in st.facts)
            ctx.ob("announced", none, "success:none", f.where, "no event is announced although there may be some", trace(st))
            continue
        whole = not any(x.k == "idx" and x.a[1].k in ("slice", "const") for x in subterms(itm))
        ctx.ob("announced", seq(st).count("ev") == 1 and contains(itm, evp) and whole, "success", f.where, f"event announced {seq(st).count('ev')} times", trace(st))
    for k, pl, st in res:
        ctx.ob("announced", "@iter" not in seq(st), "success:all", f.where, "the announcements end early", trace(st))
    for i in cl.insts:
        if i.label == "ev" and not (i.call.arg(0, "event") is not None and any(x.k == "newlist" for x in subterms(i.call.arg(0, "event")))):
            ctx.ob("announced", i.call.arg(0, "event") is not None and contains(i.call.arg(0, "event"), evp), "success:which", i.where, f"announces {show(i.call.arg(0, 'event'))}")
    # asyncio executor bookkeeping
    q = next((c for c in p.subclasses(X) if "pending_futures" in _attrs_of(p, c)), None)
    if q is not None:
        f = p.method(q, "do_send_task")
        cl = Callbacks(p, [M(lambda op, k, v: "track" if op in ("add", "append") else "untrack" if op in ("discard", "remove") else "p:" + op, ["pending_futures"])], cap=3)
        res, it = run(p, cl, f, self_cls=q)
        ctx.absorb(it)
        for k, pl, st in res:
            if k == "return":
                s = list(seq(st))
                ctx.ob("tracked", s.count("track") == 1 and "untrack" in s, q + ":add", f.where, "bookkeeping: " + " ".join(s), trace(st))
        for i in cl.insts:
            if i.label in ("track",):
                ctx.ob("tracked", i.value is not None and i.value in {j.base for j in cl.insts if j.label == "attach"}, q + ":which", i.where, f"tracks {show(i.value)}")
        f = p.method(q, "shutdown")
        cl = Rec(p, [E("cancel", "cancel"), E("", "done")], cap=1)
        cl.iter_of = lambda itm: from_attr(itm, "pending_futures") or itm is NONE
        cl.keep_break = True

        def hook2(lit, st, node, fr):
            if lit[0] == "truth" and lit[1][0].k == "call" and lit[1][0].a[0].k == "attr" and lit[1][0].a[0].a[1] == "done":
                return cl.add(st, "done" if lit[2] else "undone")
            return st
        cl.assume_hook = hook2
        res, it = run(p, cl, f, self_cls=q)
        ctx.absorb(it)
        ctx.ob("tracked", bool(cl.iters), q + ":shutdown", f.where, "shutdown does not go through the unfinished futures")
        for itm, st, node, fn in cl.iters:
            ctx.ob("tracked", "cancel" in seq(st) or "done" in seq(st), q + ":cancel", f.where, "an unfinished future is not cancelled at shutdown", trace(st))
        for k, pl, st in res:
            ctx.ob("tracked", k == "return" and "@iter" not in seq(st), q + ":all", f.where, "shutdown ends early", trace(st))
    ctx.floor("reported-once", 6)


def _attrs_of(p, q):
    return {n.attr for n in ast.walk(p.classes[q].node) if isinstance(n, ast.Attribute)}


def fut(c):
    return c.recv is not None and not is_self(c.recv) and c.recv.k not in ("ref",)


CANC = ("res!CancelledError", "exc!CancelledError", "res!asyncio", "exc!asyncio")


def infeasible(s):
    """paths on which the future's answers contradict each other"""
    canc = any(x in s for x in CANC)
    if "sub" in s and any(x.endswith("!asyncio") for x in s) or "asub" in s and any(x.endswith("!CancelledError") for x in s):
        return True
    if "canc-" in s and canc or "canc+" in s and (any(x in s for x in ("res", "exc", "res!Exception"))):
        return True
    if "exc-" in s and ("res!Exception" in s or canc):
        return True
    if "exc" in s and canc:
        return True
    return False


@prop("C14", "A broken worker pool is replaced and the execution resubmitted",
      """When submitting to a pool fails because the pool is broken, the pool is replaced by a new working one of the same kind and the same
      execution is submitted to the new pool exactly once; no submission is duplicated and none is lost. Replacing uses only attributes the
      pool really has. Shutting a pool executor down shuts its current pool down.""",
      ["fault_sequences"],
      "every failing submission on either pool executor",
      "tests never break a pool; the replacement path is dead code for them",
      ["asyncz/executors/pool.py", "asyncz/executors/process_pool.py"], [("do_send_task", "asyncz/executors/pool.py:do_send_task"), ("shutdown", "asyncz/executors/pool.py:shutdown")],
      "path-sensitive event-sequence dataflow with an injected broken pool; attribute resolution against the standard library's source",
      "The failing submission path is enumerated; attributes read from the pool are looked up in the installed concurrent.futures classes (source only).")
def c14(ctx):
    p = ctx.proj
    ctx.rule("replaced", "a broken pool is replaced and the execution submitted once more, to the new pool, with the same arguments")
    ctx.rule("attributes", "attributes read from the pool exist on every pool class used")
    ctx.rule("shutdown", "shutdown shuts the current pool down with the caller's wait choice")
    q = next((c for c in p.subclasses(X) if c.split(".")[-1] == "BasePoolExecutor"), None)
    ctx.need(q, "pool executor not found")
    broken = "concurrent.futures.process.BrokenProcessPool"

    class C(Callbacks):
        def call(self, c, st):
            if c.name == "submit" and c.recv is not None:
                self.record("submit", "call", st, c.node, c.func, call=c, base=c.recv, stack=c.stack)
                first = not any(x.startswith("submit") for x in seq(st))
                ok = ("ok", self.default_term(c), self.add(st, "submit"))
                return [ok, ("raise", broken, self.add(st, "submit!"))] if first else [ok]
            return Callbacks.call(self, c, st)
    f = p.method(q, "do_send_task")
    cl = C(p, [W("newpool", ["pool"], when=lambda b, n, v, st: is_self(b))], cap=3)
    cl.rel.names = frozenset(cl.rel.names | {"submit", "add_done_callback"})
    res, it = run(p, cl, f, self_cls=q)
    ctx.absorb(it)
    rec = 0
    for k, pl, st in res:
        s = [x for x in seq(st) if x in ("submit", "submit!", "newpool", "attach")]
        if k == "raise":
            ctx.ob("replaced", "submit!" not in s, "do_send_task:lost", f.where, f"a broken pool ends the submission with {pl.cls}", trace(st))
        elif "submit!" in s:
            rec += 1
            ctx.ob("replaced", s == ["submit!", "newpool", "submit", "attach"], "do_send_task", f.where, "broken pool: " + " ".join(s), trace(st))
        else:
            ctx.ob("replaced", s == ["submit", "attach"], "do_send_task:normal", f.where, "submission: " + " ".join(s), trace(st))
    ctx.ob("replaced", rec > 0, "do_send_task:recovery", f.where, "a broken pool is not replaced")
    subs = [i for i in cl.insts if i.label == "submit"]
    ctx.ob("replaced", len({tuple(i.call.args) for i in subs}) <= 1, "do_send_task:same", f.where, "the resubmission differs: " + " / ".join(show(a) for a in {i.call.args for i in subs}))
    new = [i for i in cl.insts if i.label == "newpool"]
    for i in new:
        ctx.ob("replaced", i.value.k in ("new", "call"), "do_send_task:fresh", i.where, f"pool replaced by {show(i.value)}")
    for i in subs:
        if any(x == "newpool" for x in i.seq):
            ctx.ob("replaced", any(i.base is j.value for j in new) or (i.base.k == "attr" and i.base.a[1] == "pool"), "do_send_task:target", i.where, f"resubmitted to {show(i.base)}")
    # attributes of the pool
    pools = {}
    for m, cn in (("concurrent.futures.thread", "ThreadPoolExecutor"), ("concurrent.futures.process", "ProcessPoolExecutor")):
        spec = importlib.util.find_spec(m)
        tree = ast.parse(open(spec.origin, encoding="utf-8").read())
        names = {"__class__", "__dict__", "__doc__"}
        for c in [x for x in tree.body if isinstance(x, ast.ClassDef) and x.name == cn]:
            for x in ast.walk(c):
                if isinstance(x, ast.FunctionDef):
                    names.add(x.name)
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == "self":
                    names.add(x.attr)
        base = ast.parse(open(importlib.util.find_spec("concurrent.futures._base").origin, encoding="utf-8").read())
        for c in [x for x in base.body if isinstance(x, ast.ClassDef) and x.name == "Executor"]:
            names |= {x.name for x in c.body if isinstance(x, ast.FunctionDef)}
        pools[cn] = names
    for qq in [q] + p.subclasses(q):
        c = p.classes[qq]
        for x in ast.walk(c.node):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Attribute) and x.value.attr == "pool" and isinstance(x.value.value, ast.Name) and x.value.value.id == "self":
                miss = [n for n, a in pools.items() if x.attr not in a]
                ctx.ob("attributes", not miss, f"{qq}:{x.attr}", f"{c.module.rel}:{x.lineno}", f"{', '.join(miss)} has no attribute {x.attr}")
    for fq, (cq, f) in impls(p, "shutdown", q).items():
        w = T("p", "wait")
        cl = Rec(p, [E("stop", "shutdown", when=lambda c: c.recv is not None and c.recv.k == "attr" and c.recv.a[1] == "pool")])
        res, it = run(p, cl, f, self_cls=cq)
        ctx.absorb(it)
        for k, pl, st in res:
            ctx.ob("shutdown", seq(st).count("stop") == 1, fq, f.where, f"the pool is shut down {seq(st).count('stop')} times", trace(st))
        for i in cl.insts:
            a = i.call.arg(0, "wait")
            ov = a is not None and (a is w or (a.k == "phi" and w in a.a[0]) or contains(a, w) or from_attr(a, "overwrite_wait"))
            ctx.ob("shutdown", ov, fq + ":wait", i.where, f"wait is {show(a) if a is not None else None}")
    ctx.floor("attributes", 2)
