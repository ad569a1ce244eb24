"""One scheduling pass and one manual run: dispositions, submissions, notifications, isolation."""
from sa.report import prop

from ._common import *

RUN_EXC = EXC


def is_event_new(t):
    return t is not None and bool(event_terms(t)) and all("vent" in x.a[0].split(".")[-1] for x in event_terms(t))


def qlabel(c):
    t = next((a for a in c.args if is_event_new(a)), None)
    return "q:" + event_code(t)


def QUEUE():
    """an event constructed and stored for later delivery"""
    return E(qlabel, ["append", "add", "appendleft", "put", "put_nowait", "insert"], when=lambda c: any(is_event_new(a) for a in c.args))


def kwarg(c, name, pos=None):
    for k, v in c.kw:
        if k == name:
            return v
    return c.args[pos] if pos is not None and pos < len(c.args) else None


def upd_next(c):
    """next_run_time argument of an update_task call"""
    return kwarg(c, "next_run_time")


def pass_events(raises_next=False, raises_runs=False):
    return [
        E("look", "lookup_executor", raises=[EXC]),
        E("send", ["send_task"], raises=[MAXINST, OTHER], split=True),
        E("runs", "get_run_times", raises=[EXC] if raises_runs else ()),
        E("S.update", "update_task", when=lambda c: is_store(c.recv)),
        E("T.update", "update_task", when=lambda c: not is_store(c.recv) and not is_self(c.recv)),
        E("del", "delete_task", when=lambda c: is_self(c.recv)),
        E("S.del", "delete_task", when=lambda c: not is_self(c.recv)),
        E("next", "get_next_trigger_time", raises=[EXC] if raises_next else ()),
        QUEUE(), DISPATCH(),
    ]


def runs_term(t):
    return [x for x in subterms(t) if x.k == "call" and x.a[0].k == "attr" and x.a[0].a[1] == "get_run_times"]


def branch_labels(cl):
    """mark on the sequence which way the tests on the run times and on the next run time went"""
    def hook(lit, st, node, fr):
        kind, ts, val = lit
        a = ts[0]
        if kind in ("truth", "is") and a.k == "call" and a.a[0].k == "attr" and a.a[0].a[1] == "get_next_trigger_time":
            if kind == "truth" or ts[1] is NONE:
                return cl.add(st, "n+" if val == (kind == "truth") else "n-")
        if kind in ("truth", "eq", "lt", "is") and any(isinstance(x, T) and runs_term(x) for x in ts):
            return cl.add(st, "r?")
        return st
    cl.assume_hook = hook


def last_only(t, runs):
    """t is a one-element sequence holding the last element of runs"""
    if t.k == "idx" and t.a[0] is runs and t.a[1].k == "slice":
        sl = t.a[1].a[0]
        return sl[0] is const(-1) and (sl[1] is None or sl[1] is NONE) and (sl[2] is None or sl[2] is NONE)
    if t.k in ("list", "tuple") and len(t.a[0]) == 1:
        return is_last(t.a[0][0], runs)
    return False


def is_last(t, runs):
    return t.k == "idx" and t.a[0] is runs and t.a[1] is const(-1)


def is_last_of_submitted(t, sub, runs):
    if is_last(t, sub) or is_last(t, runs):
        return True
    if sub.k in ("list", "tuple") and len(sub.a[0]) == 1 and t is sub.a[0][0]:
        return True
    # runs[-1:][0]
    return t.k == "idx" and t.a[0] is sub and t.a[1] is const(0) and last_only(sub, runs)


def dropped_count(t, runs):
    return t.k == "op" and t.a[0] == "Sub" and t.a[2] is const(1) and t.a[1].k == "call" and t.a[1].a[0] is T("ref", "builtins.len") and t.a[1].a[1] == (runs,)


def truthy(st, t):
    """truth value of t known on this path (also through `is None`)"""
    for f in st.facts:
        if f[0] == "truth" and f[1][0] is t:
            return f[2]
        if f[0] == "is" and f[1][0] is t and f[1][1] is NONE:
            return not f[2]
    return None


def coalesce_fact(st, task=None):
    for f in st.facts:
        if f[0] in ("truth",) and f[1][0].k == "attr" and f[1][0].a[1] == "coalesce":
            return f[2]
        if f[0] in ("is", "eq") and f[1][0].k == "attr" and f[1][0].a[1] == "coalesce" and f[1][1].k == "const":
            return bool(f[1][1].a[0]) == f[2]
    return None


def judge_submission(ctx, i, rule, fn):
    """the run times handed to the executor, and the coalesced count that goes with them"""
    c = i.call
    task, sub = c.arg(0, "task"), c.arg(1, "run_times")
    rts = runs_term(sub) if sub is not None else []
    return task, sub, (rts[0] if rts else None)


@prop("C20", "Every due task gets exactly one disposition per pass",
      """In one scheduling pass each due task is handed to its executor at most once, and then either moved to the next run time its trigger
      gives after the last submitted run time, or deleted when the trigger gives none; the store that reported it is the store that is updated.
      A task whose executor is unknown is deleted and not run; a refused submission (instance limit or executor error) still moves the task
      on, so it is neither run twice nor stuck. With coalescing on, several due run times are submitted as only the latest one.""",
      ["inputs", "histories", "fault_sequences"],
      "every due task, run-time list, coalesce setting, executor outcome (accepted, instance limit, any error) and next-run-time outcome",
      "tests drive single passes with one outcome; the property is about every combination of executor outcome, coalescing and trigger exhaustion",
      ["asyncz/schedulers/base.py"], [("scheduling pass", "asyncz/schedulers/base.py:process_tasks"), ("per-store part", "asyncz/schedulers/base.py:_process_tasks_of_store")],
      "interprocedural path-sensitive event-sequence dataflow with value numbering",
      "All paths through the pass are enumerated with helpers inlined; executor acceptance, refusal and failure are forked at the call. Trigger arithmetic itself is not decided.")
def c20(ctx):
    p = ctx.proj
    ctx.rule("unknown-executor", "a due task whose executor lookup fails is deleted once, not submitted, not rescheduled")
    ctx.rule("submit-once", "a due task with run times is submitted exactly once; one without is left alone")
    ctx.rule("moved-or-deleted", "after every submission outcome: task and store updated with the next run time if there is one, else deleted")
    ctx.rule("next-after-last", "the next run time is asked for after the last submitted run time and the pass's current time")
    ctx.rule("coalesce", "coalescing submits only the latest run time, otherwise all of them")
    ctx.rule("same-task", "executor, store, deletion and update all refer to the due task and the store it came from")
    cl = Rec(p, pass_events(), stop={"delete_task", "dispatch_event"}, cap=2)
    cl.iter_rel, cl.iter_events = True, frozenset(["send_task"])
    branch_labels(cl)
    res, it = run(p, cl, S + ".process_tasks")
    ctx.absorb(it)
    f = p.method(S, "process_tasks")
    sends = [i for i in cl.insts if i.label == "send"]
    ctx.need(sends, "executor submission not found in the scheduling pass")
    fq = sends[0].fn
    w = sends[0].where
    its = [(st, seq(st)) for _, st, _, _ in cl.iters] + [(st, seq(st)) for k, pl, st in res if "@iter" in seq(st)]
    seen_kinds = set()
    for st, s in its:
        s = [x for x in s[1:] if not x.startswith(("q:", "ev:"))]
        if not s:
            continue
        tr = trace(st)
        nd, nu, nt = s.count("del") + s.count("S.del"), s.count("S.update"), s.count("T.update")
        if "look!" in s:
            seen_kinds.add("look!")
            ctx.ob("unknown-executor", nd == 1 and nu == 0 and not any(x.startswith("send") for x in s), fq, w, "unknown executor: " + " ".join(s), tr)
            continue
        ns = sum(1 for x in s if x.startswith("send"))
        if ns == 0:
            if not s or all(x == 'look' for x in s) and 'look' not in s:
                continue      # iteration of an enclosing loop
            ok = nd == nu == nt == 0
            emp = "r?" in s
            ctx.ob("submit-once", ok and emp, fq, w, "a due task is not submitted" + ("" if ok else ", but changed") + ("" if emp else ", whatever its run times"), tr)
            continue
        ctx.ob("submit-once", ns == 1, fq, w, f"a due task is submitted {ns} times", tr)
        out = next(x for x in s if x.startswith("send"))
        seen_kinds.add(out)
        moved = nu == 1 and nt == 1 and nd == 0 and s.index("T.update") < s.index("S.update")
        gone = nd == 1 and nu == 0
        ctx.ob("moved-or-deleted", moved or gone, f"{fq}:{out}", w, f"after {out}: " + " ".join(s), tr)
        if "next" in s:
            v = True if "n+" in s else False if "n-" in s else None
            ctx.ob("moved-or-deleted", v is not None and v == moved, f"{fq}:{out}", w, f"next run time {'exists' if v else 'absent or not checked'} but the task is {'moved' if moved else 'deleted'}", tr)
        else:
            ctx.ob("moved-or-deleted", False, f"{fq}:{out}", w, f"no next run time computed after {out}", tr)
    ctx.need(seen_kinds >= {"send", "look!"} and len(seen_kinds) >= 4, f"scheduling pass outcomes not all reached: {sorted(seen_kinds)}")
    # value rules
    for i in sends:
        task, sub, runs = judge_submission(ctx, i, "coalesce", fq)
        ok_task = task is not None and i.base is not None and T("attr", task, "executor") in list(subterms(i.base))
        ctx.ob("same-task", ok_task, fq + ":executor", i.where, f"submitted to {show(i.base)} instead of the task's own executor")
        ctx.ob("same-task", runs is not None and runs.a[0].a[0] is task, fq + ":run-times", i.where, "submitted run times are not the task's own")
        if runs is None:
            continue
        co = coalesce_fact(i.st)
        if co is True:
            ctx.ob("coalesce", last_only(sub, runs), fq, i.where, f"coalesced submission of {show(sub)}")
        elif co is False:
            ctx.ob("coalesce", sub is runs, fq, i.where, f"without coalescing {show(sub)} is submitted")
        elif co is None:
            ctx.ob("coalesce", False, fq, i.where, "submission does not depend on the task's coalesce setting")
    subs = {(i.call.arg(0, "task"), i.call.arg(1, "run_times")) for i in sends}
    tasks = {t for t, _ in subs}
    for i in cl.insts:
        if i.label == "next" and i.base is not None:
            c = i.call
            owner = i.base.a[0] if i.base.k == "attr" else None
            sub = [s for t, s in subs if t is owner]
            ctx.ob("same-task", bool(sub), fq + ":trigger", i.where, "next run time asked from another task's trigger")
            prev, now = kwarg(c, "previous_time", 1), kwarg(c, "now", 2)
            ok = prev is not None and any(is_last_of_submitted(prev, s, (runs_term(s) or [None])[0]) for s in sub)
            ctx.ob("next-after-last", ok, fq, i.where, f"next run time computed after {show(prev) if prev is not None else None}, not after the last submitted run time")
            ctx.ob("next-after-last", now is not None and now.k in ("call",) and "now" in show(now), fq + ":now", i.where, f"current time argument is {show(now) if now is not None else None}")
        elif i.label == "T.update":
            ctx.ob("same-task", i.base in tasks, fq + ":T.update", i.where, f"updates {show(i.base)}")
            v = upd_next(i.call)
            ctx.ob("next-after-last", v is not None and any(x.k == "call" and x.a[0].k == "attr" and x.a[0].a[1] == "get_next_trigger_time" for x in subterms(v)), fq + ":stored", i.where, f"stored next run time is {show(v) if v is not None else 'missing'}")
        elif i.label == "S.update":
            ctx.ob("same-task", i.call.arg(0, "task") in tasks, fq + ":S.update", i.where, "stores another task")
            src = [x for t in tasks for x in subterms(t) if x.k == "call" and x.a[0].k == "attr" and x.a[0].a[1] == "get_due_tasks"]
            ctx.ob("same-task", any(x.a[0].a[0] is i.base for x in src), fq + ":store", i.where, f"updates store {show(i.base)}")
        elif i.label == "del":
            a, b = i.call.arg(0, "task_id"), i.call.arg(1, "store")
            ctx.ob("same-task", a is not None and (a in tasks or (a.k == "attr" and a.a[1] == "id" and a.a[0] in tasks)), fq + ":delete", i.where, f"deletes {show(a)}")
            ctx.ob("same-task", b is None or b is NONE or (b.k in ("key", "elem") and from_attr(b, "stores")), fq + ":delete-store", i.where, f"deletes from {show(b)}")
    ctx.floor("same-task", 6)


@prop("C06", "Submission events describe each submission decision exactly once",
      """Every time the scheduler decides on a due or manually run task it announces exactly one submission event if the executor accepted the
      run, exactly one instance-limit event if the executor refused it, and none of these if submission failed. The event names the task, the
      store, exactly the run times handed to the executor, how many were dropped by coalescing, and whether the run was scheduled or manual.
      During a scheduling pass no event is delivered while the scheduler's store lock is held, and every announced decision is delivered.""",
      ["inputs", "histories", "schedules"],
      "every task, executor outcome, coalescing outcome, in scheduled passes and manual runs",
      "tests check one event for one task; the pairing must hold for every outcome and the no-lock rule only shows as a deadlock under contention",
      ["asyncz/schedulers/base.py"], [("scheduling pass", "asyncz/schedulers/base.py:process_tasks"), ("manual run", "asyncz/schedulers/base.py:run_task")],
      "interprocedural event-sequence dataflow, value numbering of event payloads, lock sets at delivery",
      "Decides which event is built on each outcome, its payload as symbolic values and where it is delivered; listener behaviour is C04.")
def c06(ctx):
    p = ctx.proj
    ctx.rule("accepted", "an accepted submission queues or dispatches exactly one TASK_SUBMITTED, after the executor accepted")
    ctx.rule("refused", "an instance-limit refusal announces exactly one TASK_MAX_INSTANCES and no TASK_SUBMITTED")
    ctx.rule("failed", "any other failure announces neither")
    ctx.rule("payload", "task id, store, run times, coalesced count and source match the submission")
    ctx.rule("delivered", "queued events are dispatched after the pass, one dispatch per event, with no scheduler or store lock held")
    for entry, source in (("process_tasks", "scheduled"), ("run_task", "manual")):
        cl = Rec(p, pass_events(), stop={"delete_task", "dispatch_event"}, cap=2)
        if entry == "process_tasks":
            cl.iter_rel, cl.iter_events = True, frozenset(["send_task"])
        res, it = run(p, cl, f"{S}.{entry}")
        ctx.absorb(it)
        f = p.method(S, entry)
        sends = [i for i in cl.insts if i.label == "send"]
        ctx.need(sends, f"no submission in {entry}")
        cons = f"{entry}"
        paths = [(st, seq(st)) for _, st, _, _ in cl.iters] + [(st, seq(st)) for k, pl, st in res]
        got = set()
        for st, s in paths:
            snd = [x for x in s if x.startswith("send")]
            pos = max([k for k, x in enumerate(s) if x.startswith("send")], default=-1)
            for code, label, rule in (("TASK_SUBMITTED", "send", "accepted"), ("TASK_MAX_INSTANCES", "send!MaximumInstancesError", "refused")):
                labs = [k for k, x in enumerate(s) if x in (f"q:{code}", f"ev:{code}")]
                want = 1 if label in snd else 0
                if snd or labs:
                    got.add((rule, want))
                    ctx.ob(rule if want or label not in snd and "send!Error" not in snd else "failed", len(labs) == want and all(k > pos for k in labs), cons, sends[0].where,
                           f"{len(labs)} {code} events for outcome {snd}", trace(st))
            if "send!Error" in snd:
                got.add(("failed", 0))
                ctx.ob("failed", not any(x.split(":")[-1].startswith("TASK_") and x.startswith(("q:", "ev:")) for x in s[pos:]), cons, sends[0].where, "event announced although submission failed", trace(st))
        ctx.need({("accepted", 1), ("refused", 1), ("failed", 0)} <= got, f"submission outcomes of {entry} not all reached")
        # payloads
        subs = {(i.call.arg(0, "task"), i.call.arg(1, "run_times")) for i in sends}
        for i in cl.insts:
            if not i.label.startswith(("q:TASK_", "ev:TASK_")):
                continue
            e = next((a for a in i.call.args if is_event_new(a)), None) or i.call.arg(0, "event")
            for n in event_terms(e):
                if event_code(n) not in ("TASK_SUBMITTED", "TASK_MAX_INSTANCES"):
                    continue
                c2 = f"{cons}:{event_code(n)}"
                tid, rts, co, src, sto = (new_kw(n, k) for k in ("task_id", "scheduled_run_times", "coalesced_run_count", "source", "store"))
                match = [(t, r) for t, r in subs if r is rts]
                ctx.ob("payload", bool(match), c2 + ":run-times", i.where, f"event run times {show(rts) if rts is not None else None} are not the submitted ones")
                ok_id = tid is not None and (any(tid is T("attr", t, "id") for t, _ in match) or (entry == "run_task" and _same_id(tid, match)))
                ctx.ob("payload", ok_id, c2 + ":task", i.where, f"event task id is {show(tid) if tid is not None else None}")
                ctx.ob("payload", src is const(source), c2 + ":source", i.where, f"event source is {show(src) if src is not None else None}")
                runs = (runs_term(rts) or [None])[0] if rts is not None else None
                if runs is not None and last_only(rts, runs):
                    ctx.ob("payload", co is not None and dropped_count(co, runs), c2 + ":coalesced", i.where, f"coalesced count is {show(co) if co is not None else None}")
                else:
                    ctx.ob("payload", co is None or co is const(0), c2 + ":coalesced", i.where, f"coalesced count is {show(co) if co is not None else None} although nothing was dropped")
                ctx.ob("payload", sto is not None and _store_alias(sto), c2 + ":store", i.where, f"event store is {show(sto) if sto is not None else None}")
    # delivery
    few = [E("", "send_task", raises=[MAXINST, OTHER]), DISPATCH()]
    cl = Rec(p, few + [QUEUE()], stop={"delete_task", "dispatch_event"}, cap=1)
    cl.merge_by_ts = True
    res, it = run(p, cl, S + ".process_tasks")
    ctx.absorb(it)
    f = p.method(S, "process_tasks")
    queues = {i.base for i in cl.insts if i.label.startswith("q:")}
    direct = [i for i in cl.insts if i.label.startswith("ev:TASK_")]
    late = [i for i in cl.insts if i.label.startswith("ev:") and i not in direct]
    for i in direct + late:
        held = [x for x in i.locks if "store" in x]
        ctx.ob("delivered", not held, f"{f.qual}:lock", i.where, f"event delivered while holding {held}")
    if queues:
        elems = {i.call.arg(0, "event") for i in late}
        for q in queues:
            ctx.ob("delivered", any(contains(e, q) for e in elems if e is not None), f"{f.qual}:flush", f.where, "queued submission events are never dispatched")
        cl = Rec(p, few + [QUEUE()], stop={"delete_task", "dispatch_event"}, cap=1)
        cl.merge_by_ts = True
        cl.loop_label = lambda kind, itm, st: "flush" if kind == "enter" and any(contains(itm, q) for q in queues) else None

        def empty(lit, st, node, fr):
            kind, ts, val = lit
            if ts[0] in queues and ((kind == "truth" and not val) or (kind == "eq" and val)):
                return cl.add(st, "flush")
            return st
        cl.assume_hook = empty
        res, it = run(p, cl, S + ".process_tasks")
        for k, pl, st in res:
            s = seq(st)
            if any(x.startswith("q:") for x in s):
                last = max(n for n, x in enumerate(s) if x.startswith("q:"))
                ctx.ob("delivered", "flush" in s[last:] or any(x.startswith("ev:") for x in s[last:]), f"{f.qual}:exit", f.where, "the pass can end without delivering queued events", trace(st))
        cl2 = Rec(p, [DISPATCH()], stop={"delete_task", "dispatch_event"}, cap=2)
        cl2.iter_rel = cl2.merge_by_ts = True
        cl2.iter_events = frozenset(["dispatch_event"])
        res, it = run(p, cl2, S + ".process_tasks")
        for itm, st, node, fn in cl2.iters:
            if any(contains(itm, q) for q in queues):
                n = sum(1 for x in seq(st) if x.startswith("ev:"))
                ctx.ob("delivered", n == 1, f"{f.qual}:each", f.where, f"a queued event is dispatched {n} times", trace(st))
    ctx.floor("payload", 10)
    ctx.floor("delivered", 2)


def _same_id(tid, match):
    """run_task: the id the task was looked up by"""
    for t, _ in match:
        for x in subterms(t):
            if x.k == "call" and any(a is tid for a in x.a[1]):
                return True
    return tid.k == "p" or (tid.k == "attr" and tid.a[1] == "id")


def _store_alias(t):
    if t.k == "phi":
        return all(_store_alias(x) for x in t.a[0])
    return t is NONE or t.k in ("key",) or (t.k == "idx" and t.a[1] is const(1)) or t.k == "p" or (t.k == "attr" and t.a[1] == "store_alias") or t.k == "elem"
