"""Task and component changes: applied exactly when announced; pending tasks; pass isolation."""
import ast

from sa.report import prop

from ._common import *
from .lifecycle import STATE, _with_state, concrete_methods, is_state, state_label

B = ["asyncz/schedulers/base.py"]


def store_events(raises=True):
    R = (lambda *x: list(x)) if raises else (lambda *x: [])
    return [
        E("S.add", "add_task", when=lambda c: is_store(c.recv), raises=R(CONFLICT, OTHER), split=True),
        E("S.update", "update_task", when=lambda c: is_store(c.recv), raises=R(LOOKUP, OTHER), split=True),
        E("S.delete", "delete_task", when=lambda c: is_store(c.recv), raises=R(LOOKUP, OTHER), split=True),
        E("S.clear", "remove_all_tasks", when=lambda c: is_store(c.recv), raises=R(OTHER), split=True),
        E("T.update", "update_task", when=lambda c: not is_store(c.recv) and not is_self(c.recv), raises=R(OTHER), split=True),
        M("P", ["pending_tasks"], when=lambda b, st: True),
        DISPATCH(),
    ]


def evs(s, code=None):
    return [k for k, x in enumerate(s) if x.startswith("ev:") and (code is None or x == f"ev:{code}")]


def payload(ctx, rule, cl, code, cons, want_id):
    for i in cl.insts:
        if i.label != f"ev:{code}":
            continue
        for n in event_terms(i.call.arg(0, "event")):
            tid = new_kw(n, "task_id")
            ctx.ob(rule, tid is not None and want_id(tid), cons, i.where, f"{code} names task {show(tid) if tid is not None else None}")
            al = [new_kw(n, x) for x in ("store", "alias")]
            ctx.ob(rule, any(a is not None for a in al), cons + ":store", i.where, f"{code} does not name the store")


@prop("C07", "Task changes are announced exactly once and only when applied",
      """Adding, modifying, removing a task and removing all tasks announce exactly one event of the matching kind after the change was applied
      to the store (or the pending list), naming the task and the store; an operation that fails announces nothing. Adding a task whose id
      exists fails and changes nothing unless replacement was asked for, and then replaces it. Deleting touches one store only.""",
      ["inputs", "histories", "fault_sequences"],
      "every task operation, on running and stopped schedulers, for every store outcome (ok, conflict, missing, any error)",
      "tests check the happy path of each operation; failing stores and replacement conflicts are not combined with event checks",
      B, [("real_add_task", "asyncz/schedulers/base.py:real_add_task"), ("update_task", "asyncz/schedulers/base.py:update_task"), ("delete_task", "asyncz/schedulers/base.py:delete_task"), ("remove_all_tasks", "asyncz/schedulers/base.py:remove_all_tasks")],
      "path-sensitive event-sequence dataflow with injected store outcomes",
      "Every path of each operation is enumerated with the store call succeeding or failing in each declared way.")
def c07(ctx):
    p = ctx.proj
    ctx.rule("added", "TASK_ADDED exactly once after the store accepted the task, never otherwise")
    ctx.rule("no-overwrite", "an existing task is replaced only when replacement was asked for; otherwise the conflict is reported")
    ctx.rule("modified", "TASK_MODIFIED exactly once after the task and its store were updated")
    ctx.rule("removed", "TASK_REMOVED exactly once after exactly one removal; a missing task raises TaskLookupError")
    ctx.rule("cleared", "ALL_TASKS_REMOVED exactly once after the removal")
    ctx.rule("payload", "the event names the task and store")
    stop = {"dispatch_event", "wakeup"}
    # --- add
    f = p.method(S, "real_add_task")
    ctx.need(f, "real_add_task not found")
    cl = Rec(p, store_events(), stop=stop)

    def hook(lit, st, node, fr):
        kind, ts, val = lit
        if kind == "truth" and ts[0] is T("p", "replace_existing"):
            return cl.add(st, "rep+" if val else "rep-")
        return st
    cl.assume_hook = hook
    res, it = run(p, cl, f, self_cls=S)
    ctx.absorb(it)
    for k, pl, st in res:
        s = list(seq(st))
        e = evs(s)
        applied = "S.add" in s or ("S.add!ConflictIdError" in s and "S.update" in s)
        if k == "return":
            if applied:
                pos = max(s.index(x) for x in ("S.add", "S.update") if x in s)
                ctx.ob("added", s.count("ev:TASK_ADDED") == 1 and len(e) == 1 and e[0] > pos, "add", f.where, f"accepted task announced {s.count('ev:TASK_ADDED')} times", trace(st))
            else:
                ctx.ob("added", not e, "add:rejected", f.where, "announced although the store did not take the task", trace(st))
                ctx.ob("added", any(x.startswith("S.update!") for x in s) or not s, "add:lost", f.where, "the task is silently not stored", trace(st))
        else:
            ctx.ob("added", not e, "add:failed", f.where, "failed add is announced", trace(st))
            ctx.ob("no-overwrite", "S.update" not in s, "add:failed", f.where, "failed add changed the store", trace(st))
        if "S.update" in s or any(x.startswith("S.update!") for x in s):
            ctx.ob("no-overwrite", "rep+" in s and "S.add!ConflictIdError" in s, "add", f.where, "an existing task is overwritten without replacement being asked for", trace(st))
        if "S.add!ConflictIdError" in s and "rep-" in s:
            ctx.ob("no-overwrite", k == "raise" and pl.cls == CONFLICT, "add:conflict", f.where, "an id conflict is not reported", trace(st))
        if "S.add!ConflictIdError" in s and "rep+" in s:
            ctx.ob("no-overwrite", any(x.startswith("S.update") for x in s), "add:replace", f.where, "replacement was asked for but not done", trace(st))
        if "S.add!Error" in s:
            ctx.ob("added", k == "raise", "add:error", f.where, "a store error is swallowed", trace(st))
    tp = T("p", [a.arg for a in f.node.args.args][1])
    payload(ctx, "payload", cl, "TASK_ADDED", "add", lambda t: t is T("attr", tp, "id"))
    for i in cl.insts:
        if i.label in ("S.add", "S.update"):
            ctx.ob("payload", i.call.arg(0, "task") is tp, f"add:{i.label}", i.where, f"{i.label} stores {show(i.call.arg(0, 'task'))}")
            ctx.ob("payload", i.base is not None and from_attr(i.base, "store_alias"), f"add:{i.label}:store", i.where, f"stored into {show(i.base)}, not the task's store")
    # --- modify
    f = p.method(S, "update_task")
    cl = Rec(p, store_events(), stop=stop)
    res, it = run(p, cl, f, self_cls=S)
    ctx.absorb(it)
    ok_paths = 0
    for k, pl, st in res:
        s = list(seq(st))
        e = evs(s)
        if k == "return":
            ok_paths += 1
            done = [x for x in ("T.update", "S.update") if x in s]
            ctx.ob("modified", "T.update" in s and len(e) == 1 and s.count("ev:TASK_MODIFIED") == 1 and e[0] > max(s.index(x) for x in done) and not any("!" in x for x in s), "update", f.where, "modify: " + " ".join(s), trace(st))
            if "S.update" not in s:
                ctx.ob("modified", state_is(st, "STATE_STOPPED") is True or _no_store(st), "update:store", f.where, "the task's store is not updated", trace(st))
            else:
                ctx.ob("modified", s.index("T.update") < s.index("S.update"), "update:order", f.where, "the store is written before the task is changed", trace(st))
        else:
            ctx.ob("modified", not e, "update:failed", f.where, "a failed modification is announced", trace(st))
    ctx.need(ok_paths, "update_task never returns")
    # --- delete
    f = p.method(S, "delete_task")
    for cur in ("STATE_STOPPED", "STATE_RUNNING", "STATE_PAUSED"):
        cl = _with_state(p, cur, store_events(), stop)
        res, it = run(p, cl, f, self_cls=S)
        ctx.absorb(it)
        okp = 0
        for k, pl, st in res:
            s = list(seq(st))
            e = evs(s)
            n = s.count("S.delete") + s.count("P")
            if k == "return":
                if not s:
                    tid = _no_id(st, f)
                    ctx.ob("removed", tid, f"delete:{cur}:noop", f.where, "delete of a named task silently does nothing", trace(st))
                    continue
                okp += 1
                ctx.ob("removed", n == 1 and len(e) == 1 and s.count("ev:TASK_REMOVED") == 1 and e[0] > max(x for x, y in enumerate(s) if y in ("S.delete", "P")), f"delete:{cur}", f.where, "delete: " + " ".join(s), trace(st))
                ctx.ob("removed", ("P" in s) == (cur == "STATE_STOPPED"), f"delete:{cur}:where", f.where, "removed from the wrong place: " + " ".join(s), trace(st))
            else:
                if n and pl.cls == LOOKUP and any(x[0] == "is" and x[2] and x[1][1] is NONE and x[1][0].k in ("attr", "key", "elem") for x in st.facts):
                    continue        # an alias that is None: registered tasks and stores always have one
                ctx.ob("removed", not e and n == 0, f"delete:{cur}:failed", f.where, "failed delete: " + " ".join(s), trace(st))
                if "S.delete!Error" not in s:
                    ctx.ob("removed", pl.cls in (LOOKUP,) or pl.cls == "builtins.AssertionError", f"delete:{cur}:missing", f.where, f"missing task reported as {pl.cls}", trace(st))
        ctx.ob("removed", okp > 0, f"delete:{cur}:possible", f.where, "no path deletes the task")
        payload(ctx, "payload", cl, "TASK_REMOVED", "delete", lambda t: t.k == "p" or (t.k == "attr" and t.a[1] == "id"))
    # --- remove all
    f = p.method(S, "remove_all_tasks")
    for cur in ("STATE_STOPPED", "STATE_RUNNING"):
        cl = _with_state(p, cur, store_events(), stop)
        res, it = run(p, cl, f, self_cls=S)
        ctx.absorb(it)
        labs = {x for k, pl, st in res for x in seq(st)}
        ctx.ob("cleared", ("P" if cur == "STATE_STOPPED" else "S.clear") in labs and not ({"P", "S.clear"} <= labs), f"clear:{cur}", f.where, f"remove all does {sorted(labs)}")
        for k, pl, st in res:
            s = list(seq(st))
            if k == "return":
                ctx.ob("cleared", s.count("ev:ALL_TASKS_REMOVED") == 1 and s[-1] == "ev:ALL_TASKS_REMOVED", f"clear:{cur}:event", f.where, "remove all: " + " ".join(s), trace(st))
                if cur == "STATE_STOPPED":
                    ctx.ob("cleared", "P" in s, f"clear:{cur}:applied", f.where, "pending tasks are not removed", trace(st))
            else:
                ctx.ob("cleared", not evs(s), f"clear:{cur}:failed", f.where, "failed removal announced", trace(st))
        if cur == "STATE_STOPPED":
            # which pending tasks are kept when one store is asked for: decidable for a rebinding to a filtered copy
            cl = _with_state(p, cur, [W("keep", ["pending_tasks"])], stop)
            cl.iter_of = lambda itm: from_attr(itm, "pending_tasks")
            run(p, cl, f, self_cls=S)
            al = T("p", [a.arg for a in f.node.args.args][1])
            kept = [(st, node, fn) for itm, st, node, fn in cl.iters if isinstance(node, (ast.ListComp, ast.GeneratorExp))]
            if len({id(n) for _, n, _ in kept}) == 1 and any(i.label == "keep" and any(x.k == "comp" for x in subterms(i.value)) for i in cl.insts if i.value is not None):
                for st, node, fn in kept:
                    hit = [x[2] for x in st.facts if x[0] == "eq" and al in x[1] and any(from_attr(y, "pending_tasks") for y in x[1])]
                    ctx.ob("cleared", True not in hit and bool(hit), "clear:pending-selection", f"{fn.module.rel}:{node.lineno}", "keeps the waiting tasks of the chosen store", trace(st))
        if cur == "STATE_RUNNING":
            cl = _with_state(p, cur, store_events(False), stop)
            cl.iter_of = lambda itm: itm is NONE or from_attr(itm, "stores")
            hookc = lambda lit, st, node, fr: st
            res, it = run(p, cl, f, self_cls=S)
            al = T("p", [a.arg for a in f.node.args.args][1])
            for itm, st, node, fn in cl.iters:
                s = seq(st)
                m = _selects(st, al)
                ctx.ob("cleared", m is None or (("S.clear" in s) == m), "clear:selection", f.where, f"store {'cleared' if 'S.clear' in s else 'kept'} although it was {'not ' if not m else ''}selected", trace(st))
    ctx.floor("removed", 4)


def _selects(st, al):
    for f in st.facts:
        if f[0] == "in" and f[1][0] is al:
            return f[2]
        if f[0] == "is" and f[1][0] is al and f[1][1] is NONE and f[2]:
            return True
        if f[0] == "eq" and al in f[1] and any(x.k in ("key", "elem") for x in f[1]):
            return f[2] if f[2] else (False if not any(g[0] == "is" and g[1][0] is al and g[2] for g in st.facts) else None)
    return None


def _no_store(st):
    return any(f[0] in ("truth", "is") and f[2] == (f[0] == "is") for f in st.facts)


def _no_id(st, f):
    for x in st.facts:
        if x[0] in ("truth",) and not x[2]:
            return True
        if x[0] == "is" and x[1][1] is NONE and x[2]:
            return True
        if x[0] == "eq" and x[2]:
            return True
    return False


@prop("C08", "Component and life-cycle events fire exactly once, only on success",
      """Adding or removing an executor or a store announces exactly one event of the matching kind carrying the alias, after the registry was
      changed, and nothing when the operation is refused; an alias already in use is refused without touching the registered component, an
      unknown one is refused on removal. A component added to a scheduler that is not stopped is started, one removed is shut down unless told
      otherwise. A successful start announces one start event, after executors and stores were started.""",
      ["inputs", "histories"],
      "every component operation, in every scheduler state, accepted or refused",
      "tests add one component in one state; the pairing of registry change, start/shutdown and event must hold in every state and on every refusal",
      B, [("add_executor/remove_executor", "asyncz/schedulers/base.py:add_executor"), ("add_store/remove_store", "asyncz/schedulers/base.py:add_store"), ("start", "asyncz/schedulers/base.py:start")],
      "path-sensitive event-sequence dataflow per scheduler state",
      "Every path of each operation is enumerated in every scheduler state.")
def c08(ctx):
    p = ctx.proj
    ctx.rule("added", "registry changed once, component started iff not stopped, then exactly one event with the alias")
    ctx.rule("refused", "a refused operation changes nothing and announces nothing")
    ctx.rule("removed", "registry entry deleted once, shut down iff asked, then exactly one event with the alias")
    ctx.rule("start-event", "a real start announces SCHEDULER_START exactly once after starting components and setting the state")
    ctx.rule("locked", "the registry is changed under its lock")
    for what, reg, isit, codes in (("executor", "executors", is_executor, ("EXECUTOR_ADDED", "EXECUTOR_REMOVED")), ("store", "stores", is_store, ("STORE_ADDED", "STORE_REMOVED"))):
        f = p.method(S, f"add_{what}")
        ctx.need(f, f"add_{what} not found")
        comp = lambda c, what=what, isit=isit: isit(c.recv) or (c.recv is not None and contains(c.recv, T("p", what))) or (c.recv is not None and c.recv.k == "call" and "create_plugin" in show(c.recv.a[0]))
        for cur in ("STATE_STOPPED", "STATE_RUNNING", "STATE_PAUSED"):
            ev = [M("R", [reg]), E("start", "start", when=lambda c: c.recv is not None and not is_self(c.recv)), DISPATCH()]
            cl = _with_state(p, cur, ev, {"dispatch_event", "wakeup", "create_plugin_instance"})
            res, it = run(p, cl, f, self_cls=S)
            ctx.absorb(it)
            okp = 0
            for k, pl, st in res:
                s = list(seq(st))
                if k == "raise":
                    ctx.ob("refused", not s, f"add_{what}:{cur}", f.where, f"refused add does {s}", trace(st))
                    continue
                okp += 1
                want = ["R"] + (["start"] if cur != "STATE_STOPPED" else []) + [f"ev:{codes[0]}"]
                ctx.ob("added", s == want, f"add_{what}:{cur}", f.where, f"add does {s}, expected {want}", trace(st))
            ctx.ob("added", okp > 0, f"add_{what}:{cur}:possible", f.where, "no path adds the component")
            dup = [1 for k, pl, st in res if k == "raise" and pl.cls == "builtins.ValueError" and any(x[0] == "in" and x[2] and x[1][0] is T("p", "alias") and from_attr(x[1][1], reg) for x in st.facts)]
            ctx.ob("refused", bool(dup), f"add_{what}:duplicate", f.where, "an alias already in use is not refused")
            _comp_payload(ctx, cl, codes[0], f"add_{what}")
            for i in cl.insts:
                if i.label == "R":
                    ctx.ob("locked", any("lock" in x for x in i.locks), f"add_{what}", i.where, "registry changed without its lock")
                    ctx.ob("added", i.key is T("p", "alias"), f"add_{what}:key", i.where, f"registered under {show(i.key) if i.key is not None else None}")
        f = p.method(S, f"remove_{what}")
        ctx.need(f, f"remove_{what} not found")
        ev = [M("R", [reg]), E("stop", "shutdown", when=lambda c: c.recv is not None and not is_self(c.recv)), E("look", [f"lookup_{what}"], raises=["builtins.KeyError"]), DISPATCH()]
        cl = Rec(p, ev, stop={"dispatch_event", "wakeup"})

        def hook(lit, st, node, fr):
            if lit[0] == "truth" and lit[1][0] is T("p", "shutdown"):
                return cl.add(st, "sd+" if lit[2] else "sd-")
            return st
        cl.assume_hook = hook
        res, it = run(p, cl, f, self_cls=S)
        ctx.absorb(it)
        for k, pl, st in res:
            s = [x for x in seq(st) if x != "look"]
            if k == "raise":
                ctx.ob("refused", s in ([], ["look!"]), f"remove_{what}", f.where, f"refused removal does {s}", trace(st))
                continue
            acts = [x for x in s if x not in ("sd+", "sd-")]
            want = ["R", f"ev:{codes[1]}"] if "sd-" in s else ["R", "stop", f"ev:{codes[1]}"]
            ctx.ob("removed", ("sd+" in s or "sd-" in s) and acts == want, f"remove_{what}", f.where, f"removal does {s}", trace(st))
        _comp_payload(ctx, cl, codes[1], f"remove_{what}")
    # start
    f = p.method(S, "start")
    from .lifecycle import Counting
    cl = Counting(p, [W("", ["ref_counter"]), W(state_label, ["state"], when=is_state), E("X.start", "start", when=lambda c: is_executor(c.recv)), E("S.start", "start", when=lambda c: is_store(c.recv)), E("wake", "wakeup"), DISPATCH()],
                  stop={"dispatch_event", "wakeup", "real_add_task", "add_executor", "add_store"}, cap=1)
    cl.n0 = 0
    res, it = run(p, cl, f, self_cls=S)
    ctx.absorb(it)
    for k, pl, st in res:
        s = list(seq(st))
        if k == "return":
            n = s.count("ev:SCHEDULER_START")
            ctx.ob("start-event", n == 1 and all(s.index(x) < s.index("ev:SCHEDULER_START") for x in s if x in ("X.start", "S.start") or x.startswith("state:")), "start", f.where, "start: " + " ".join(s), trace(st))
            pa = fact(st, "truth", lambda ts: ts[0] is T("p", "paused"))
            if pa is not None:
                ctx.ob("start-event", ("wake" in s) == (not pa), "start:wakeup", f.where, f"start(paused={pa}): " + " ".join(s), trace(st))
    ctx.floor("added", 6)
    ctx.floor("removed", 2)


def _comp_payload(ctx, cl, code, cons):
    for i in cl.insts:
        if i.label == f"ev:{code}":
            for n in event_terms(i.call.arg(0, "event")):
                a = new_kw(n, "alias")
                ctx.ob("added" if "ADDED" in code else "removed", a is T("p", "alias"), cons + ":alias", i.where, f"event alias is {show(a) if a is not None else None}")


@prop("C18", "A scheduling pass survives store and trigger errors and retries",
      """No error of one store, of its tasks' triggers or of an executor leaves the scheduling pass or keeps the other stores from being
      processed, and a refused or failing submission does not keep the other due tasks from being processed. Whenever a store could not be examined (error, or locked by someone else) the pass asks for a wakeup no later than the store
      retry interval, and otherwise no later than the earliest next run time of any store. The timer is re-armed with exactly the wait the
      pass computed.""",
      ["fault_sequences", "schedules"],
      "every failing store operation, failing trigger, lock contention on the pass or on a store, in any combination over any number of stores",
      "tests make one store fail in one call; the property needs every call site and every combination with other stores",
      FILES_ := ["asyncz/schedulers/base.py", "asyncz/schedulers/asyncio.py"],
      [("pass", "asyncz/schedulers/base.py:process_tasks"), ("timer", "asyncz/schedulers/asyncio.py:wakeup/start_timer")],
      "interprocedural path-sensitive dataflow with injected errors at every store, trigger and executor call",
      "Errors are injected at every store/trigger/executor call of the pass; the wakeup bound is decided by tracking the retry deadline symbolically.")
def c18(ctx):
    p = ctx.proj
    ctx.rule("contained", "no Exception raised by a store, trigger, task or executor call leaves the pass")
    ctx.rule("continues", "after such an error the loop goes on to the next store")
    ctx.rule("retry", "after a failed or skipped store the requested wakeup is at most the retry interval away")
    ctx.rule("earliest", "the pass takes over a store's next run time iff it is earlier than what was found so far")
    ctx.rule("isolated", "a submission error of one task does not end the loop over the due tasks")
    ctx.rule("rearm", "the wakeup handler cancels the timer, runs one pass and re-arms with the returned wait; no wait, no timer")
    ev = [E("due", "get_due_tasks", raises=[OTHER]), E("", "get_run_times", raises=[OTHER]), E("", "get_next_trigger_time", raises=[OTHER]),
          E("snext", "get_next_run_time", raises=[OTHER]), E("", "send_task", raises=[MAXINST, OTHER]), E("", "update_task", raises=[OTHER]), E("", "delete_task", raises=[LOOKUP, OTHER], when=lambda c: is_self(c.recv))]
    for fq, (q, f) in concrete_methods(p, "process_tasks").items():
        cl = Marking(p, ev, stop={"dispatch_event", "delete_task"}, cap=1)
        cl.merge_by_ts = False
        cl.iter_of = lambda itm: from_attr(itm, "stores") and not any(x.k == "call" and x.a[0].k == "attr" and x.a[0].a[1] == "get_due_tasks" for x in subterms(itm))
        cl.keep_break = True
        res, it = run(p, cl, f, self_cls=q, max_states=24)
        ctx.absorb(it)
        ctx.need(cl.iters, "store loop not found in the pass")
        surv = False
        for k, pl, st in res:
            ctx.ob("contained", k == "return", fq, f.where, f"the pass raises {pl}", trace(st))
            if k == "return":
                ctx.ob("continues", "@iter" not in seq(st), fq, f.where, "the store loop is left early", trace(st))
        kinds_seen = set()
        for itm, st, node, fn in cl.iters:
            s = seq(st)
            failed = [x for x in s if x.endswith("!") or x in ("locked", "err")]
            if failed:
                kinds_seen.add(failed[0])
                ctx.ob("retry", retry_bound(st), f"{fq}:{failed[0]}", f.where, "no retry wakeup after " + " ".join(s), trace(st))
        earliest(ctx, cl.iters, fq, f.where)
        ctx.ob("continues", bool(kinds_seen & {"err", "due!"}), fq + ":after-error", f.where, "no path continues after a store error")
        ctx.ob("retry", "locked" in kinds_seen, fq + ":locked", f.where, "a store locked elsewhere is not handled")
        # a failing submission: the other due tasks of the store are still looked at
        cl3 = Rec(p, [E("send", "send_task", raises=[MAXINST, OTHER], split=True)], stop={"dispatch_event", "delete_task"}, cap=1)
        cl3.iter_rel, cl3.iter_events, cl3.merge_by_ts, cl3.keep_break = True, frozenset(["send_task"]), True, True
        res, it = run(p, cl3, f, self_cls=q)
        ctx.absorb(it)
        inner, outer = set(), set()
        for itm, st, node, fn in cl3.iters:
            (outer if from_attr(itm, "stores") and not any(x.k == "call" and x.a[0].k == "attr" and x.a[0].a[1] == "get_due_tasks" for x in subterms(itm)) else inner).update(x for x in seq(st) if "!" in x)
        for x in ("send!MaximumInstancesError", "send!Error"):
            ctx.ob("isolated", x in inner and x not in outer, f"{fq}:{x}", f.where, "a failing submission keeps the other due tasks of the store from being processed")
        # whole pass skipped because the processing lock is taken
        cl2 = Marking(p, [], stop={"dispatch_event", "delete_task", "_process_tasks_of_store"}, cap=1)
        cl2.rel.names = frozenset(["protected"])
        res, it = run(p, cl2, f, self_cls=q)
        n = 0
        for k, pl, st in res:
            if k == "return" and "locked" in seq(st):
                n += 1
                ok = pl is not NONE and from_attr(pl, "store_retry_interval") or _stopped(st)
                ctx.ob("retry", bool(ok), fq + ":pass-locked", f.where, f"pass skipped because another process holds the lock, wait is {show(pl)}", trace(st))
        ctx.ob("retry", n > 0, fq + ":pass-lock", f.where, "the processing lock outcome is not used")
    # timers
    n = 0
    for fq, (q, f) in concrete_methods(p, "wakeup").items():
        if q == S:
            continue
        cl = Rec(p, [E("stop", "stop_timer"), E("pass", "process_tasks"), E("arm", "start_timer")], stop={"stop_timer", "process_tasks", "start_timer"})
        res, it = run(p, cl, f, self_cls=q)
        ctx.absorb(it)
        for k, pl, st in res:
            s = [x for x in seq(st)]
            ctx.ob("rearm", s.count("pass") == 1 and s.count("arm") == 1 and s.index("pass") < s.index("arm"), fq, f.where, "wakeup: " + " ".join(s), trace(st))
        for i in cl.insts:
            if i.label == "arm":
                n += 1
                a = i.call.arg(0, "wait_seconds")
                ctx.ob("rearm", a is not None and a.k == "call" and "process_tasks" in show(a), fq + ":wait", i.where, f"timer armed with {show(a) if a is not None else None}")
    ctx.need(n, "wakeup does not re-arm a timer")
    for fq, (q, f) in concrete_methods(p, "start_timer").items():
        w = T("p", [a.arg for a in f.node.args.args][1])
        cl = Rec(p, [E("stop", "stop_timer"), E("later", ["call_later", "call_at"])], stop={"stop_timer"})
        res, it = run(p, cl, f, self_cls=q)
        ctx.absorb(it)
        for k, pl, st in res:
            s = list(seq(st))
            isn = fact(st, "is", lambda ts: ts[0] is w and ts[1] is NONE)
            ctx.ob("rearm", ("later" in s) == (isn is False) and isn is not None, fq, f.where, f"wait {'absent' if isn else 'present'}: " + " ".join(s), trace(st))
            ctx.ob("rearm", "stop" in s and (s.index("stop") < s.index("later") if "later" in s else True), fq + ":single", f.where, "an earlier timer is left armed", trace(st))
        for i in cl.insts:
            if i.label == "later":
                ctx.ob("rearm", i.call.arg(0) is w and i.call.arg(1) is not None and "wakeup" in show(i.call.arg(1)), fq + ":call", i.where, f"timer set to {show(i.call.args)}")
    ctx.floor("retry", 3)


def _stopped(st):
    return state_is(st, "STATE_PAUSED") or state_is(st, "STATE_STOPPED")


class Marking(Rec):
    """marks lock contention and caught errors on the sequence"""
    def assume(self, lit, st, node, fr):
        kind, ts, val = lit
        if kind == "truth" and not val and ts[0].k == "enter" and self.is_lock(ts[0].a[0]):
            st = self.add(st, "locked")
        if kind == "lt" and (not val and is_deadline(ts[0]) or val and is_deadline(ts[1])):
            st = self.add(st, "bounded")      # the wakeup found so far is already within the retry interval
        if kind == "lt" and is_snext(ts[0]):
            st = self.add(st, "sooner" if val else "later")
        elif kind == "lt" and is_snext(ts[1]):
            st = self.add(st, "later" if val else "sooner")
        elif (kind == "truth" and not val or kind == "is" and val and ts[1] is NONE) and is_snext(ts[0]):
            st = self.add(st, "nothing")
        return Rec.assume(self, lit, st, node, fr)

    def on_caught(self, st, e, h, fr):
        return self.add(st, "err") if e.cls in (OTHER, LOOKUP) else st


def retry_bound(st):
    """some variable holds a wakeup time known to be at most the retry deadline"""
    if "bounded" in seq(st):
        return True
    vals = {v for v in st.env.values() if isinstance(v, T)} | set(getattr(st, "outer", ()))
    dead = {v for v in vals if is_deadline(v)} | {x for f in st.facts for x in f[1] if isinstance(x, T) and is_deadline(x)}
    for v in vals:
        alts = v.a[0] if v.k == "phi" else (v,)
        if all(is_deadline(a) or _le_deadline(st, a, dead) for a in alts):
            return True
    return False


def is_snext(t):
    return t.k == "call" and t.a[0].k == "attr" and t.a[0].a[1] == "get_next_run_time"


def alts(t):
    return [y for x in t.a[0] for y in alts(x)] if t.k == "phi" else [t]


def earliest(ctx, iters, cons, where):
    """the loop-carried wakeup variable takes the store's next run time exactly when it is the earlier one"""
    has = lambda t: any(is_snext(x) for x in subterms(t))
    names = {}
    for itm, st, node, fn in iters:
        for n, v in st.env.items():
            if isinstance(v, T):
                names.setdefault(n, set()).update(("s" if has(a) else "d" if is_deadline(a) else "o") for a in alts(v))
    cand = [n for n, ks in names.items() if {"s", "d"} <= ks]
    ctx.ob("earliest", bool(cand), cons + ":taken", where, "no wakeup variable takes the next run time of a store")
    for itm, st, node, fn in iters:
        s = seq(st)
        if "snext" not in s or any(x.endswith("!") for x in s) or "err" in s:
            continue
        for n in cand:
            v = st.env.get(n)
            if not isinstance(v, T):
                continue
            al = alts(v)
            if any(a.k == "call" and a.a[0] is T("ref", "builtins.min") for a in al):
                continue
            took = {has(a) for a in al}
            if "later" not in s and "nothing" not in s:
                ctx.ob("earliest", took == {True}, cons, where, f"earlier next run time of the store is not taken over ({show(v)})", trace(st))


def is_deadline(t):
    return t.k == "op" and t.a[0] == "Add" and any(x.k == "attr" and x.a[1] == "store_retry_interval" for x in subterms(t)) and "now" in show(t, 8)


def _le_deadline(st, a, dead):
    if a.k == "call" and a.a[0] is T("ref", "builtins.min") and any(is_deadline(x) for x in a.a[1]):
        return True
    if a.k == "const":
        return False
    for d in dead:
        if ("lt", (d, a), False) in st.facts:      # not (deadline < a)
            return True
        if ("lt", (a, d), True) in st.facts:
            return True
    return False


class Sections(Rec):
    """marks entering and leaving the store lock on the sequence and records under which locks the state was read"""
    cur = None
    reads = None

    def with_enter(self, t, st, node, fr):
        r = Rec.with_enter(self, t, st, node, fr)
        if r and "store_lock" in self.lock_id(t) and not any("store_lock" in x for x in st.ts[0]):
            r = [(a, self.add(b, "lock+")) for a, b in r]
        return r

    def with_exit(self, t, st, node, fr, exc):
        r = Rec.with_exit(self, t, st, node, fr, exc)
        if r and "store_lock" in self.lock_id(t):
            r = [(a, self.add(b, "lock-")) if not any("store_lock" in x for x in b.ts[0]) else (a, b) for a, b in r]
        return r


@prop("C19", "Tasks added before the start are queued once and stored at the start",
      """A task added while the scheduler is stopped is queued exactly once, with its replace and start settings, and not stored; otherwise it goes
      to its store exactly once and is not queued. The decision is made under the store lock. A start stores every queued task exactly once with
      its settings, a conflict of one task does not keep the others from being stored or the scheduler from starting, and the queue is emptied
      before the scheduler leaves the stopped state in the same critical section.""",
      ["inputs", "histories", "schedules"],
      "every task added before, during or after a start, by any thread, conflicting or not",
      "a task added in the window between the flush of the queue and the change of state is lost only on a rare schedule",
      B, [("add_task", "asyncz/schedulers/base.py:add_task"), ("start", "asyncz/schedulers/base.py:start")],
      "path-sensitive event-sequence dataflow with lock-section markers, per scheduler state",
      "Every path of add_task is enumerated per scheduler state; every iteration of the flush with each outcome of storing the task.")
def c19(ctx):
    p = ctx.proj
    ctx.rule("queued", "stopped: one queue entry, no store; otherwise: one store, no queue entry")
    ctx.rule("decided-locked", "the queue is filled under the store lock")
    ctx.rule("settings", "the queue entry carries the task, the replace flag and the start flag, and the flush passes them on")
    ctx.rule("flush", "each queued task is stored exactly once; a conflict is passed over")
    ctx.rule("emptied", "the queue is emptied after the flush and the state is changed in the same store-lock section")
    f = p.method(S, "add_task")
    ctx.need(f, "add_task not found")
    for cur in ("STATE_STOPPED", "STATE_RUNNING", "STATE_PAUSED"):
        ev = [M("queue", ["pending_tasks"]), E("real", "real_add_task"), E("", "update_task")]
        cl = _with_state(p, cur, ev, {"real_add_task", "update_task", "create_trigger", "dump", "dispatch_event"}, cls=Sections)
        cl.merge_by_ts = True
        cl.rel.stop.add("__init__")
        seen = set()
        res, it = run(p, cl, f, self_cls=S)
        ctx.absorb(it)
        want = "queue" if cur == "STATE_STOPPED" else "real"
        for k, pl, st in res:
            s = [x for x in seq(st) if not x.startswith("lock")]
            if k == "return" and s:
                seen.add(s[0])
                ctx.ob("queued", s == [want], f"add:{cur}", f.where, f"adding in {cur} does {s}", trace(st))
        ctx.ob("queued", want in seen, f"add:{cur}:possible", f.where, f"adding in {cur} never does {want}")
        for i in cl.insts:
            if i.label == "queue":
                ctx.ob("decided-locked", any("store_lock" in x for x in i.locks), f"add:{cur}", i.where, "queued without the store lock")
                v = i.value
                if v is not None and v.k == "tuple":
                    el = v.a[0]
                    ctx.ob("settings", len(el) >= 2 and contains(v, T("p", "replace_existing")), f"add:{cur}", i.where, f"queue entry {show(v)} lacks the replace flag")
                    ctx.ob("settings", any(contains(x, T("p", "next_run_time")) or x.k in ("const", "cmp", "phi", "not") for x in el[2:]), f"add:{cur}:start", i.where, f"queue entry {show(v)} lacks the start flag")
            if i.label == "real":
                a = i.call.arg(1, "replace_existing")
                ctx.ob("settings", a is not None and contains(a, T("p", "replace_existing")), f"add:{cur}:real", i.where, f"replacement flag is {show(a) if a is not None else None}")
    # start
    f = p.method(S, "start")
    from .lifecycle import Counting

    class CS(Sections, Counting):
        pass
    ev = [W("", ["ref_counter"]), W(state_label, ["state"], when=is_state), E("real", "real_add_task", raises=[CONFLICT]), M("queue", ["pending_tasks"]), E("start", "start", when=lambda c: is_store(c.recv))]
    cl = CS(p, ev, stop={"dispatch_event", "wakeup", "real_add_task", "add_executor", "add_store", "check_uwsgi"}, cap=1)
    cl.n0 = 0

    def hook(lit, st, node, fr):
        if lit[0] == "truth" and not lit[2] and lit[1][0].k == "attr" and lit[1][0].a[1] == "pending_tasks":
            return cl.add(st, "queue")      # known empty
        return st
    cl.assume_hook = hook
    res, it = run(p, cl, f, self_cls=S)
    ctx.absorb(it)
    nflush = 0
    for k, pl, st in res:
        s = list(seq(st))
        if k == "raise":
            ctx.ob("flush", pl.cls != CONFLICT, "start:conflict", f.where, "a conflicting queued task makes the start fail", trace(st))
            continue
        stt = [x for x, y in enumerate(s) if y.startswith("state:")]
        ctx.ob("emptied", "queue" in s and stt and s.index("queue") < stt[-1], "start:order", f.where, "start: " + " ".join(s), trace(st))
        if "queue" in s and stt:
            ctx.ob("emptied", "lock-" not in s[s.index("queue"):stt[-1]], "start:section", f.where, "the store lock is released between emptying the queue and leaving the stopped state: " + " ".join(s), trace(st))
        nflush += "real" in s
    ctx.ob("flush", nflush > 0, "start:flush", f.where, "start does not go through the queued tasks")
    for i in cl.insts:
        if i.label == "queue":
            ctx.ob("emptied", any("store_lock" in x for x in i.locks), "start:lock", i.where, "the queue is emptied without the store lock")
        if i.label == "real":
            args = [i.call.arg(0, "task"), i.call.arg(1, "replace_existing"), i.call.arg(2, "start_task")]
            ctx.ob("settings", all(a is not None and from_attr(a, "pending_tasks") for a in args) and len({a for a in args}) == 3, "flush", i.where, f"flush stores {[show(a) if a is not None else None for a in args]}")
            ctx.ob("flush", any("store_lock" in x for x in i.locks), "flush:lock", i.where, "queued tasks are stored without the store lock")
    # exactly once per queued task
    cl = CS(p, [W("", ["ref_counter"]), E("real", "real_add_task", raises=[CONFLICT])], stop={"dispatch_event", "wakeup", "real_add_task", "add_executor", "add_store", "check_uwsgi"}, cap=2)
    cl.n0 = 0
    cl.iter_rel = True
    cl.iter_events = frozenset(["real_add_task"])
    cl.keep_break = True
    res, it = run(p, cl, f, self_cls=S)
    ctx.absorb(it)
    ctx.need(cl.iters, "flush loop not found")
    for itm, st, node, fn in cl.iters:
        n = sum(seq(st).count(x) for x in ("real", "real!"))
        ctx.ob("flush", n == 1, "start:once", f.where, f"a queued task is stored {n} times", trace(st))
    for k, pl, st in res:
        if k == "return":
            ctx.ob("flush", "@iter" not in seq(st), "start:all", f.where, "the flush stops before the last queued task", trace(st))
    ctx.floor("queued", 3)
    ctx.floor("flush", 3)
