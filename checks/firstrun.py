"""C76: the first run time of an added task."""
from sa.interp import St
from sa.report import prop

from ._common import *  # noqa: F401,F403
from .lifecycle import STATE

FILE = "asyncz/schedulers/base.py"
NRT, MIN, FIRST, TASK = T("p", "NRT"), T("p", "MIN"), T("p", "FIRST"), T("p", "task")


def preset(p, cl, f, heap, args, max_states=3000):
    """interpret f with some attributes known at its start"""
    init = cl.init

    def begin():
        st = init()
        h = st.heap
        for k, v in heap.items():
            h = h.set(k, v)
        return St(st.env, h, st.facts, st.ts)
    cl.init = begin
    return run(p, cl, f, self_cls=S, args=args, max_states=max_states)


def later_of(v, a, b, st):
    """v is the later one of a and b on the path of st"""
    if v.k == "call" and callee(v) == "max":
        xs = v.a[1][0].a[0] if len(v.a[1]) == 1 and v.a[1][0].k in ("tuple", "list") else v.a[1]
        return set(xs) == {a, b}
    if v not in (a, b):
        return False
    o = b if v is a else a
    return ("lt", (v, o), False) in st.facts or ("lt", (o, v), True) in st.facts


@prop("C76", "The first run time of an added task",
      """A task added without a next run time is stored with the first time its trigger gives from now on in the scheduler's time zone, a given next run time is
      kept, and a task added with next_run_time None is stored paused. With a lock path, a task that waited for the start is stored with no run time before the
      end of the startup delay. A running scheduler is woken after such a task was stored, but not for one added paused.""",
      ["inputs", "histories"],
      "every combination of given next run time, trigger answer, startup delay and scheduler state",
      "the cases combine four settings and the delayed ones only matter for tasks added before a start under a lock path, which tests rarely build",
      [FILE], [("BaseScheduler.real_add_task/_start/add_task", FILE)],
      "path-sensitive abstract interpretation, once per combination of the four settings",
      "The value of next_run_time a task has when the store gets it is derived on every path and compared with the specified one; the start flag and the delay are followed back to add_task and start.")
def c76(ctx):
    p = ctx.proj
    ctx.rule("stored", "next run time a task is stored with")
    ctx.rule("asked", "the trigger is asked for the first run from now on, in the scheduler's time zone")
    ctx.rule("flag", "a task is to be started unless next_run_time None was given")
    ctx.rule("delay", "the earliest run time of tasks that waited for the start")
    ctx.rule("woken", "a running scheduler is woken for a task to be started")
    f = p.method(S, "real_add_task")
    names = [a.arg for a in f.node.args.args if a.arg != "self"]
    task, replace, start, mind = (T("p", n) for n in names[:4])
    me = T("self", S)
    vals = {}

    def upd(c):
        v = dict(c.kw).get("next_run_time")
        if v is None and any(k == "**" for k, _ in c.kw):
            v = T("unk", "updates")
        if v is not None:
            vals["upd:" + show(v)] = v
        return "upd:" + show(v) if v is not None else ""
    for own in (NONE, NRT):
        for begin in (TRUE, FALSE):
            for low in (NONE, MIN):
                for answer in (FIRST, NONE) if own is NONE and begin is TRUE else (FIRST,):
                    what = f"{'given' if own is NRT else 'none'},{'start' if begin is TRUE else 'paused'},{'delay' if low is MIN else 'now'},{'run' if answer is FIRST else 'finished'}"
                    cl = Rec(p, [E("first", "get_next_trigger_time", ret=lambda c, st: [answer]), E(upd, "update_task", when=lambda c: c.recv is task),
                                 E("store", ["add_task", "update_task"], when=lambda c: c.recv is not None and is_store(c.recv), raises=lambda c, st: [CONFLICT] if c.name == "add_task" else [], split=True),
                                 W(lambda b, n, v: vals.setdefault("upd:" + show(v), v) is not None and "upd:" + show(v), ["next_run_time"], when=lambda b, n, v, st: b is task),
                                 E("wake", "wakeup"), E("", ["dispatch_event"])],
                             stop={"update_task", "wakeup", "dispatch_event", "lookup_store", "get_next_trigger_time"}, cap=2)
                    cl.known_dicts = True

                    def hook(lit, st, node, fr):
                        if lit[0] == "truth" and lit[1][0] in (FIRST, MIN, NRT) or lit[0] == "is" and lit[1][0] in (FIRST, MIN, NRT) and lit[1][1] is NONE:
                            return st if lit[2] is (lit[0] == "truth") else None
                        if lit[0] == "truth" and callee(lit[1][0]) == "isinstance" and lit[1][0].a[1][0] in (FIRST, MIN, NRT):
                            return st if lit[2] else None
                        if lit[0] == "truth" and callee(lit[1][0]) == "isinstance" and lit[1][0].a[1][0] is NONE:
                            return None if lit[2] else st
                        return st
                    cl.assume_hook = hook
                    res, it = preset(p, cl, f, {(task, "next_run_time"): own, (me, "state"): STATE(p, "STATE_RUNNING")}, {names[0]: task, names[2]: begin, names[3]: low})
                    ctx.absorb(it)
                    base = own if own is NRT else answer if begin is TRUE else NONE
                    n = 0
                    for i in cl.insts:
                        if i.label == "first":
                            a = [i.call.arg(0, "timezone"), i.call.arg(1, "previous_time"), i.call.arg(2, "now")]
                            ctx.ob("asked", i.call.recv is T("attr", task, "trigger") and a[0] is T("attr", me, "timezone") and a[1] is NONE, "first", i.where, f"asks {show(i.call.recv)} with {[x and show(x) for x in a]}", trace(i.st))
                            ok = a[2] is not None and callee(a[2]) in ("now", "fromtimestamp") and a[2].a[1][-1:] == (T("attr", me, "timezone"),)
                            ctx.ob("asked", ok or a[2] is not None and a[2].k == "call" and contains(a[2], T("attr", me, "timezone")), "now", i.where, f"from {a[2] and show(a[2])} on", trace(i.st))
                        if i.label != "store":
                            continue
                        n += 1
                        ups = [x for x in i.seq if x.startswith("upd:")]
                        v = vals[ups[-1]] if ups else own
                        ctx.ob("stored", later_of(v, base, MIN, i.st) if low is MIN and base is not NONE else v is base, what, i.where, f"{what}: stored with the next run time {show(v)}", trace(i.st))
                    ctx.ob("stored", n > 0, what + ":possible", f.where, f"{what}: never stored")
                    for k, pl, st in res:
                        s = seq(st)
                        if k != "return" or "store" not in s:
                            continue
                        if begin is TRUE:
                            ctx.ob("woken", s.count("wake") == 1 and s.index("wake") > s.index("store"), what, f.where, f"{what}: a running scheduler is not woken", trace(st))
                        if begin is FALSE:
                            ctx.ob("woken", "wake" not in s, what + ":not", f.where, f"{what}: woken although the task is paused", trace(st))
    # ---- add_task: the start flag
    f = p.method(S, "add_task")
    for given, want in ((NONE, False), (T("p", "GIVEN"), True)):
        flags = []

        def seen(c):
            flags.append((c.arg(2, "start_task"), f"{c.func.module.rel}:{c.node.lineno}"))
            return "real"

        def put(op, k, v):
            flags.append((v.a[0][2] if v is not None and v.k == "tuple" and len(v.a[0]) > 2 else None, f.where))
            return "queue"
        cl = Rec(p, [M(put, ["pending_tasks"]), E(seen, "real_add_task"), E("", "update_task"), E("again", "add_task", when=lambda c: c.recv is me)],
                 stop={"update_task", "real_add_task", "create_trigger", "dump", "dispatch_event", "resolve_shape"}, cap=2)
        cl.merge_by_ts = True
        cl.stop = cl.stop | {"__init__", "add_task"}

        def hook(lit, st, node, fr):
            if lit[0] in ("is", "eq") and given in lit[1] and given is not NONE and NONE in lit[1]:
                return None if lit[2] else st
            return st
        cl.assume_hook = hook
        res, it = run(p, cl, f, self_cls=S, args={"next_run_time": given}, max_states=6000)
        ctx.absorb(it)
        ctx.ob("flag", len(flags) >= 2, f"{show(given)}:sites", f.where, "add_task neither queues nor stores the task")
        for v, w in flags:
            got = truth(it, v, given, f)
            ctx.ob("flag", got == {want}, show(given), w, f"with next_run_time {show(given)} the start flag is {v and show(v)}")
        for i in cl.insts:
            if i.label == "again":
                v = i.call.arg(99, "next_run_time")
                ctx.ob("flag", v is given, "passed on", i.where, f"the next run time is passed on as {v and show(v)}")
    # ---- start: the delay
    f = p.method(S, "_start")
    nows = []
    cl = Rec(p, [E("real", "real_add_task")], stop={"dispatch_event", "wakeup", "real_add_task", "add_executor", "add_store", "check_uwsgi", "create_default_executor", "create_default_store"}, cap=1)
    res, it = run(p, cl, f, self_cls=S, max_states=4000)
    ctx.absorb(it)
    lock = T("attr", me, "lock_path")
    seen = set()
    for i in cl.insts:
        if i.label != "real":
            continue
        v = i.call.arg(3, "min_dtime") or NONE
        has = next((x[2] if x[0] == "truth" else not x[2] for x in i.st.facts if x[0] in ("truth", "is") and x[1][0] is lock and (x[0] == "truth" or x[1][1] is NONE)), None)
        seen.add(has)
        if has is False:
            ctx.ob("delay", v is NONE, "no lock path", i.where, f"without a lock path runs wait until {show(v)}", trace(i.st))
        else:
            td = [x for x in subterms(v) if callee(x) == "timedelta"]
            secs = [dict(x.a[2] if x.k == "call" and len(x.a) > 2 else x.a[2] if x.k == "new" else ()).get("seconds") for x in td]
            ok = v.k in ("op", "bin") and len(td) == 1 and secs == [T("attr", me, "startup_delay")] and any(callee(x) == "now" for x in subterms(v)) and v.a[0] in ("+", "Add")
            ctx.ob("delay", ok and has is True, "lock path", i.where, f"with a lock path runs wait until {show(v)}", trace(i.st))
    ctx.ob("delay", True in seen, "lock path:possible", f.where, "the start never applies the startup delay")


def truth(it, v, given, f):
    from sa.interp import Frame
    if v is None:
        return {None}
    out = set()
    for st, ok in it.truth(v, St(), f.node, Frame(f, (f.qual,))):
        if given is not NONE and any(x[0] in ("is", "eq") and given in x[1] and NONE in x[1] and x[2] for x in st.facts):
            continue
        out.add(ok)
    return out
