"""C77: the event loop an asyncio scheduler works on; C78: the ASGI lifespan wrapper."""
import ast

from sa.interp import St
from sa.report import prop

from ._common import *  # noqa: F401,F403
from .lifecycle import concrete_methods, schedulers

FILE = "asyncz/schedulers/asyncio.py"
LOOP, THR, HANDLE, PAUSED = T("p", "LOOP"), T("p", "THREAD"), T("p", "HANDLE"), T("p", "paused")


def begin_with(cl, heap):
    init = cl.init

    def begin():
        st = init()
        h = st.heap
        for k, v in heap.items():
            h = h.set(k, v)
        return St(st.env, h, st.facts, st.ts)
    cl.init = begin
    return cl


def there(lit, st, node, fr):
    """a loop, thread or pending task that is there is neither None nor false"""
    k, ts, v = lit
    if any(t in (LOOP, THR, HANDLE) for t in ts[:1]) and (k == "truth" and not v or k in ("is", "eq") and ts[1] is NONE and v):
        return None
    if k in ("is", "eq") and ts[0] is NONE and ts[1] in (LOOP, THR, HANDLE) and v:
        return None
    return st


def known(st, t, what="truth"):
    return next((v for k, ts, v in st.facts if k == what and ts[0] is t), None)


def base_call(c, name):
    return c.recv is not None and is_self(c.recv) and (c.recv.k == "super" or c.fn.k == "func" and c.fn.a[0] == f"{S}.{name}") or c.fn.k == "func" and c.fn.a[0] == f"{S}.{name}"


def gathered(c, coros):
    """does the call start every coroutine of `coros` together"""
    args = list(c.args)
    if c.name in ("call_soon_threadsafe", "call_soon") and args:
        ok, args = "gather" in show(args[0]), args[1:]
    else:
        ok = c.name == "gather"
    if ok and len(args) == 1:
        return args[0].k in ("starred", "star", "rest") and args[0].a[0] is coros or args[0] is coros
    return False


def stops(c):
    """('direct' or 'safe', receiver) of a call that stops a loop"""
    if c.name == "stop" and c.fn.k == "attr" and not c.args:
        return "direct", c.recv
    if c.name == "call_soon_threadsafe" and c.args and c.args[0].k == "attr" and c.args[0].a[1] == "stop":
        return "safe", c.args[0].a[0]
    return None


def on_loop(p, f):
    """is the body of f handed over to the event loop by its decorator"""
    return any((p.resolve(f.module, ast.unparse(d)) or "").endswith(".run_in_event_loop") for d in f.node.decorator_list)


def here(p, c):
    """is the call made on the event loop"""
    fs = [c.func, *(p.functions.get(x) for x in c.stack if isinstance(x, str))]
    return any(f is not None and on_loop(p, f) for f in fs)


@prop("C77", "An asyncio scheduler works on a live loop and stops only its own",
      """Starting an asyncio scheduler leaves it with an open event loop: the running one, or, when isolation is asked for or no loop runs, one in a daemon
      thread of its own that is up before the start goes on; an open loop it already has is kept, a closed one is replaced. Work is handed to the loop in a thread-safe way. A real
      shutdown ends its own loop after the asynchronous shutdown tasks have come to their end and forgets it, and never stops a loop that belongs to the application.""",
      ["histories", "schedules"],
      "every combination of configured, running, closed and isolated loops, nested starts and shutdown tasks, for both asyncio schedulers",
      "tests start one scheduler once on the running loop; restarts, nested starts and isolated loops need several loops and threads to be told apart",
      [FILE, "asyncz/schedulers/utils.py"], [("start/_init_new_loop/_shutdown/shutdown/handle_shutdown_coros", FILE), ("run_in_event_loop", "asyncz/schedulers/utils.py")],
      "path-sensitive abstract interpretation of start and shutdown from every combination of loop, thread and isolation",
      "asyncio and threading are modelled by their documentation: get_running_loop raises RuntimeError when no loop runs, stop() called from another thread does not wake the loop.")
def c77(ctx):
    p = ctx.proj
    ctx.rule("kept", "a start keeps the open loop (and the thread) the scheduler has")
    ctx.rule("joined", "without isolation the running loop is used")
    ctx.rule("own", "otherwise a daemon thread runs a new loop, and is up before the start goes on")
    ctx.rule("base", "the start is carried out once, with the caller's paused, and its answer is passed on")
    ctx.rule("thread", "the thread stores its new loop, tells the starter, runs it forever and closes it")
    ctx.rule("handover", "work is handed to the loop thread-safely, with its arguments")
    ctx.rule("stopped", "a real shutdown stops and forgets its own loop, and no other")
    ctx.rule("coros", "every asynchronous shutdown task is started and awaited before the own loop ends")
    starts(ctx, p)
    thread(ctx, p)
    handover(ctx, p)
    ends(ctx, p)
    coros(ctx, p)


def starts(ctx, p):
    n = 0
    for fq, (q, f) in concrete_methods(p, "start").items():
        if f.cls.qual == S:
            continue
        n += 1
        me = T("self", q)
        native = f.is_async
        for loop in (NONE, LOOP):
            for iso in (TRUE, FALSE):
                for thr in (NONE, THR):
                    if thr is THR and loop is NONE:
                        continue
                    cl = Rec(p, [E("running", "get_running_loop", raises=("builtins.RuntimeError",)), E("thread", ["Thread"]),
                                 E("up", "start", when=lambda c: c.recv is not None and not is_self(c.recv) and "Thread" in show(c.recv) or c.recv is THR),
                                 E("base", "start", when=lambda c: base_call(c, "start")), E("closed?", "is_closed"),
                                 E("wait", ["wait", "to_thread"]), W(lambda b, a, v: "loop:" + ("running" if "get_running_loop" in show(v) else "none" if v is NONE else "other"), ["event_loop"]),
                                 W(lambda b, a, v: "thr:" + ("none" if v is NONE else "new"), ["event_loop_thread"])], cap=2)
                    begin_with(cl, {(me, "event_loop"): loop, (me, "isolated_event_loop"): iso, (me, "event_loop_thread"): thr})
                    cl.assume_hook = there
                    res, it = run(p, cl, f, self_cls=q)
                    ctx.absorb(it)
                    tag = f"{f.cls.name}:{'loop' if loop is LOOP else 'no loop'}:{'isolated' if iso is TRUE else 'shared'}{':thread' if thr is THR else ''}"
                    done = [(k, pl, st) for k, pl, st in res if k == "return"]
                    ctx.ob("base", bool(done), tag + ":possible", f.where, "the scheduler can never be started like this")
                    for k, pl, st in done:
                        s = list(seq(st))
                        ctx.ob("base", s.count("base") == 1 and s[-1] == "base" and pl.k == "call" and callee(pl) == "start", tag, f.where, f"start does {s} and answers {show(pl)}", trace(st))
                        closed = next((v for kk, ts, v in st.facts if kk == "truth" and ts[0].k == "call" and callee(ts[0]) == "is_closed"), None)
                        has = loop is LOOP and closed is not True
                        if thr is THR and has:
                            ctx.ob("kept", "thread" not in s and ("loop:" not in " ".join(s) if iso is TRUE or not native else True), tag, f.where, f"the scheduler's own running loop is replaced: {s}", trace(st))
                            continue
                        if has and not native:
                            ctx.ob("kept", not [x for x in s if x.startswith(("loop:", "thr"))] and closed is False, tag, f.where,
                                   f"the loop it has is replaced: {s}" if closed is False else "a loop it has is kept without asking whether it is closed", trace(st))
                            continue
                        if iso is FALSE and "running" in s and "running!" not in s:
                            ctx.ob("joined", "thread" not in s and s.count("loop:running") == 1, tag, f.where, f"with a loop running: {s}", trace(st))
                            continue
                        if not native or iso is TRUE:
                            order = [x for x in s if x in ("thread", "up", "wait", "base")]
                            ctx.ob("own", order == ["thread", "up", "wait", "base"] and "thr:new" in s and "loop:running" not in s, tag, f.where, f"a loop of its own is started as {s}", trace(st))
                        else:
                            ctx.ob("joined", s.count("loop:running") == 1 and "thread" not in s, tag, f.where, f"without isolation: {s}", trace(st))
                    for k, pl, st in res:
                        if k == "raise":
                            ctx.ob("own", native and iso is FALSE, tag + ":raises", f.where, f"start fails with {pl.cls} instead of using a loop of its own", trace(st))
                    for i in cl.insts:
                        c = i.call
                        if i.label == "thread":
                            tg, dm, ar = (dict(c.kw).get(x) for x in ("target", "daemon", "args"))
                            ctx.ob("own", tg is not None and "_init_new_loop" in show(tg) and dm is TRUE, tag + ":thread", i.where, f"the thread runs {show(tg) if tg is not None else None}, daemon {show(dm) if dm is not None else None}")
                            ev = ar.a[0][0] if ar is not None and ar.k in ("list", "tuple") and ar.a[0] else None
                            waits = [j.call for j in cl.insts if j.label == "wait"]
                            ctx.ob("own", ev is not None and bool(waits) and all(contains(j.fn if j.name == "wait" else j.args[0], ev) for j in waits if j.name == "wait" or j.args), tag + ":event", i.where, "the start does not wait for the event the thread sets")
                        elif i.label == "base":
                            ctx.ob("base", c.arg(0, "paused") is PAUSED or c.arg(1, "paused") is PAUSED, tag + ":paused", i.where, "the caller's paused is not passed on")
    ctx.ob("base", n >= 2, "schedulers", FILE, f"{n} asyncio schedulers with a start of their own")
    for q, c in sorted(p.classes.items()):
        if q in schedulers(p) and "isolated_event_loop" in c.attrs:
            v = c.attrs["isolated_event_loop"]
            ctx.ob("joined", isinstance(v, ast.Constant) and v.value is False, c.name + ":default", f"{c.module.rel}:{c.node.lineno}", "the loop is isolated without being asked to")
    for fq, (q, f) in concrete_methods(p, "_setup").items():
        if f.cls.qual == S:
            continue
        cfg = T("p", [a.arg for a in f.node.args.args][1])
        for given in (TRUE, FALSE, None):
            cl = Rec(p, [W("iso", ["isolated_event_loop"]), E("", ["pop", "get"], when=lambda c: c.arg(0) is const("isolated_event_loop"), ret=lambda c, st, given=given: [given if given is not None else c.arg(1, "default") or NONE])], stop={"_setup"})
            cl.types_map = {}
            res, it = run(p, cl, f, self_cls=q)
            ctx.absorb(it)
            want = given is TRUE
            got = [i.value for i in cl.insts if i.label == "iso"]
            ctx.ob("joined", bool(got) and all(truth_const(v) is want for v in got), f"{f.cls.name}:configured:{show(given) if given is not None else 'left out'}", f.where, f"isolation becomes {[show(v) for v in got]}")


def truth_const(v):
    if v.k == "const":
        return bool(v.a[0])
    if v.k == "call" and callee(v) == "bool" and len(v.a[1]) == 1:
        return truth_const(v.a[1][0])
    return None


def thread(ctx, p):
    n = 0
    for fq, (q, f) in concrete_methods(p, "_init_new_loop").items():
        n += 1
        ev = T("p", [a.arg for a in f.node.args.args][1])
        cl = Rec(p, [E("new", "new_event_loop"), W(lambda b, a, v: "stored" if "new_event_loop" in show(v) else "stored?", ["event_loop"]), E("set", "set", when=lambda c: c.recv is ev),
                     E("run", "run_forever", raises=("builtins.BaseException",)), E("close", "close"), E("", ["run_until_complete", "shutdown_asyncgens"])])
        res, it = run(p, cl, f, self_cls=q)
        ctx.absorb(it)
        for k, pl, st in res:
            s = list(seq(st))
            core = [x.rstrip("!") for x in s if x.rstrip("!") in ("new", "stored", "stored?", "set", "run", "close")]
            ctx.ob("thread", core == ["new", "stored", "set", "run", "close"], f"{f.cls.name}:{'fails' if 'run!' in s else 'ends'}", f.where, f"the loop thread does {s}", trace(st))
        for i in cl.insts:
            if i.label in ("run", "close"):
                ctx.ob("thread", i.call.recv is not None and "new_event_loop" in show(i.call.recv), f"{f.cls.name}:{i.label}", i.where, f"{i.label} of {show(i.call.recv) if i.call.recv is not None else None}")
    ctx.ob("thread", n > 0, "loop thread", FILE, "no thread with a loop of its own")


def handover(ctx, p):
    f = p.functions.get("asyncz.schedulers.utils.run_in_event_loop")
    ctx.ob("handover", f is not None, "wrapper", "asyncz/schedulers/utils.py", "run_in_event_loop not found")
    if f is not None:
        fn = T("p", f.node.args.args[0].arg)
        cl = Rec(p, [E("direct", [], when=lambda c: c.fn is fn), E("hand", ["call_soon_threadsafe", "call_soon", "run_coroutine_threadsafe"])])
        cl.dyn = lambda c: ("direct", ()) if c.fn is fn else None
        res, it = run(p, cl, f)
        ctx.absorb(it)
        for k, pl, st in res:
            if k != "return" or pl.k != "closure":
                g = pl if k == "return" else None
                while g is not None and g.k == "call" and g.a[1] and g.k != "closure":
                    g = g.a[1][-1]
                pl = g if g is not None and g.k == "closure" else pl
            ctx.ob("handover", pl.k == "closure", "wrapper:returned", f.where, f"the decorator answers {show(pl)}")
            if pl.k != "closure":
                continue
            node, env, pf = it.closures[pl]
            inner = p.by_node.get(id(node))
            cl2 = Rec(p, [E("hand", ["call_soon_threadsafe", "call_soon"])])
            cl2.dyn = lambda c: ("direct", ()) if c.fn is fn else None
            me = T("p", [a.arg for a in inner.node.args.args][0])
            ends_, it2 = run(p, cl2, inner, closure_env=env)
            ctx.absorb(it2)
            for kk, v, st2 in ends_:
                s = list(seq(st2))
                ctx.ob("handover", kk == "return" and s == ["hand"], "wrapper", inner.where, f"the work is handed over as {s}", trace(st2))
            va, ka = inner.node.args.vararg, inner.node.args.kwarg
            for i in cl2.insts:
                c = i.call
                if i.label != "hand":
                    continue
                ok = c.name == "call_soon_threadsafe" and from_attr(c.recv, "event_loop") and contains(c.recv, me)
                ctx.ob("handover", ok, "wrapper:safe", i.where, f"handed over by {show(c.fn)}")
                whole = [*c.args]
                ok = any(contains(a, fn) for a in whole) and any(contains(a, me) for a in whole) and (va is None or any(contains(a, T("p", va.arg)) for a in whole)) and (ka is None or any(contains(a, T("p", ka.arg)) for a in whole))
                ctx.ob("handover", ok, "wrapper:arguments", i.where, f"the loop is asked to run {[show(a) for a in whole]}")
    for name in ("wakeup", "_shutdown"):
        for fq, (q, g) in concrete_methods(p, name).items():
            if g.cls.qual == S or on_loop(p, g):
                if g.cls.qual != S:
                    ctx.ob("handover", True, f"{g.cls.name}.{name}", g.where)
                continue
            touches = [c for c in ("process_tasks", "start_timer", "call_later", "stop")]
            cl = Rec(p, [E("touch", touches), E("hand", "call_soon_threadsafe")], stop=set(touches))
            res, it = run(p, cl, g, self_cls=q)
            loops = any("event_loop" in c.annots or "event_loop" in c.attrs or "start_timer" in c.methods for c in [p.classes[q]])
            if loops or any(i.label == "hand" for i in cl.insts):
                ctx.ob("handover", not any(i.label == "touch" for i in cl.insts), f"{g.cls.name}.{name}", g.where, "the loop is worked on from whatever thread calls")


def ends(ctx, p):
    f0 = p.method(S, "shutdown")
    n = 0
    for name in ("_shutdown", "shutdown"):
        for fq, (q, h) in concrete_methods(p, name).items():
            if h.cls.qual == S:
                continue
            me = T("self", q)
            for really in (TRUE, FALSE):
                for thr in (THR, NONE):
                    for handle in (HANDLE, NONE):
                        later = []

                        def cb(c, st, later=later):
                            later.append((c.args[0] if c.args else None, st, c))
                            return [NONE]
                        cl = Rec(p, [E("super", "shutdown", when=lambda c: base_call(c, "shutdown"), ret=lambda c, st: [really]),
                                     E(lambda c: "stop:" + ("loop" if stops(c)[0] == "direct" and here(p, c) else stops(c)[0]), ["stop", "call_soon_threadsafe"], when=lambda c: stops(c) is not None),
                                     E("after", "add_done_callback", ret=cb),
                                     W(lambda b, a, v: f"{a}:{'none' if v is NONE else 'set'}", ["event_loop", "event_loop_thread"])], stop={"stop_timer"}, cap=2)
                        begin_with(cl, {(me, "event_loop"): LOOP, (me, "event_loop_thread"): thr, (me, "_shutdown_handle"): handle, (me, "timer"): NONE})
                        cl.assume_hook = there

                        def awaits(t, st, node, fr, cl=cl):
                            if t is HANDLE:
                                return [("ok", NONE, cl.add(st, "awaited"))]
                            return None
                        cl.awaits = awaits
                        res, it = run(p, cl, h, self_cls=q)
                        ctx.absorb(it)
                        tag = f"{h.cls.name}.{name}:{'last' if really is TRUE else 'nested'}:{'own' if thr is THR else 'shared'}{':tasks' if handle is HANDLE else ''}"
                        if not any("super" in seq(st) for k, pl, st in res):
                            continue
                        n += 1
                        cbs = []
                        for fn_, st, c in later:
                            okc = False
                            if fn_ is not None and fn_.k == "closure":
                                node, env, pf = it.closures[fn_]
                                inner = p.by_node.get(id(node))
                                cl3 = Rec(p, [E("stop", "stop")])
                                r3, it3 = run(p, cl3, inner, closure_env=env)
                                okc = all("stop" in seq(x) for k3, _, x in r3) and bool(r3) and all(i.call.recv is LOOP for i in cl3.insts)
                            elif fn_ is not None and fn_.k == "attr" and fn_.a[1] == "stop":
                                okc = fn_.a[0] is LOOP
                            cbs.append(okc and c.recv is HANDLE)
                        for k, pl, st in res:
                            s = list(seq(st))
                            if k != "return":
                                continue
                            stop = [x for x in s if x.startswith("stop:")]
                            after = "after" in s and bool(cbs) and all(cbs)
                            own = really is TRUE and thr is THR
                            if own:
                                ctx.ob("stopped", len(stop) + after == 1, tag, h.where, f"its own loop is stopped {len(stop) + after} times: {s}", trace(st))
                                ctx.ob("stopped", "event_loop:none" in s and "event_loop_thread:none" in s, tag + ":forgotten", h.where, f"the stopped loop is not forgotten: {s}", trace(st))
                                ctx.ob("stopped", "stop:direct" not in stop, tag + ":woken", h.where, "a loop waiting in another thread is told to stop without being woken", trace(st))
                            else:
                                ctx.ob("stopped", not stop and not after and "event_loop:none" not in s, tag, h.where, f"a loop that goes on, or is not its own, is stopped or forgotten: {s}", trace(st))
                            if own and handle is HANDLE:
                                ctx.ob("coros", after and not stop or "awaited" in s and s.index("awaited") < min([s.index(x) for x in stop] or [99]), tag, h.where, f"its loop is stopped before the shutdown tasks have come to their end: {s}", trace(st))
                        for i in cl.insts:
                            if i.label.startswith("stop:"):
                                ctx.ob("stopped", stops(i.call)[1] is LOOP, tag + ":which", i.where, f"stops {show(stops(i.call)[1])}")
    ctx.ob("stopped", n > 0, "shutdowns", FILE, "no asyncio shutdown found")


def coros(ctx, p):
    n = 0
    for fq, (q, f) in concrete_methods(p, "handle_shutdown_coros").items():
        param = T("p", [a.arg for a in f.node.args.args][1])
        cl = Rec(p, [E("gather", ["gather", "call_soon_threadsafe", "call_soon"]), W(lambda b, a, v: "kept" if "gather" in show(v) else "none", ["_shutdown_handle"])])
        res, it = run(p, cl, f, self_cls=q)
        ctx.absorb(it)
        n += 1
        for k, pl, st in res:
            s = list(seq(st))
            some = known(st, param)
            if some is False or next((v for kk, ts, v in st.facts if kk == "eq" and any(callee(x) == "len" for x in ts) and const(0) in ts), None):
                ctx.ob("coros", "gather" not in s and "kept" not in s, f"{f.cls.name}:none", f.where, f"without any: {s}", trace(st))
            else:
                ctx.ob("coros", s.count("gather") == 1 and k == "return", f"{f.cls.name}:started", f.where, f"asynchronous shutdown tasks are started by {s}", trace(st))
                if f.cls.qual != S:
                    ctx.ob("coros", "kept" in s, f"{f.cls.name}:remembered", f.where, f"nothing can wait for the shutdown tasks: {s}", trace(st))
        for i in cl.insts:
            if i.label == "gather":
                ctx.ob("coros", gathered(i.call, param), f"{f.cls.name}:all", i.where, f"starts {[show(a) for a in i.call.args]}")
    ctx.ob("coros", n > 0, "implementations", FILE, "handle_shutdown_coros not found")


@prop("C78", "The ASGI wrapper starts and stops the scheduler with the application",
      """The application wrapped by asgi() keeps its own lifespan handling unless handle_lifespan asks the wrapper to answer the lifespan itself. The startup starts the scheduler exactly
      once and, only if that succeeded, leaves one cleanup behind that shuts the scheduler down exactly once with the caller's wait; asynchronous schedulers are awaited in both.""",
      ["histories", "inputs"],
      "synchronous and asynchronous schedulers, failing starts, and every combination of the wrapper's options",
      "tests wrap one application around one scheduler; a failing start or the other scheduler class takes another path",
      ["asyncz/schedulers/base.py"], [("asgi", "asyncz/schedulers/base.py")],
      "abstract interpretation of asgi and of the setup and cleanup functions it hands to the lifespan hook",
      "monkay's LifespanHook and contextlib.AsyncExitStack are modelled by their documentation.")
def c78(ctx):
    p = ctx.proj
    ctx.rule("wrapped", "the caller's application is wrapped, or a decorator is returned when there is none yet")
    ctx.rule("forward", "the application gets the lifespan messages unless the wrapper handles them")
    ctx.rule("startup", "the startup starts the scheduler once, awaited where that is needed, and returns its cleanup")
    ctx.rule("cleanup", "one cleanup is left behind after a successful start; it shuts down once with the caller's wait")
    f = p.method(S, "asgi")
    ctx.ob("wrapped", f is not None, "asgi", "asyncz/schedulers/base.py", "asgi not found")
    if f is None:
        return
    me = T("self", S)
    setups = {}
    for hl in (TRUE, FALSE):
        for app in (T("p", "APP"), NONE):
            cl = Rec(p, [E("hook", ["LifespanHook"])], cap=2)
            res, it = run(p, cl, f, self_cls=S, args={"handle_lifespan": hl, "app": app, "wait": T("p", "WAIT")})
            ctx.absorb(it)
            tag = f"{'handled' if hl is TRUE else 'forwarded'}:{'app' if app is not NONE else 'decorator'}"
            for k, pl, st in res:
                ctx.ob("wrapped", k == "return" and seq(st) == ("hook",) and "LifespanHook" in show(pl), tag, f.where, f"answers {show(pl) if k == 'return' else pl}", trace(st))
            for i in cl.insts:
                c = i.call
                ctx.ob("wrapped", c.arg(0, "app") is app, tag + ":app", i.where, f"wraps {show(c.arg(0, 'app')) if c.arg(0, 'app') is not None else 'nothing'}")
                fw = dict(c.kw).get("do_forward")
                got = truth_const(fw) if fw is not None else True
                if got is None and fw.k == "not":
                    inner = truth_const(fw.a[0])
                    got = None if inner is None else not inner
                ctx.ob("forward", got is (hl is FALSE), tag, i.where, f"lifespan messages are {'forwarded' if got else 'kept' if got is False else show(fw)}")
                sv = dict(c.kw).get("setup")
                if sv is not None and sv.k == "closure":
                    setups[sv] = it
                else:
                    ctx.ob("startup", False, tag + ":setup", i.where, f"the startup is {show(sv) if sv is not None else None}")
    ctx.ob("startup", bool(setups), "setup", f.where, "no startup is handed to the lifespan hook")
    for sv, it in setups.items():
        node, env, pf = it.closures[sv]
        inner = p.by_node.get(id(node))
        startup(ctx, p, inner, env, S, it)


def startup(ctx, p, g, env, q, outer):
    START, STOP = T("p", "STARTED"), T("p", "STOPPED")
    cleanups = []

    def push(c, st):
        cleanups.append((c.args[0] if c.args else None, tuple(c.args[1:]), tuple(c.kw), c))
        return [NONE]

    def client(events):
        cl = Rec(p, events, stop={"start", "shutdown"}, cap=2)

        def awaits(t, st, node, fr):
            if t in (START, STOP):
                return [("ok", NONE, cl.add(st, "await"))]
            return None
        cl.awaits = awaits
        cl.closures = dict(outer.closures)
        return cl

    def needed(st, t):
        return next((v for k, ts, v in st.facts if k == "truth" and ts[0].k == "call" and callee(ts[0]) in ("isawaitable", "iscoroutine", "isinstance", "hasattr") and any(contains(x, t) for x in ts[0].a[1])), None)
    cl = client([E("start", "start", when=lambda c: is_self(c.recv), raises=(OTHER,), ret=lambda c, st: [START]),
                 E("push", ["push_async_callback", "callback", "push_async_exit", "push"], ret=push), E("stop", "shutdown", when=lambda c: is_self(c.recv))])
    res, it = run(p, cl, g, self_cls=q, closure_env=env)
    ctx.absorb(it)
    seen = set()
    for k, pl, st in res:
        s = list(seq(st))
        if k == "raise":
            ctx.ob("cleanup", "push" not in s or "start!" not in s, "failed start", g.where, f"a start that failed leaves a cleanup behind: {s}", trace(st))
            ctx.ob("startup", "start!" in s, "fails", g.where, f"the startup fails with {pl.cls}", trace(st))
            continue
        ctx.ob("startup", "start!" not in s and [x for x in s if x != "await"].count("start") == 1, "once", g.where, f"the startup does {s}", trace(st))
        need = needed(st, START)
        seen.add(need)
        ctx.ob("startup", need is not None and ("await" in s) == need, f"awaited:{need}", g.where, f"an {'asynchronous' if need else 'synchronous'} start is {'awaited' if 'await' in s else 'not awaited'}", trace(st))
        ctx.ob("cleanup", s.count("push") == 1 and s[-1] == "push", "left", g.where, f"the cleanup is left behind as {s}", trace(st))
        ctx.ob("startup", pl.k in ("new", "call") and "AsyncExitStack" in show(pl) and all(c.recv is pl for _, _, _, c in cleanups), "returned", g.where, f"the startup answers {show(pl)}", trace(st))
        ctx.ob("cleanup", "stop" not in s, "early", g.where, "the scheduler is shut down by its startup", trace(st))
    ctx.ob("startup", {True, False} <= seen, "kinds", g.where, f"an asynchronous start is told from a synchronous one: {sorted(map(str, seen))}")
    ctx.ob("cleanup", bool(cleanups), "any", g.where, "nothing shuts the scheduler down")
    for cb, args, kw, c in cleanups:
        w = f"{c.func.module.rel}:{c.node.lineno}"
        if cb is None or cb.k != "closure":
            # a bare self.shutdown suits either synchronous or asynchronous schedulers, not both
            ctx.ob("cleanup", False, "function", w, f"the cleanup is {show(cb) if cb is not None else None}")
            continue
        for _ in range(4):
            node, env2, pf = it.closures[cb]
            h = p.by_node.get(id(node))
            if h.is_async or not isinstance(node, ast.Lambda):
                break
            probe = client([E("stop", "shutdown", when=lambda c: is_self(c.recv))])
            probe.closures = dict(it.closures)
            ends_, it = run(p, probe, h, self_cls=q, closure_env=env2)      # a lambda handing out the coroutine to await
            nxt = {pl.a[1] for k, pl, st in ends_ if k == "return" and pl.k == "coro" and pl.a[1].k == "closure" and not seq(st)}
            if len(nxt) != 1 or len(ends_) != 1:
                break
            cb = nxt.pop()
        c2 = client([E("stop", "shutdown", when=lambda c: is_self(c.recv), ret=lambda c, st: [STOP])])
        c2.closures = dict(it.closures)
        r2, it2 = run(p, c2, h, self_cls=q, closure_env=env2)
        ctx.absorb(it2)
        got = set()
        for k, pl, st in r2:
            s = list(seq(st))
            need = needed(st, STOP)
            got.add(need)
            ctx.ob("cleanup", s.count("stop") == 1 and k == "return", "once", h.where, f"the cleanup does {s}", trace(st))
            ctx.ob("cleanup", need is not None and ("await" in s) == need, f"awaited:{need}", h.where, f"an {'asynchronous' if need else 'synchronous'} shutdown is {'awaited' if 'await' in s else 'not awaited'}", trace(st))
        ctx.ob("cleanup", {True, False} <= got, "kinds", h.where, "an asynchronous shutdown is told from a synchronous one")
        for i in c2.insts:
            if i.label == "stop":
                ctx.ob("cleanup", i.call.arg(0, "wait") is T("p", "WAIT"), "wait", i.where, f"shuts down with wait {show(i.call.arg(0, 'wait')) if i.call.arg(0, 'wait') is not None else 'left out'}")
