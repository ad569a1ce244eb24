"""Listener isolation, event codes, exactly-once notification."""
import ast

from sa.report import prop

from ._common import *


@prop("C04", "A failing listener never affects other listeners or the scheduler",
      """Dispatching an event calls each registered listener whose mask selects the event's code exactly once, in the calling thread, and no
      other listener. An error of any kind raised by a listener is contained: the remaining listeners are still called and the dispatch
      returns normally. Dispatch holds none of its own locks while a listener runs, so listeners may call back into the scheduler.""",
      ["programs", "inputs", "fault_sequences"],
      "every set of listeners and masks, every event, every subset of listeners that fail with any exception (including non-standard ones)",
      "tests register one or two listeners raising one exception type; they cannot cover every failure position, mask or exception class",
      ["asyncz/schedulers/base.py"], [("dispatch_event", "asyncz/schedulers/base.py:dispatch_event")],
      "path-sensitive dataflow with injected listener exceptions and lock sets",
      "All paths of the dispatch loop are enumerated with the listener call returning, raising an Exception, or raising a bare BaseException.")
def c04(ctx):
    p = ctx.proj
    ctx.rule("contained", "no listener exception leaves dispatch")
    ctx.rule("continues", "after a listener raised, the loop goes on to the next listener")
    ctx.rule("no-lock-held", "no lock is held while a listener runs")
    ctx.rule("mask", "a listener runs iff event code & its mask is non-zero")
    ctx.rule("once", "each selected listener is called exactly once with the event")
    fs = {p.method(q, "dispatch_event").qual: (q, p.method(q, "dispatch_event")) for q in [S] + p.subclasses(S)}
    for q, f in fs.values():
        cl = Rec(p, [E("x", ["dispatch_event"])], cap=3)
        ev = T("p", [a.arg for a in f.node.args.args][1])

        def dyn(c):
            if from_attr(c.fn, "listeners") and c.fn.k in ("elem", "idx", "attr", "phi"):
                if c.fn.k == "attr" and c.fn.a[1] in ("items", "copy", "values"):
                    return None
                return "cb", (EXC, BEXC)
            return None
        cl.dyn = dyn
        cl.iter_of = lambda it: it is NONE or from_attr(it, "listeners")
        cl.keep_break = True
        res, it = run(p, cl, f, self_cls=q)
        ctx.absorb(it)
        cbs = [i for i in cl.insts if i.label == "cb"]
        ctx.need(cbs, "listener call not found in dispatch_event")
        for kind, pl, st in res:
            ctx.ob("contained", kind == "return", f.qual, f.where, f"dispatch raises {pl}" if kind != "return" else "", trace(st))
            if kind == "return":
                ctx.ob("continues", "@iter" not in seq(st), f.qual, f.where, "the listener loop is left early", trace(st))
        survived = False
        in_place = mutated_in_place(p, "listeners")
        for itm in {x[0] for x in cl.iters if x[0] is not NONE}:
            ctx.ob("once", not (in_place and live_view(itm, "listeners")), f.qual + ":snapshot", f.where, "listeners run while the live list is walked: one that unregisters itself makes the next one miss the event")
        for itm, st, node, fn in cl.iters:
            s = seq(st)
            m = _mask_fact(st, itm)
            if "cb!" in s:
                survived = True
            n = s.count("cb")
            if m is not None:
                ctx.ob("mask", (n > 0) == m, f.qual, f.where, f"listener {'called' if n else 'skipped'} although mask {'does not select' if not m else 'selects'} the event", trace(st))
            else:
                ctx.ob("mask", False, f.qual, f.where, "listener loop does not depend on code & mask", trace(st))
            ctx.ob("once", n <= 1, f.qual, f.where, f"listener called {n} times for one event", trace(st))
        ctx.ob("continues", survived, f.qual, f.where, "no path continues after a listener failure")
        for i in cbs:
            ctx.ob("no-lock-held", not i.locks, f.qual, i.where, f"listener called while holding {i.locks}")
            ctx.ob("once", i.call.args[:1] == (ev,) or any(v is ev for _, v in i.call.kw), f.qual + ":arg", i.where, "listener not called with the event")
        # the lock must cover taking the snapshot, not more: see C03 for iteration under lock


def _mask_fact(st, it):
    for f in st.facts:
        if f[0] == "truth" and any(t.k == "op" and t.a[0] == "BitAnd" for t in subterms(f[1][0])):
            return f[2]
        if f[0] in ("eq", "is", "lt") and any(t.k == "op" and t.a[0] == "BitAnd" for x in f[1] for t in subterms(x)):
            z = f[1][1] is const(0)
            if f[0] == "eq" and z:
                return not f[2]
            if f[0] == "lt" and f[1][0] is const(0):
                return f[2]
    for t in subterms(it):
        if t.k == "comp" and any("BitAnd" in c for c in t.a[3]):
            return True
    return None


@prop("C05", "Event codes are distinct bits and every event table covers them",
      """Every kind of event has its own bit, the mask meaning all events is exactly their union, and the models that carry events accept them.
      The dashboard's event names and its run-history subscription cover every event kind they are meant to show, so that subscribing by mask
      neither misses nor confuses events.""",
      ["configurations", "inputs"],
      "all event kinds, all subscription masks built from them",
      "tests use individual codes; a code that shares a bit with another or is missing from a table only shows for particular mask combinations",
      ["asyncz/events/constants.py", "asyncz/contrib/dashboard/events.py", "asyncz/contrib/dashboard/history.py"],
      [("event bit constants", "asyncz/events/constants.py"), ("event name table", "asyncz/contrib/dashboard/events.py:EVENT_NAMES")],
      "constant folding over the syntax tree and table completeness",
      "Every constant is folded from source; finite and exhaustive over the event kinds.")
def c05(ctx):
    p = ctx.proj
    ctx.rule("single-bit", "each event code is a power of two")
    ctx.rule("distinct", "no two event kinds share a bit")
    ctx.rule("all-mask", "ALL_EVENTS is the union of all event codes")
    ctx.rule("names", "the dashboard has a distinct name for every event code")
    ctx.rule("run-mask", "run history subscribes to exactly the five run events")
    ctx.rule("dispatched", "every event the library constructs uses a declared code")
    m = p.modules.get("asyncz.events.constants")
    ctx.need(m is not None, "event constants module not found")
    vals = {}
    w = m.rel
    for n in m.assigns:
        if n.isupper() and n != "ALL_EVENTS" and not n.startswith("_"):
            try:
                v = p.const_of(f"{m.name}.{n}")
            except ValueError:
                continue
            if isinstance(v, int):
                vals[n] = v
    ctx.need(len(vals) >= 15, "event constants not found")
    alias = {"SCHEDULER_STARTED": "SCHEDULER_START"}
    uniq = {}
    for n, v in sorted(vals.items()):
        ctx.ob("single-bit", v > 0 and v & (v - 1) == 0, n, w, f"{n} = {v} is not a single bit")
        k = alias.get(n, n)
        if k in uniq and uniq[k] != v:
            ctx.ob("distinct", False, n, w, f"{n} differs from {k}")
        uniq[k] = v
    rev = {}
    for n, v in sorted(uniq.items()):
        ctx.ob("distinct", v not in rev, n, w, f"{n} shares code {v} with {rev.get(v)}")
        rev.setdefault(v, n)
    want = 0
    for v in uniq.values():
        want |= v
    ctx.ob("all-mask", p.const_of(f"{m.name}.ALL_EVENTS") == want, "ALL_EVENTS", w, "ALL_EVENTS misses " + ", ".join(n for n, v in uniq.items() if not p.const_of(f"{m.name}.ALL_EVENTS") & v))
    dm = "asyncz.contrib.dashboard.events"
    if dm in p.modules:
        names = p.const_of(f"{dm}.EVENT_NAMES")
        for n, v in sorted(uniq.items()):
            ctx.ob("names", v in names, n, p.modules[dm].rel, f"no dashboard name for {n}")
        ctx.ob("names", len(set(names.values())) == len(names), "EVENT_NAMES", p.modules[dm].rel, "two events share a display name")
        for n in ("TASK_EXECUTED", "TASK_ERROR", "TASK_MISSED", "TASK_MAX_INSTANCES"):
            ctx.ob("names", vals[n] in p.const_of(f"{dm}.TERMINAL_EVENT_CODES"), f"terminal:{n}", p.modules[dm].rel, f"{n} not counted as terminal")
        for n, v in vals.items():
            t = names.get(v, "")
            ctx.ob("names", t.replace(".", "_").replace("scheduler_start", "scheduler_start").upper().startswith(n.split("_")[0]) or n.startswith("ALL"), f"category:{n}", p.modules[dm].rel, f"{n} is named {t}")
    hm = "asyncz.contrib.dashboard.history"
    if hm in p.modules:
        run_mask = 0
        for n in ("TASK_SUBMITTED", "TASK_MAX_INSTANCES", "TASK_EXECUTED", "TASK_ERROR", "TASK_MISSED"):
            run_mask |= vals[n]
        ctx.ob("run-mask", p.const_of(f"{hm}.RUN_EVENT_MASK") == run_mask, "RUN_EVENT_MASK", p.modules[hm].rel, "run history mask is not the union of the run events")
        f = p.func(f"{hm}._status_from_execution_code")
        cl = Rec(p, [])
        for n in ("TASK_EXECUTED", "TASK_ERROR", "TASK_MISSED"):
            res, it = run(p, cl, f, args={f.node.args.args[0].arg: T("ref", f"asyncz.events.constants.{n}")})
            ctx.absorb(it)
            got = {show(pl) for k, pl, st in res if k == "return"}
            exp = {"TASK_EXECUTED": "succeeded", "TASK_ERROR": "failed", "TASK_MISSED": "missed"}[n]
            ctx.ob("run-mask", got == {repr(exp)}, f"status:{n}", f.where, f"{n} recorded as {got}")
    # constructions
    for mod in p.modules.values():
        if not mod.name.startswith("asyncz.") or ".contrib." in mod.name:
            continue
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Call):
                from sa.project import dotted
                d = dotted(n.func)
                if d and p.resolve(mod, d) in ("asyncz.events.base.SchedulerEvent", "asyncz.events.base.TaskEvent", "asyncz.events.base.TaskSubmissionEvent", "asyncz.events.base.TaskExecutionEvent"):
                    for k in n.keywords:
                        if k.arg == "code" and dotted(k.value):
                            q = p.resolve(mod, dotted(k.value))
                            if q.rpartition(".")[2].isupper():
                                ctx.ob("dispatched", q in {f"{m.name}.{x}" for x in vals}, f"{mod.name}:{q.rpartition('.')[2]}", f"{mod.rel}:{n.lineno}", f"event built with undeclared code {q}")
    ctx.floor("distinct", 15)
    ctx.floor("dispatched", 10)
