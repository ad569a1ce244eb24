"""C40-C44: schedules computed by triggers."""
import ast

from sa.report import prop

from ._common import *

TR = "asyncz.triggers."
BT = TR + "base.BaseTrigger"
INTERVAL, CRON, DATE, SHUT = TR + "interval.IntervalTrigger", TR + "cron.trigger.CronTrigger", TR + "date.DateTrigger", TR + "shutdown.ShutdownTrigger"
AND, OR = TR + "combination.AndTrigger", TR + "combination.OrTrigger"
NOW, PREV, JIT, CEIL, NEXT = T("p", "now"), T("p", "previous_time"), T("p", "JIT"), T("p", "CEIL"), T("p", "NEXT")


def arg0(c, st):
    for n in ("value", "dateval", "datetime"):
        if c.arg(0, n) is not None:
            return [c.arg(0, n)]
    return [c.recv] if c.recv is not None else [T("unk", "call")]


def params(f):
    return [a.arg for a in f.node.args.args if a.arg != "self"]


def names(f):
    ps = params(f)
    return T("p", ps[1]), T("p", ps[2])


def abs_run(ctx, cls, events=(), stop=(), max_states=None, until=None, prune=True, cap=2, drop=lambda lit: False):
    """get_next_trigger_time with `now` given; attaching a timezone to a naive value and normalising it do not change the instant"""
    p = ctx.proj
    f = p.method(cls, "get_next_trigger_time")
    now = names(f)[1]
    cl = Rec(p, [E("", "replace", ret=lambda c, st: [c.recv], when=lambda c: c.arg(0, "tzinfo") is not None), E("", ["normalize", "localize"], ret=arg0), E("", "astimezone", ret=lambda c, st: [c.recv])]
             + list(events), stop=set(stop) | {"increment_field_value", "set_field_value"}, cap=cap)

    def hook(lit, st, node, fr):
        if prune and lit[0] == "is" and lit[1][0] is now and lit[1][1] is NONE and lit[2]:
            return None
        if until is not None and until in seq(st) or drop(lit):
            return None
        return st
    cl.assume_hook = hook
    res, it = run(p, cl, f, self_cls=cls, max_states=max_states)
    ctx.absorb(it)
    return f, cl, res


def lits(st, kind):
    return [x for x in st.facts if x[0] == kind]


def falsy(st, t):
    return any(x[1][0] is t and not x[2] for x in lits(st, "truth")) or any(x[1][0] is t and x[1][1] is NONE and x[2] for x in lits(st, "is"))


def truthy_(st, t):
    return any(x[1][0] is t and x[2] for x in lits(st, "truth")) or any(x[1][0] is t and x[1][1] is NONE and not x[2] for x in lits(st, "is"))


def later(st, a, b):
    """a > b known?  True / False / None"""
    for x in lits(st, "lt"):
        if x[1][0] is b and x[1][1] is a:
            return x[2]
        if x[1][0] is a and x[1][1] is b and x[2]:
            return False
    return None


def is_min_with(t, end):
    return t.k == "call" and callee(t) == "min" and any(a is end or is_min_with(a, end) for a in t.a[1])


def binop(t, op):
    return t.k == "op" and t.a[0] == op


@prop("C40", "Interval and cron schedules stay within their start and end",
      """An interval or cron trigger never yields a run later than its end, jitter included, and no run at all after it. The first run is not
      before the start: an interval trigger begins exactly at a start in the future and otherwise at the next whole interval from the
      start, a cron trigger searches from the later of now and the start. Later interval runs follow the previous one by the interval.""",
      ["inputs"],
      "every setting of start, end, jitter, previous run and current time",
      "the order of jitter, start and end handling matters only for settings near a boundary, which are rarely sampled",
      ["asyncz/triggers/interval.py", "asyncz/triggers/cron/trigger.py", "asyncz/triggers/base.py"],
      [("IntervalTrigger.get_next_trigger_time", "asyncz/triggers/interval.py"), ("CronTrigger.get_next_trigger_time", "asyncz/triggers/cron/trigger.py")],
      "path-sensitive abstract interpretation with branch facts on the returned value",
      "Every returning path is checked: the returned value is bounded by the end by a comparison or a minimum made after its last change.",
      assumptions=["attaching the time zone to a naive value and normalising do not change the instant compared", "apply_jitter only delays (C43)"])
def c40(ctx):
    ctx.rule("end", "returned value is bounded by the end")
    ctx.rule("exhausted", "an interval trigger ends only after its end")
    ctx.rule("first", "first run not before the start")
    ctx.rule("follow", "previous run plus interval")
    for cls in (INTERVAL, CRON):
        cn = cls.split(".")[-1]
        me = T("self", cls)
        END, START = T("attr", me, "end_at"), T("attr", me, "start_at")
        jit = E("jit", "apply_jitter", ret=lambda c, st: [JIT])
        evs = [jit, E("", ["timedelta_seconds", "total_seconds"]), E("", "ceil", ret=lambda c, st: [CEIL]), E("from", "datetime_ceil", ret=lambda c, st: [T("p", "FROM")])]
        PREV, NOW = names(ctx.proj.method(cls, "get_next_trigger_time"))
        if cls == INTERVAL:
            f, cl, res = abs_run(ctx, cls, evs, stop={"apply_jitter"}, max_states=600)
        else:
            # one run with and one without a previous run; zone-aware settings, own zone (attaching a zone is the identity here)
            res = []
            for have in (True, False):
                f, cl, r = abs_run(ctx, cls, evs, stop={"apply_jitter"}, drop=lambda lit: lit[0] == "truth" and (lit[1][0] is PREV and lit[2] is not have or lit[1][0] is T("attr", me, "timezone") and not lit[2])
                                   or lit[0] == "is" and lit[1][0].k == "attr" and lit[1][0].a[1] == "tzinfo" and lit[1][1] is NONE and lit[2])
                res += r
        n = 0
        for k, pl, st in res:
            if k != "return":
                continue
            if pl is NONE:
                if cls == INTERVAL:
                    ctx.ob("exhausted", any(x[1][0] is END and x[2] for x in lits(st, "lt")), cn, f.where, "ends although the end is not passed", trace(st))
                continue
            n += 1
            ok = pl is END or falsy(st, END) or is_min_with(pl, END) or later(st, pl, END) is False
            ctx.ob("end", ok, cn, f.where, f"{show(pl)} is not bounded by the end", trace(st))
        ctx.ob("end", n > 0, cn + ":runs", f.where, "never yields a run")
        if cls == INTERVAL:
            STEP = T("attr", me, "interval")
            vals = [(pl, st) for k, pl, st in res if k == "return" and pl is not NONE and not contains(pl, JIT)]
            vals += [(i.call.arg(0, "next_trigger_time"), i.st) for i in cl.insts if i.label == "jit"]
            kinds_ = set()
            for v, st in vals:
                if truthy_(st, PREV):
                    kinds_.add("follow")
                    ctx.ob("follow", binop(v, "Add") and PREV in v.a[1:] and STEP in v.a[1:], cn, f.where, f"after a previous run: {show(v)}", trace(st))
                    continue
                fut = later(st, START, NOW)
                if v is START:
                    kinds_.add("start")
                    ctx.ob("first", fut is not False or any(x[1] == (START, NOW) and x[2] for x in lits(st, "eq")), cn, f.where, "a start in the past is the first run", trace(st))
                else:
                    kinds_.add("grid")
                    ctx.ob("first", fut is not True, cn, f.where, f"the start is in the future, first run {show(v)}", trace(st))
                    ctx.ob("first", binop(v, "Add") and START in v.a[1:] and contains(v, STEP) and contains(v, CEIL), cn + ":grid", f.where, f"first run {show(v)} is not on the first whole interval from the start", trace(st))
            ctx.ob("first", {"start", "grid"} <= kinds_, cn + ":both", f.where, f"only {sorted(kinds_)} found")
            ctx.ob("follow", "follow" in kinds_, cn + ":any", f.where, "no run follows a previous one")
        else:
            # the prefix up to the start of the search, without merging paths
            f, cl, res = abs_run(ctx, cls, evs, stop={"apply_jitter"}, max_states=600, until="from")
            n = 0
            for i in cl.insts:
                if i.label != "from":
                    continue
                v = i.call.arg(0)
                for w in (v.a[0] if v.k == "phi" else [v]):
                    if falsy(i.st, PREV):
                        n += 1
                        both = w.k == "call" and callee(w) == "max" and {NOW, START} <= set(w.a[1])
                        ok = both or (w is NOW and (falsy(i.st, START) or later(i.st, START, NOW) is False)) or (w is START and later(i.st, NOW, START) is not True and later(i.st, START, NOW) is not None)
                        ctx.ob("first", ok, cn, i.where, f"search starts at {show(w)}", trace(i.st))
            ctx.ob("first", n > 0, cn + ":any", f.where, "the search of the first run was not found")
    ctx.floor("end", 4)


@prop("C42", "Combined triggers: AND needs agreement, OR takes the earliest",
      """An AND trigger yields a time only if all its triggers yield that same time and ends as soon as one of them has ended. An OR trigger
      yields the earliest time of those that have not ended, and ends when all have. Every nested trigger is asked with the same previous
      run and the same current time in a round.""",
      ["inputs"],
      "every combination of nested trigger results",
      "tests combine a few triggers with fixed times; exhaustion of one of several triggers and disagreement are rarely sampled",
      ["asyncz/triggers/combination.py", "asyncz/triggers/base.py"],
      [("AndTrigger/OrTrigger.get_next_trigger_time", "asyncz/triggers/combination.py")],
      "path-sensitive abstract interpretation with per-iteration event sequences",
      "Every path through the round over the nested triggers is interpreted with each nested result being a time or None.",
      assumptions=["that an AND of triggers that never agree terminates is not claimed"])
def c42(ctx):
    ctx.rule("agree", "AND yields only an agreed time")
    ctx.rule("ended", "None handling")
    ctx.rule("earliest", "OR yields the minimum")
    ctx.rule("round", "same arguments for every nested trigger")
    p = ctx.proj
    for cls in (AND, OR):
        cn = cls.split(".")[-1]
        me = T("self", cls)
        f = p.method(cls, "get_next_trigger_time")
        prev, now = names(f)
        tz = T("p", params(f)[0])
        cl = Rec(p, [E("next", "get_next_trigger_time", ret=lambda c, st: [(NEXT, cl.add(st, "some")), (NONE, cl.add(st, "none"))]),
                     E("put", ["append", "add"]), E("jit", "apply_jitter", ret=lambda c, st: [JIT])], cap=2, stop={"apply_jitter"})
        cl.iter_rel = True
        cl.iter_events = frozenset({"next", "get_next_trigger_time"})
        cl.keep_break = True
        cl.assume_hook = lambda lit, st, node, fr: None if lit[1][0] is NEXT and (lit[0] == "is" and lit[1][1] is NONE and lit[2] or lit[0] == "truth" and not lit[2]) else st
        res, it = run(p, cl, f, self_cls=cls)
        ctx.absorb(it)
        comps = [x for k, pl, st in res for v in list(st.heap.values()) + [y for fct in st.facts for y in fct[1] if hasattr(y, "k")] + ([pl] if k == "return" else []) for x in subterms(v) if x.k == "comp"]
        n = 0
        for i in cl.insts:
            if i.label != "next":
                continue
            n += 1
            a = [i.call.arg(0, "timezone"), i.call.arg(1, "previous_time"), i.call.arg(2, "now")]
            ctx.ob("round", a[0] is tz or contains(a[0], tz), cn + ":timezone", i.where, f"asked in {show(a[0]) if a[0] is not None else 'no zone'}")
            ctx.ob("round", a[1] is prev, cn + ":previous", i.where, f"previous is {show(a[1]) if a[1] is not None else 'missing'}")
            ok = a[2] is not None and not contains(a[2], NEXT) or cls == AND and a[2] is not None
            ctx.ob("round", ok, cn + ":now", i.where, f"current time is {show(a[2]) if a[2] is not None else 'taken separately for each trigger'}")
            ctx.ob("round", from_attr(i.call.recv, "triggers"), cn + ":each", i.where, f"asks {show(i.call.recv)}")
        ctx.ob("round", n > 0, cn, f.where, "nested triggers are not asked")
        for itm, st, node, fn in cl.iters:
            s = seq(st)
            if "next" not in s or isinstance(node, (ast.ListComp, ast.GeneratorExp, ast.comprehension)):
                continue
            if "none" in s:
                ctx.ob("ended", "put" not in s, cn + ":none", f"{fn.module.rel}:{node.lineno}", "an ended trigger's None is collected as a time", trace(st))
                if cls == AND:
                    ctx.ob("ended", False, cn + ":continue", f"{fn.module.rel}:{node.lineno}", "the round goes on although a trigger has ended", trace(st))
            elif "some" in s:
                ctx.ob("earliest" if cls == OR else "agree", "put" in s, cn + ":collected", f"{fn.module.rel}:{node.lineno}", "a nested time is left out", trace(st))
        ends = 0
        for k, pl, st in res:
            if k != "return":
                continue
            s = seq(st)
            if pl is NONE:
                ends += 1
                if cls == AND:
                    ctx.ob("ended", "none" in s or bool(comps), cn + ":early", f.where, "ends although no nested trigger has ended", trace(st))
                continue
            if cls == AND:
                ctx.ob("agree", "none" not in s or screened(st), cn + ":none", f.where, "yields a time although a nested trigger has ended", trace(st))
                ctx.ob("agree", agreed(st), cn, f.where, "yields a time the nested triggers do not agree on", trace(st))
        ctx.ob("ended", ends > 0, cn + ":ends", f.where, "never ends")
        # the value handed on
        vals = [(i.call.arg(0, "next_trigger_time"), i) for i in cl.insts if i.label == "jit"]
        raw = [(pl, None) for k, pl, st in res if k == "return" and pl is not NONE and pl is not JIT]
        for v, i in vals + raw:
            w = i.where if i is not None else f.where
            if cls == OR:
                ok = callee(v) == "min" or is_first_sorted(v)
                ctx.ob("earliest", ok, cn, w, f"yields {show(v)}")
            else:
                ctx.ob("agree", v is NEXT or contains(v, NEXT) or v.k == "idx" or callee(v) in ("min", "max", "pop", "next"), cn + ":value", w, f"yields {show(v)}")
        ctx.ob("earliest" if cls == OR else "agree", bool(vals or raw), cn + ":yields", f.where, "never yields a time")
        if cls == OR:
            for k, pl, st in res:
                if k == "return" and pl is NONE:
                    empty_ = any(not x[2] and x[1][0].k in ("newlist", "list", "comp", "call") for x in lits(st, "truth")) or any(callee(x[1][0]) == "len" for x in st.facts) or any(x[1][1] is NONE and x[2] for x in lits(st, "is"))
                    ctx.ob("ended", empty_, cn + ":empty", f.where, "ends although a nested trigger has a time", trace(st))
    ctx.floor("round", 4)


def screened(st):
    """None among the collected times was ruled out by a test over all of them"""
    return any(x[0] == "truth" and callee(x[1][0]) in ("any", "all") or x[0] == "in" and x[1][0] is NONE and not x[2] for x in st.facts)


def agreed(st):
    for x in st.facts:
        if x[0] == "eq" and x[2]:
            cs = {callee(y) for y in x[1] if hasattr(y, "k")}
            if {"min", "max"} <= cs or "len" in cs or (x[1][1] is const(1)):
                return True
        if x[0] == "lt" and not x[2]:
            # not (min < max)
            if callee(x[1][0]) == "min" and callee(x[1][1]) == "max":
                return True
            if callee(x[1][1]) == "len" and x[1][0] is const(1) or callee(x[1][1]) == "len":
                return True
        if x[0] == "truth" and x[2] and callee(x[1][0]) == "all":
            return True
        if x[0] == "lt" and x[2] and callee(x[1][0]) == "len":
            return True
    return False


def is_first_sorted(v):
    return v.k == "idx" and callee(v.a[0]) == "sorted" and v.a[1] is const(0)


@prop("C43", "Jitter only ever delays a run, by at most the configured seconds",
      """Jitter adds a random delay between zero and the configured number of seconds to a computed run time: it never makes a run earlier, and
      without jitter the time is unchanged. An exhausted schedule stays exhausted. A trigger applies its own jitter at most once per
      computed run, to the time it has finally chosen.""",
      ["inputs"],
      "every trigger type, every jitter value and every random draw",
      "a wrong bound or sign of a random delay shows only for some draws",
      ["asyncz/triggers/base.py", "asyncz/triggers/interval.py", "asyncz/triggers/cron/trigger.py", "asyncz/triggers/combination.py"],
      [("BaseTrigger.apply_jitter", "asyncz/triggers/base.py"), ("<Trigger>.get_next_trigger_time", "asyncz/triggers/*")],
      "abstract interpretation of the returned expression per path; call-count per path",
      "The expression added to the time is identified on each path; the random source and its bounds are compared with the rule.",
      assumptions=["random.uniform(0, n) and random.random()*n draw between zero and n"])
def c43(ctx):
    p = ctx.proj
    ctx.rule("unchanged", "no jitter or no time -> unchanged")
    ctx.rule("delay", "a non-negative delay up to the jitter is added")
    ctx.rule("once", "applied at most once, with the own jitter")
    for cls in [BT] + p.subclasses(BT):
        f = p.method(cls, "apply_jitter")
        if f is None or (cls != BT and f.cls.qual == BT):
            continue
        ps = params(f)
        TM, J = T("p", ps[0]), T("p", ps[1])
        res, it = run(p, Rec(p, []), f, self_cls=cls)
        ctx.absorb(it)
        moved = 0
        for k, pl, st in res:
            none = is_none_t(st, TM)
            off = falsy(st, J)
            if k != "return":
                ctx.ob("unchanged", False, "apply_jitter:raises", f.where, f"raises {pl.cls}")
                continue
            if none:
                ctx.ob("unchanged", pl in (NONE, TM), "apply_jitter:none", f.where, f"an exhausted schedule yields {show(pl)}", trace(st))
            elif off:
                ctx.ob("unchanged", pl is TM, "apply_jitter:off", f.where, f"without jitter: {show(pl)}", trace(st))
            else:
                moved += 1
                ok, why = delayed(pl, TM, J)
                ctx.ob("delay", ok, "apply_jitter", f.where, f"{show(pl)}: {why}", trace(st))
                ctx.ob("unchanged", none is False or off is False, "apply_jitter:tested", f.where, "a missing time is not tested before the delay is added", trace(st))
                ctx.ob("unchanged", none is False, "apply_jitter:none-tested", f.where, "a missing time is not tested before the delay is added", trace(st))
        ctx.ob("delay", moved > 0, "apply_jitter:any", f.where, "jitter is never applied")
    for cls in p.subclasses(BT):
        f = p.method(cls, "get_next_trigger_time")
        if f is None or not f.module.name.startswith("asyncz.triggers") or f.cls.qual == "asyncz.triggers.types.TriggerType":
            continue
        cn = cls.split(".")[-1]
        cl = Rec(p, [E("jit", "apply_jitter", ret=lambda c, st: [JIT]), E("", "get_next_trigger_time", ret=lambda c, st: [NEXT, NONE])], cap=3, stop={"apply_jitter", "increment_field_value", "set_field_value"})
        res, it = run(p, cl, f, self_cls=cls)
        ctx.absorb(it)
        has = any("jitter" in c.annots or "jitter" in {a.arg for m in c.methods.values() for a in m.node.args.args} for q in p.mro(cls) for c in [p.classes.get(q)] if c is not None and q.startswith("asyncz.triggers") and q not in ("asyncz.triggers.types.TriggerType", BT))
        used = False
        for i in cl.insts:
            if i.label == "jit":
                used = True
                ctx.ob("once", from_attr(i.call.arg(1, "jitter"), "jitter") and is_self(i.call.arg(1, "jitter").a[0]), cn + ":own", i.where, f"jitter is {show(i.call.arg(1, 'jitter'))}")
                a = i.call.arg(0, "next_trigger_time")
                ctx.ob("once", a is None or not contains(a, JIT), cn + ":twice", i.where, "jitter is applied to an already jittered time")
        for k, pl, st in res:
            ctx.ob("once", seq(st).count("jit") <= 1, cn, f.where, "jitter applied more than once", trace(st))
            if k == "return" and pl is not NONE and has:
                J = T("attr", T("self", cls), "jitter")
                ctx.ob("once", "jit" in seq(st) or falsy(st, J) or cls == INTERVAL and not used, cn + ":applied", f.where, f"a run time is returned without the jitter: {show(pl)}", trace(st))
                if "jit" in seq(st):
                    ctx.ob("once", contains(pl, JIT) or pl.k in ("unk", "phi"), cn + ":kept", f.where, f"the jittered time is dropped: {show(pl)}", trace(st))
    ctx.floor("delay", 2)
    ctx.floor("once", 5)


def is_none_t(st, t):
    for x in lits(st, "is"):
        if x[1][0] is t and x[1][1] is NONE:
            return x[2]
    for x in lits(st, "truth"):
        if x[1][0] is t:
            return not x[2]
    return None


def delayed(v, tm, j):
    """v == tm + timedelta(seconds=d), 0 <= d <= j"""
    if not binop(v, "Add") or tm not in v.a[1:]:
        return False, "not the time plus a delay"
    d = [x for x in v.a[1:] if x is not tm]
    if len(d) != 1:
        return False, "not the time plus a delay"
    d = d[0]
    if callee(d) == "timedelta":
        kw = dict(d.a[2])
        if set(kw) != {"seconds"} or d.a[1]:
            return False, "the delay is not in seconds"
        d = kw["seconds"]
    else:
        return False, "the delay is not in seconds"
    c = callee(d)
    if c == "uniform" or c == "triangular":
        lo, hi = (tuple(d.a[1]) + (None, None))[:2]
        if hi is j and lo is not None and lo.k == "const" and isinstance(lo.a[0], (int, float)) and lo.a[0] == 0:
            return True, ""
        if lo is j and hi is not None and hi.k == "const" and hi.a[0] == 0:
            return True, ""
        return False, "the draw is not between 0 and the jitter"
    if c == "randint" and d.a[1] == (const(0), j):
        return True, ""
    if binop(d, "Mult") and j in d.a[1:]:
        o = [x for x in d.a[1:] if x is not j]
        if len(o) == 1 and callee(o[0]) == "random":
            return True, ""
    return False, "the draw is not between 0 and the jitter"


@prop("C44", "A date trigger runs exactly once, a shutdown trigger never by time",
      """A date trigger yields its own date as first run and nothing after any run, however late the clock is. A shutdown trigger never yields a
      run time. Both hold for every clock value, so a one-time task can neither be repeated nor be scheduled at another time.""",
      ["inputs", "histories"],
      "every previous run and current time",
      "a one-shot trigger that depends on the clock behaves correctly in a test that runs promptly",
      ["asyncz/triggers/date.py", "asyncz/triggers/shutdown.py"],
      [("DateTrigger.get_next_trigger_time", "asyncz/triggers/date.py"), ("ShutdownTrigger.get_next_trigger_time", "asyncz/triggers/shutdown.py")],
      "path-sensitive abstract interpretation (decision table)",
      "All paths are interpreted; the result depends on the previous run alone.")
def c44(ctx):
    ctx.rule("once", "date: own date first, then nothing")
    ctx.rule("never", "shutdown: nothing")
    f, cl, res = abs_run(ctx, DATE, prune=False)
    prev, now = names(f)
    got = set()
    for k, pl, st in res:
        none = is_none_t(st, prev)
        want = T("attr", T("self", DATE), "run_at")
        if k != "return":
            ctx.ob("once", False, "DateTrigger:raises", f.where, f"raises {pl.cls}")
            continue
        got.add(none)
        ctx.ob("once", pl is (want if none else NONE) and none is not None, "DateTrigger", f.where, f"{'first run' if none else 'after a run'}: {show(pl)}", trace(st))
        ctx.ob("once", not any(contains(y, now) for x in st.facts for y in x[1] if hasattr(y, "k")), "DateTrigger:clock", f.where, "depends on the clock", trace(st))
    ctx.ob("once", got == {True, False}, "DateTrigger:both", f.where, f"cases found: {got}")
    f, cl, res = abs_run(ctx, SHUT, prune=False)
    for k, pl, st in res:
        ctx.ob("never", k == "return" and pl is NONE, "ShutdownTrigger", f.where, "yields a run time", trace(st))
