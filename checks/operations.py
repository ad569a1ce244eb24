"""C13, C21, C22, C23, C39: what the scheduler's task operations do with the task they are given."""
import ast

from checks.remote import params
from sa.report import prop

from ._common import *  # noqa: F401,F403

B = "asyncz.schedulers.base."
TASK = "asyncz.tasks.base.Task"
UNDEF = T("ref", "asyncz.typing.undefined")
SETTABLE = {"fn", "args", "kwargs", "name", "mistrigger_grace_time", "coalesce", "max_instances", "trigger", "executor", "store_alias", "next_run_time"}
FILE = "asyncz/schedulers/base.py"


def sound(lit_, st, node, fr):
    """the marker for a setting left out is no other value; an id is not itself a task"""
    k, ts, v = lit_
    if k == "is" and v and UNDEF in ts and not (ts[0] is UNDEF and ts[1] is UNDEF):
        return None
    if k == "truth" and callee(ts[0]) == "isinstance" and len(ts[0].a[1]) == 2 and "TaskType" in show(ts[0].a[1][1]):
        x = ts[0].a[1][0]
        if v and x.k == "attr" and x.a[1] == "id" or not v and x is TK:
            return None
    return st


def lit(st, kind, *ts):
    """recorded truth of a literal, either way round for comparisons"""
    for k, us, v in st.facts:
        if k == kind and us == ts:
            return v
    return None


def absent(st, t):
    """is the value known to be None (or falsy)"""
    if t is NONE:
        return True
    v = lit(st, "is", t, NONE)
    if v is not None:
        return v
    v = lit(st, "truth", t)
    return None if v is None else not v


def later(st, t, now):
    """is t known to be later than now: True, False or None"""
    v = lit(st, "lt", now, t)
    if v is not None:
        return v
    v = lit(st, "lt", t, now)
    if v is True:
        return False
    if lit(st, "eq", t, now) or lit(st, "eq", now, t):
        return False
    if v is False and (lit(st, "eq", t, now) is False or lit(st, "eq", now, t) is False):
        return True
    return None


def kws(c):
    """[(name or None for an open mapping, value)] of the keyword arguments, spreads resolved in order"""
    out = []
    for k, v in c.kw:
        out += spread_of(v, c) if k == "**" else [(k, v)]
    return out


def spread_of(t, c):
    """entries of a mapping: (None, value) where the keys are not known"""
    if t.k in ("dict", "newdict"):
        out = [(None, v) for k, v in c.interp.written(t, c.st) if k.k not in ("const", "starstar")]   # only filled in where missing: judged where it is written
        for k, v in c.interp.written(t, c.st):
            out += [(k.a[0], v)] if k.k == "const" else spread_of(v, c) if k.k == "starstar" else []
        return out
    if t.k == "op" and t.a[0] == "BitOr":
        return spread_of(t.a[1], c) + spread_of(t.a[2], c)
    if t.k == "call" and t.a[0].k == "ref" and t.a[0].a[0] == "builtins.dict":
        return [y for x in t.a[1] for y in spread_of(x, c)] + [z for k, v in t.a[2] for z in (spread_of(v, c) if k == "**" else [(k, v)])]
    return [(None, t)]


def last_of(pairs, name):
    """value the mapping finally has under name; (None, False) when unknown"""
    for k, v in reversed(pairs):
        if k == name:
            return v, True
        if k is None:
            return None, False
    return None, True


NX = [T("p", f"T{i}") for i in range(6)]


@prop("C21", "A task's due run times are exactly those its trigger gives up to now",
      """The run times collected for a due task are, in order, its next run time and the times its trigger gives one after the other, each asked for
      with the one before as previous run, as far as they are not later than now; the moment now itself is included and nothing after it is.
      Collecting changes neither the task nor its next run time.""",
      ["inputs", "histories"],
      "every task, trigger and current time, any number of missed runs",
      "how many runs are due depends on the outage before and the trigger; a test shows one or two missed runs of one trigger",
      ["asyncz/tasks/base.py"], [("Task.get_run_times", "asyncz/tasks/base.py")],
      "path-sensitive abstract interpretation of the collecting loop, unrolled, with the trigger's answers symbolic",
      "Each path is compared with the sequence of times it has obtained and the branch facts about them.",
      assumptions=["the trigger's own answers are C40-C44"])
def c21(ctx):
    p = ctx.proj
    ctx.rule("collected", "exactly the times that are not later than now, in order")
    ctx.rule("asked", "the next time is asked from the task's trigger after the last one")
    ctx.rule("complete", "collecting stops only at an exhausted trigger or at a time after now")
    n = 0
    for q in [TASK] + p.subclasses(TASK):
        f = p.method(q, "get_run_times")
        if f is None or q != TASK and f.cls.qual == TASK:
            continue
        names = params(f)
        now, tz = T("p", names[1]), T("p", names[0])
        me = T("self", q)
        first = T("attr", me, "next_run_time")

        class Collect(Rec):
            def at_yield(self, term, st, node, fr):
                k = sum(x.startswith("put") for x in seq(st))
                return self.add(st, f"put{k}:{tag(term)}")

        def tag(t):
            return "0" if t is first else str(NX.index(t)) if t in NX else "?"

        def put(c):
            return "put:" + (tag(c.arg(0)) if c.name == "append" and c.args else "?")
        cl = Collect(p, [E(put, ["append", "insert", "extend", "appendleft"], when=lambda c: c.recv is not None and c.recv.k in ("newlist", "list")),
                         E(lambda c: "ask", ["get_next_trigger_time"], ret=lambda c, st: [NX[min(5, seq(st).count("ask"))]])], cap=4, inline_all=True)
        res, it = run(p, cl, f, self_cls=q, max_states=6000)
        ctx.absorb(it)
        for i in cl.insts:
            if i.label != "ask":
                continue
            c, k = i.call, i.seq.count("ask")
            if k >= 3:
                continue
            want = first if k == 0 else NX[k]
            ctx.ob("asked", c.recv is T("attr", me, "trigger"), f"{q}:trigger", i.where, f"asks {show(c.recv)}")
            ctx.ob("asked", c.arg(1, "previous_time") is want, f"{q}:previous", i.where, f"asks for the time after {show(c.arg(1, 'previous_time')) if c.arg(1, 'previous_time') is not None else 'nothing'}, not after the last one", trace(i.st))
            ctx.ob("asked", c.arg(2, "now") is now and c.arg(0, "timezone") is tz, f"{q}:now", i.where, "the current time or the time zone is not the one given")
        for k, pl, st in res:
            s = seq(st)
            got = [x.split(":")[1] for x in s if x.startswith("put")]
            asks = s.count("ask")
            if k == "raise":
                ctx.ob("collected", absent(st, T("attr", me, "trigger")) is True, f"{q}:raises", f.where, f"collecting raises {pl.cls}", trace(st))
                continue
            n += 1
            ctx.ob("collected", got == [str(x) for x in range(len(got))], f"{q}:order", f.where, f"the times collected are no. {', '.join(got) or 'none'}", trace(st))
            ts = [first] + NX[1:]
            for x in range(min(len(got), 3)):
                ctx.ob("collected", absent(st, ts[x]) is False and later(st, ts[x], now) is False, f"{q}:due", f.where, "a time is collected that may be missing or later than now", trace(st) + [f"{a} {show(b)} {c}" for a, b, c in st.facts])
            if len(got) < 3:
                nxt = ts[len(got)]
                known = asks == len(got)
                ctx.ob("complete", known and (absent(st, nxt) is True or later(st, nxt, now) is True), f"{q}:stop", f.where,
                       f"collecting ends after {len(got)} times although the next one may be due", trace(st) + [f"{a} {show(b)} {c}" for a, b, c in st.facts])
    ctx.ob("complete", n >= 3, "get_run_times", "asyncz/tasks/base.py", "no run times are ever collected")
    ctx.floor("collected", 2)


TK, AL, RUNS, EXECUTOR, STORE = (T("p", x) for x in ("TASK", "ALIAS", "RUNS", "EXECUTOR", "STORE"))
NEXT1 = T("p", "NEXT")


class Op(Rec):
    """operations on a looked-up task"""
    def __init__(self, p, extra=(), **kw):
        super().__init__(p, [
            E("lookup", ["lookup_task"], ret=lambda c, st: [T("tuple", (TK, AL))]),
            E("runs", ["get_run_times"], ret=lambda c, st: [RUNS]),
            E("executor", ["lookup_executor"], ret=lambda c, st: [EXECUTOR]),
            E("store", ["lookup_store"], ret=lambda c, st: [STORE]),
            E("send", ["send_task"], raises=[MAXINST, OTHER], split=True),
            E("next", ["get_next_trigger_time"], ret=lambda c, st: [NEXT1]),
            E("T.update", ["update_task"], when=lambda c: c.recv is TK),
            E("S.update", ["update_task"], when=lambda c: c.recv is STORE),
            E("del", ["delete_task"], when=lambda c: is_self(c.recv) or c.recv is None),
            E("create", ["create_trigger"]), E("ev", ["dispatch_event"]), E("", ["wakeup"])] + list(extra),
            stop={"lookup_task", "lookup_executor", "lookup_store", "delete_task", "dispatch_event", "wakeup", "create_trigger"}, cap=2, **kw)


def is_now(t):
    return t is not None and t.k == "call" and callee(t) == "now"


def same(st, a, b):
    return a is b or lit(st, "eq", a, b) is True or lit(st, "eq", b, a) is True


def last_elem(t, st):
    """(list term) whose last element t is"""
    if t is not None and t.k == "idx" and t.a[1] is const(-1):
        return t.a[0]
    return None


def plus(t, now):
    """t is now plus a positive time span"""
    if t.k == "op" and t.a[0] == "Add":
        for a, b in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            if a is now and b.k in ("call", "new"):
                kw = b.a[2]
                vals = list(b.a[1]) + [v for _, v in kw]
                return bool(vals) and all(v.k == "const" and isinstance(v.a[0], (int, float)) and v.a[0] >= 0 for v in vals) and any(v.a[0] > 0 for v in vals)
    return False


@prop("C22", "A manual run submits once and moves the schedule strictly forward",
      """run_task submits the task at most once, to the task's own executor: for its due run times or, when none is due, for the current moment if
      force is set and not at all otherwise. Unless the run was accepted nothing about the task changes. After an accepted run the task is given
      a next run time later than now, or none, and saved in the store it was found in; it is deleted from that store exactly when its schedule is
      finished and remove_finished is set.""".replace("\n      ", " "),
      ["inputs", "histories"],
      "every task, trigger answer, executor outcome and combination of force and remove_finished",
      "the outcome depends on five independent conditions; tests sample a few combinations on one trigger",
      ["asyncz/schedulers/base.py"], [("BaseScheduler.run_task", "asyncz/schedulers/base.py:run_task")],
      "path-sensitive decision table by abstract interpretation with symbolic due times, trigger answer and executor outcome",
      "Every path of run_task is compared with the decision table of its branch facts; coalescing of the due times is C20, its events C06.")
def c22(ctx):
    p = ctx.proj
    ctx.rule("submit", "one submission of the due times, or of now when forced")
    ctx.rule("unchanged", "a run that is not accepted changes nothing")
    ctx.rule("forward", "the stored next run time is none or later than now")
    ctx.rule("saved", "saved in, or deleted from, the store the task was found in")
    n = 0
    for q in [S] + p.subclasses(S):
        f = p.method(q, "run_task")
        if f is None or q != S and f.cls.qual == S:
            continue
        force, rf = T("p", "force"), T("p", "remove_finished")
        for tid in ("id", "task"):
            cl = Op(p)
            res, it = run(p, cl, f, self_cls=q, max_states=8000)
            ctx.absorb(it)
        for i in cl.insts:
            c = i.call
            if i.label == "executor":
                ctx.ob("submit", c.arg(0) is T("attr", TK, "executor"), "executor", i.where, f"looks up {show(c.arg(0))}")
            elif i.label == "runs":
                ctx.ob("submit", c.recv is TK and is_now(c.arg(1, "now")), "due", i.where, f"due times of {show(c.recv)} at {show(c.arg(1, 'now'))}")
            elif i.label == "send":
                ctx.ob("submit", c.recv is EXECUTOR and c.arg(0, "task") is TK, "send", i.where, f"hands {show(c.arg(0))} to {show(c.recv)}")
                r = c.arg(1, "run_times")
                due = absent(i.st, RUNS)
                if due is False:
                    ctx.ob("submit", r is not None and contains(r, RUNS), "send:times", i.where, f"due times exist but {show(r)} are submitted", trace(i.st))
                elif due is True:
                    ts = list_items(r)
                    ctx.ob("submit", ts is not None and len(ts) == 1 and is_now(ts[0]), "send:now", i.where, f"nothing is due but {show(r)} are submitted", trace(i.st))
                    ctx.ob("submit", lit(i.st, "truth", force) is True, "send:force", i.where, "submits a task that is not due without force", trace(i.st))
                else:
                    ctx.ob("submit", False, "send:undecided", i.where, "submits without looking whether the task is due", trace(i.st))
        for k, pl, st in res:
            s = seq(st)
            w = f.where
            sends = [x for x in s if x.startswith("send")]
            n += 1
            done = "send" in s and not any(x.startswith("send!") for x in s)
            changes = [x for x in s if x in ("T.update", "S.update", "del")]
            if not done:
                ctx.ob("unchanged", not changes, "refused", w, f"{', '.join(changes)} although the run was not accepted", trace(st))
                if sends:
                    ctx.ob("unchanged", k == "raise", "refused:reported", w, "a refused run is not reported to the caller", trace(st))
                elif k == "return":
                    ctx.ob("submit", absent(st, RUNS) is True and lit(st, "truth", force) is False, "skipped", w, "no run is submitted although the task is due or force is set", trace(st))
                continue
            ctx.ob("submit", s.count("send") == 1, "once", w, f"{s.count('send')} submissions", trace(st))
            if k == "raise":
                ctx.ob("saved", False, "raises", w, f"fails with {pl.cls} after the run was accepted", trace(st))
                continue
            fin = absent(st, NEXT1)
            gone = fin is True and lit(st, "truth", rf) is True
            if gone:
                ctx.ob("saved", "del" in s and "S.update" not in s and pl is NONE, "finished", w, f"a finished task is not deleted: {', '.join(changes)}", trace(st))
            else:
                ctx.ob("saved", "del" not in s, "kept", w, "a task is deleted although its schedule is not finished or it is to be kept", trace(st))
                ctx.ob("saved", s.count("T.update") == 1, "moved", w, f"the next run time is set {s.count('T.update')} times", trace(st))
                has = absent(st, AL)
                ctx.ob("saved", (s.count("S.update") == 1 and s.index("S.update") > s.index("T.update") if "S.update" in s and "T.update" in s else has is True) , "saved", w, "the moved task is not saved in its store", trace(st))
                ctx.ob("saved", pl is TK, "result", w, f"returns {show(pl)}", trace(st))
        for i in cl.insts:
            c = i.call
            if i.label == "next":
                prev = last_elem(c.arg(1, "previous_time"), i.st)
                sent = [x.call.arg(1, "run_times") for x in cl.insts if x.label == "send"]
                ok = prev is not None and (prev in sent) or c.arg(1, "previous_time") is not None and any(c.arg(1, "previous_time") is (list_items(r) or [None])[-1] for r in sent)
                ctx.ob("forward", ok and c.recv is T("attr", TK, "trigger"), "next", i.where, f"asks {show(c.recv)} for the time after {show(c.arg(1, 'previous_time')) if c.arg(1, 'previous_time') is not None else None}")
                ctx.ob("forward", is_now(c.arg(2, "now")), "next:now", i.where, "computed from another current time")
            elif i.label == "T.update":
                kv = kws(c)
                v, known = last_of(kv, "next_run_time")
                ctx.ob("forward", known and v is not None and {a for a, _ in kv} <= {"next_run_time", "scheduler"}, "update", i.where, f"changes {sorted(str(a) for a, _ in kv)}")
                if v is None:
                    continue
                nows = [x.call.arg(1, "now") for x in cl.insts if x.label == "runs"]
                good = v is NONE or v is NEXT1 and (absent(i.st, NEXT1) is True or any(later(i.st, NEXT1, t) is True for t in nows)) or any(plus(v, t) for t in nows) or is_max(v, nows)
                ctx.ob("forward", good, "update:later", i.where, f"the next run time {show(v)} may not be later than now", trace(i.st) + [f"{a} {show(b)} {c_}" for a, b, c_ in i.st.facts])
                if v is NONE:
                    ctx.ob("forward", absent(i.st, NEXT1) is True, "update:none", i.where, "the task is paused although its schedule goes on", trace(i.st))
                elif plus_any(v, nows):
                    ctx.ob("forward", absent(i.st, NEXT1) is False, "update:some", i.where, "a finished schedule is given a next run time", trace(i.st))
            elif i.label == "S.update":
                ctx.ob("saved", c.arg(0, "task") is TK, "store:task", i.where, f"stores {show(c.arg(0))}")
            elif i.label == "store":
                ctx.ob("saved", c.arg(0) is AL, "store:alias", i.where, f"looks up the store {show(c.arg(0))}")
            elif i.label == "del":
                a, b = c.arg(0, "task_id"), c.arg(1, "store")
                ctx.ob("saved", a is T("attr", TK, "id") or a is TK or a is not None and not is_self(a) and not contains(a, AL) and contains(a, T("p", "task_id")), "delete:task", i.where, f"deletes {show(a)}")
                ctx.ob("saved", b is AL, "delete:store", i.where, f"deletes from {show(b) if b is not None else 'any store'}")
            elif i.label == "lookup":
                a, b = c.arg(0, "task_id"), c.arg(1, "store_alias")
                isobj = any(k == "truth" and v and callee(ts[0]) == "isinstance" and ts[0].a[1][0] is T("p", "task_id") for k, ts, v in i.st.facts)
                ctx.ob("submit", (a is T("attr", T("p", "task_id"), "id") if isobj else a is T("p", "task_id")) and b is T("p", "store"), "lookup", i.where, f"looks up {show(a)} in {show(b) if b is not None else 'any store'}", trace(i.st))
    ctx.ob("submit", n >= 6, "run_task", FILE, "run_task has too few outcomes to analyse")
    ctx.floor("forward", 4)
    ctx.floor("saved", 4)


def plus_any(v, nows):
    return any(plus(v, t) for t in nows)


def is_max(v, nows):
    """max(NEXT, now + something)"""
    return v.k == "call" and callee(v) == "max" and any(plus(x, t) for x in v.a[1] for t in nows)


def list_items(t):
    if t is None:
        return None
    if t.k in ("list", "tuple"):
        return list(t.a[0])
    return None


class Modify(Op):
    """the task object is reached through the scheduler's own lookup only"""


def isobj(st, t):
    for k, ts, v in st.facts:
        if k == "truth" and callee(ts[0]) == "isinstance" and ts[0].a[1] and ts[0].a[1][0] is t:
            return v
    return None


OPS = ("update_task", "pause_task", "resume_task", "reschedule_task", "delete_task", "run_task")


@prop("C13", "Task operations act on the named task, given by id or as an object",
      """update_task, pause_task, resume_task, reschedule_task, run_task and delete_task accept a task's id or the task itself and act on exactly that task, in
      the store asked for. Updating gives the task exactly the given changes and only attributes a task lets itself be given; pausing takes its next
      run time away and nothing else; resuming sets the next run time its trigger gives from now on, or deletes a finished task; rescheduling sets
      the new trigger together with the next run time that trigger gives from now on.""".replace("\n      ", " "),
      ["inputs", "histories"],
      "every operation, task reference, store filter and trigger answer",
      "every operation has two ways to name the task and several outcomes; the tests use one way each, so the other can be broken for years",
      ["asyncz/schedulers/base.py"], [("BaseScheduler." + m, FILE) for m in OPS],
      "abstract interpretation of every operation with a symbolic task reference; the keyword sets passed on are resolved key by key",
      "The updates reaching Task.update_task are compared with what the caller gave; what Task.update_task accepts is C35, events are C07.")
def c13(ctx):
    p = ctx.proj
    ctx.rule("named", "the task named by the caller is looked up, by its id, in the store asked for")
    ctx.rule("settable", "only attributes a task lets itself be given are passed on, each once")
    ctx.rule("given", "the task gets exactly the changes of the operation")
    ctx.rule("next", "the next run time comes from the right trigger, from now, with no previous run")
    for q in [S] + p.subclasses(S):
        for m in OPS[:4]:
            f = p.method(q, m)
            if f is None or q != S and all(x is None or x.cls.qual == S for x in [p.method(q, n) for n in OPS]):
                continue
            names = params(f)
            ref, sto = T("p", names[0]), T("p", names[1])
            cl = Modify(p)
            cl.assume_hook = sound
            new = T("p", "NEWTRIGGER")
            for e in cl.by_name["create_trigger"]:
                e.ret = lambda c, st: [new]
            res, it = run(p, cl, f, self_cls=q, max_states=8000)
            ctx.absorb(it)
            for i in cl.insts:
                c, o = i.call, isobj(i.st, ref)
                if i.label == "lookup":
                    a, b = c.arg(0, "task_id"), c.arg(1, "store_alias")
                    good = a is T("attr", ref, "id") if o is True else a is ref
                    if "lookup" in i.seq:
                        good = good or a is T("attr", TK, "id")
                    ctx.ob("named", good and o is not None and (b is sto or b is AL and "lookup" in i.seq), m, i.where, f"looks up {show(a)} in {show(b) if b is not None else 'any store'}" + (" without asking whether a task object was given" if o is None else ""), trace(i.st))
                elif i.label == "store":
                    ctx.ob("named", c.arg(0) is AL, f"{m}:store", i.where, f"saves in the store {show(c.arg(0))}")
                elif i.label == "S.update":
                    ctx.ob("named", c.arg(0, "task") is TK, f"{m}:saved", i.where, f"saves {show(c.arg(0))}")
                elif i.label == "T.update":
                    pairs = kws(c)
                    keys = [k for k, v in pairs]
                    kinds_ = "object" if o else "id"
                    opens = [v for k, v in pairs if k is None]
                    extra = T("p", f.node.args.kwarg.arg) if f.node.args.kwarg else None
                    lit_kw = [k for k, v in c.kw if k != "**"]
                    dup = [k for k in lit_kw if any(k in [n for n, _ in spread_of(v, c)] for x, v in c.kw if x == "**")]
                    bad = sorted({k for k in keys if k is not None and k not in SETTABLE | {"scheduler"}} | set(dup))
                    foreign = [v for v in opens if not (m == "update_task" and v is extra)]
                    ctx.ob("settable", not bad and not foreign, f"{m}:{kinds_}", i.where,
                           (f"passes {', '.join(bad)}, which a task refuses or gets twice" if bad else f"passes everything in {show(foreign[0])[:120]}, which may name what a task refuses" if foreign else ""), trace(i.st))
                    sch, _ = last_of(pairs, "scheduler")
                    ctx.ob("given", sch is None or is_self(sch), f"{m}:scheduler", i.where, f"gives the task the scheduler {show(sch) if sch is not None else None}")
                    if m == "update_task":
                        ok = bool(opens) and pairs_after(pairs, extra)
                        ctx.ob("given", ok, f"{m}:{kinds_}:changes", i.where, "the given changes are not passed on, or are overridden", trace(i.st))
                        if not o:
                            ctx.ob("given", not [k for k in keys if k not in (None, "scheduler")], f"{m}:only", i.where, f"changes {keys} as well")
                        else:
                            for k, v in pairs:
                                if k not in (None, "scheduler"):
                                    ctx.ob("given", v is T("attr", ref, k) or v.k == "unk" and v.a[-1] is T("attr", ref, k), f"{m}:own:{k}", i.where, f"{k} is set to {show(v)}, not to the task's own")
                        continue
                    v, known = last_of(pairs, "next_run_time")
                    ctx.ob("given", known and v is not None, f"{m}:{kinds_}:next", i.where, "the next run time is not set", trace(i.st))
                    if v is None:
                        continue
                    if m == "pause_task":
                        ctx.ob("given", v is NONE, f"{m}:none", i.where, f"a paused task has the next run time {show(v)}")
                    else:
                        ctx.ob("given", v is NEXT1, f"{m}:{kinds_}:set", i.where, f"the next run time is {show(v)}")
                        if m == "resume_task":
                            ctx.ob("given", absent(i.st, NEXT1) is not True, f"{m}:some", i.where, "a finished task is resumed", trace(i.st))
                    tv, _ = last_of(pairs, "trigger")
                    if m == "reschedule_task":
                        ctx.ob("given", tv is new, f"{m}:trigger", i.where, f"the trigger is set to {show(tv) if tv is not None else 'nothing'}")
                    if not o:
                        more = {k for k in keys if k not in (None, "scheduler", "next_run_time") and not (k == "trigger" and m == "reschedule_task")}
                        ctx.ob("given", not more, f"{m}:only", i.where, f"changes {sorted(more)} as well")
                elif i.label == "create":
                    ctx.ob("next", c.arg(0) is T("p", "trigger") and c.arg(1) is not None and contains(c.arg(1), T("p", "trigger_args")), f"{m}:create", i.where, f"builds a trigger from {show(c.args)}")
                elif i.label == "next":
                    want = T("attr", TK, "trigger") if m == "resume_task" else new
                    ctx.ob("next", c.recv is want, f"{m}:trigger", i.where, f"asks {show(c.recv)}")
                    ctx.ob("next", c.arg(1, "previous_time") is NONE and is_now(c.arg(2, "now")), f"{m}:from", i.where,
                           f"asks for the run after {show(c.arg(1, 'previous_time')) if c.arg(1, 'previous_time') is not None else None} at {show(c.arg(2, 'now')) if c.arg(2, 'now') is not None else None}")
                elif i.label == "del":
                    a, b = c.arg(0, "task_id"), c.arg(1, "store")
                    ctx.ob("named", a in (T("attr", TK, "id"), TK) or a is ref or a is T("attr", ref, "id"), f"{m}:delete", i.where, f"deletes {show(a)}")
                    ctx.ob("named", b in (AL, sto), f"{m}:delete:store", i.where, f"deletes from {show(b) if b is not None else 'any store'}")
            ret = 0
            for k, pl, st in res:
                s = seq(st)
                if k != "return":
                    ctx.ob("given", pl.cls.split(".")[-1] == "AssertionError" or "Lookup" in pl.cls or isobj(st, ref) is None and pl.cls.endswith("TypeError"), f"{m}:raises", f.where, f"raises {pl.cls}", trace(st))
                    continue
                ret += 1
                fin = absent(st, NEXT1)
                if m == "resume_task" and fin is True:
                    ctx.ob("given", s.count("del") == 1 and "T.update" not in s, f"{m}:finished", f.where, "a finished task is not deleted", trace(st))
                    continue
                ctx.ob("given", "del" not in s and s.count("T.update") == 1, f"{m}:applied", f.where, f"the task is updated {s.count('T.update')} times, deleted {s.count('del')} times", trace(st))
                has = absent(st, AL)
                ctx.ob("named", has is True or s.count("S.update") == 1 and s.index("S.update") > s.index("T.update"), f"{m}:kept", f.where, "the change is not saved in the store the task was found in", trace(st))
                if has is True:
                    ctx.ob("named", "S.update" not in s, f"{m}:unsaved", f.where, "a task of no store is saved", trace(st))
            ctx.ob("given", ret >= 2, m, f.where, f"{m} never succeeds")
        # deleting and running: the reference only
        for m in OPS[4:]:
            f = p.method(q, m)
            if f is None or q != S and f.cls.qual == S:
                continue
            names = params(f)
            ref = T("p", names[0])
            cl = Rec(p, [E("use", ["delete_task", "lookup_task"], when=lambda c: not (is_self(c.recv) and c.name == "delete_task" or c.recv is None and c.name == "delete_task")),
                         E("", ["dispatch_event", "wakeup", "get_run_times", "send_task"])], stop={"lookup_task", "dispatch_event", "wakeup"}, cap=2)
            cl.assume_hook = sound
            res, it = run(p, cl, f, self_cls=q, max_states=6000)
            ctx.absorb(it)
            seen = set()
            for i in cl.insts:
                if i.label != "use":
                    continue
                o, a = isobj(i.st, ref), i.call.arg(0, "task_id")
                if a is None or not contains(a, ref):
                    continue
                seen.add(o)
                ctx.ob("named", o is True and a is T("attr", ref, "id") or o is False and a is ref, m, i.where, f"{'a task object' if o else 'an id'} is used as {show(a)}", trace(i.st))
            ctx.ob("named", {True, False} <= seen, f"{m}:both", f.where, "a task object or an id is not used to find the task")
    ctx.floor("named", 8)
    ctx.floor("settable", 4)
    ctx.floor("next", 3)


def pairs_after(pairs, extra):
    """the caller's changes come last, so that nothing overrides them"""
    seen = False
    for k, v in pairs:
        if k is None and v is extra:
            seen = True
        elif seen and k not in (None, "scheduler"):
            return False
    return seen


OPTIONS = ("args", "kwargs", "id", "name", "mistrigger_grace_time", "coalesce", "max_instances", "next_run_time", "executor", "store")


@prop("C23", "add_task builds the task with exactly the settings it was given",
      """Every setting passed to add_task (arguments, id, name, grace time, coalescing, instance limit, next run time, executor, store) is the setting the
      task is built or updated with, also when it is false, zero or an explicit None; a setting left out is not passed on, takes the scheduler's
      task default if there is one (a trigger allowing late runs lifts the grace time instead), and a task object passed to add_task keeps its own. The trigger is the one given or built from the alias and
      the remaining arguments.""".replace("\n      ", " "),
      ["inputs"],
      "every combination of settings given and left out, for functions and for task objects",
      "ten independent settings, each of which may be absent, None or given; tests give a few of them",
      ["asyncz/schedulers/base.py"], [("BaseScheduler.add_task", FILE)],
      "abstract interpretation of add_task with every setting given and with every setting left out; mappings are resolved key by key",
      "The keyword arguments reaching Task() and Task.update_task() are resolved through literals, spreads and filters and compared with the caller's.",
      assumptions=["explicit None is decided for the grace time and the next run time, the settings for which None means something"])
def c23(ctx):
    p = ctx.proj
    ctx.rule("given", "a given setting reaches the task unchanged")
    ctx.rule("left-out", "a setting left out is not passed on")
    ctx.rule("defaults", "task defaults fill only what was left out")
    ctx.rule("trigger", "the trigger is the given one or built from alias and arguments")
    f = p.method(S, "add_task")
    kwname = f.node.args.kwarg.arg if f.node.args.kwarg else None
    pnames = params(f)
    FN, TRIG, TA = T("p", "FN"), T("p", "TRIG"), T("p", "TA")
    new = T("p", "NEWTRIGGER")
    vals = dict(args=T("p", "ARGS"), kwargs=T("p", "KWARGS"), id=const("the id"), name=const("the name"), mistrigger_grace_time=const(7), coalesce=FALSE, max_instances=const(3),
                next_run_time=const("the time"), store=const("the store"), executor=const("the executor"))
    missing = [n for n in vals if n not in pnames]
    ctx.ob("given", not missing, "add_task:parameters", f.where, f"add_task has no parameter {', '.join(missing)}")

    def base(kind):
        a = {n: NONE for n in pnames}
        a.update(fn_or_task=FN, trigger=TRIG if kind != "absent" else NONE, replace_existing=T("p", "REPLACE"))
        if kwname:
            a[kwname] = TA
        if kind == "absent":
            a.update({n: UNDEF for n in ("mistrigger_grace_time", "coalesce", "max_instances", "next_run_time")})
        else:
            a.update(vals)
            if kind == "none":
                a.update(mistrigger_grace_time=NONE, next_run_time=NONE)
        return {k: v for k, v in a.items() if k in pnames or k == kwname}

    for kind in ("given", "none", "absent"):
        args = base(kind)
        cl = Rec(p, [E("task", ["Task"], ret=lambda c, st: [T("p", "NEWTASK")]), E("trig", ["create_trigger"], ret=lambda c, st: [new]), E("upd", ["update_task"]), E("again", ["add_task"]),
                     E("", ["real_add_task", "dump"]), E("", ["append"])],
                 cap=3, small=300, stop={"real_add_task", "create_trigger"})
        writes = []
        orig = cl.sub_write

        def sub_write(b, key, value, st, node, fr, orig=orig, writes=writes, cl=cl):
            writes.append((b, key, value, cl.pre_write, f"{fr.func.module.rel}:{node.lineno}"))
            return orig(b, key, value, st, node, fr)
        cl.sub_write = sub_write
        cl.assume_hook = sound
        cl.known_dicts = True
        origc = cl.call

        def call(c, st, cl=cl, origc=origc):
            if c.name in ("setdefault", "update") and c.recv is not None and c.recv.k in ("dict", "newdict", "comp"):
                cl.record("set" if c.name == "setdefault" else "merge", "call", st, c.node, c.func, call=c, base=c.recv, stack=c.stack)
            return origc(c, st)
        cl.call = call
        res, it = run(p, cl, f, self_cls=S, args=args, max_states=8000)
        ctx.absorb(it)
        n = {"task": 0, "upd": 0}
        for i in cl.insts:
            c = i.call
            if i.label == "trig":
                ctx.ob("trigger", c.arg(0) is args["trigger"] and c.arg(1) is not None and contains(c.arg(1), TA), f"{kind}:create", i.where, f"builds a trigger from {show(c.args)}")
            if i.label not in n:
                continue
            if i.label == "upd" and c.recv is not FN:
                continue
            n[i.label] += 1
            pairs = kws(c)
            if i.label == "task" and c.args:
                pairs = [("fn", c.args[0])] + pairs
            w = i.where
            who = "task" if i.label == "upd" else "function"
            sch, _ = last_of(pairs, "scheduler")
            ctx.ob("given", sch is not None and is_self(sch), f"{kind}:{who}:scheduler", w, f"the task's scheduler is {show(sch) if sch is not None else 'not set'}")
            if i.label == "task":
                fn, _ = last_of(pairs, "fn")
                ctx.ob("given", fn is FN, f"{kind}:fn", w, f"the task's callable is {show(fn) if fn is not None else 'not set'}")
                tr, _ = last_of(pairs, "trigger")
                ctx.ob("trigger", tr is new or tr is not None and tr is args["trigger"], f"{kind}:{who}", w, f"the task's trigger is {show(tr) if tr is not None else 'not set'}")
            else:
                tr, known = last_of(pairs, "trigger")
                given = args["trigger"] is not NONE and lit(i.st, "truth", TRIG) is not False and lit(i.st, "is", TRIG, NONE) is not True
                ctx.ob("trigger", (tr is new or tr is args["trigger"]) if given else tr is None and known, f"{kind}:{who}", w, f"the task object's trigger is set to {show(tr) if tr is not None else 'nothing'}", trace(i.st))
            for o in OPTIONS:
                key = "store_alias" if o == "store" else o
                v, known = last_of(pairs, key)
                g = args.get(o, NONE)
                isgiven = kind != "absent" and (g is not NONE or o in ("mistrigger_grace_time", "next_run_time"))
                if isgiven:
                    ok = v is not None and (v is g or o in ("args", "kwargs") and contains(v, g) and callee(v) in ("tuple", "list", "dict", "cast", "copy"))
                    if not ok and o in ("args", "kwargs") and (lit(i.st, "is", g, NONE) is True or lit(i.st, "truth", g) is False and i.label == "task"):
                        continue            # on this path the caller gave None, or nothing
                    ctx.ob("given", ok and known, f"{kind}:{who}:{o}", w, f"{o} given, but the task gets {show(v) if v is not None else 'nothing' if known else 'what another mapping says'}", trace(i.st))
                elif i.label == "task" and o in ("args", "kwargs", "id", "name"):
                    ctx.ob("left-out", v is None or v is NONE or v.k in ("tuple", "dict", "newdict", "list") and not (v.a[0] if v.k != "newdict" else ()) or callee(v) in ("tuple", "dict"), f"{kind}:{who}:{o}", w, f"{o} left out, but the task gets {show(v) if v is not None else None}")
                else:
                    opened = not known
                    lenient = o == "mistrigger_grace_time" and v is NONE and any(k == "truth" and x[0].k == "attr" and x[0].a[1].startswith("allow_mistrigger") and t for k, x, t in i.st.facts)
                    ctx.ob("left-out", v is None or lenient, f"{kind}:{who}:{o}", w, f"{o} left out, but the task gets {show(v) if v is not None else None}", trace(i.st))
                    if opened:
                        ctx.ob("defaults", all(k is not None or from_attr(x, "task_defaults") for k, x in pairs), f"{kind}:{who}:{o}:open", w, "settings come from a mapping that is not the task defaults")
            unknown = [x for k, x in pairs if k is None]
            later_known = {k for j, (k, x) in enumerate(pairs) if k is not None and any(kk is None for kk, _ in pairs[:j])}
            if i.label == "task":
                filled = any(x.label == "set" and x.call.arg(1) is not None and from_attr(x.call.arg(1), "task_defaults") for x in cl.insts) or any(from_attr(x, "task_defaults") for x in unknown) \
                    or any(from_attr(x[2], "task_defaults") for x in writes)
                ctx.ob("defaults", filled, f"{kind}:filled", w, "the scheduler's task defaults are not applied")
        for i in cl.insts:
            if i.label == "merge":
                ctx.ob("defaults", not any(from_attr(a, "task_defaults") for a in i.call.args), f"{kind}:override", i.where, "task defaults override the given settings")
        for b, key, value, st, w in writes:
            if from_attr(value, "task_defaults"):
                ctx.ob("defaults", lit(st, "in", key, b) is False, f"{kind}:override", w, "task defaults override the given settings", [f"{a} {show(x)} {v}" for a, x, v in st.facts])
        ctx.ob("given", n["task"] > 0, f"{kind}:function", f.where, "no task is built from a function")
        ctx.ob("given", n["upd"] > 0, f"{kind}:task", f.where, "a task object is not updated")
        for i in cl.insts:
            if i.label == "again":
                ctx.ob("given", i.call.arg(0, "fn_or_task") is T("p", "NEWTASK"), f"{kind}:added", i.where, f"adds {show(i.call.arg(0))}")
                kw = dict(i.call.kw)
                ctx.ob("given", kw.get("replace_existing") is T("p", "REPLACE") and (kw.get("next_run_time") is args["next_run_time"]), f"{kind}:added:settings", i.where, "the replace or start setting is lost")
    ctx.floor("given", 12)
    ctx.floor("left-out", 6)


FIELDS = {"schedule_state": {"schedule_state"}, "executor": {"executor"}, "trigger": {"trigger_alias", "trigger_name"},
          "q": {"id", "name", "callable_name", "callable_reference", "trigger_alias", "trigger_name", "executor", "store_alias", "schedule_state"}}


MAY = {"q": {"trigger_description", "tags"}}
XINFO = T("p", "XINFO")
SORTS = {"id": {"id"}, "name": {"name"}, "next_run_time": {"next_run_time"}, "schedule_state": {"schedule_state"}, "executor": {"executor"}, "store": {"store_alias"}, "trigger": {"trigger_alias", "trigger_name"}}


def present(lit_, st, node, fr):
    k, ts, v = lit_
    if k == "truth" and not v and (ts[0].k == "attr" and infoish(ts[0].a[0]) or ts[0].k == "p" and ts[0].a[0] in FIELDS):
        return None
    if k == "is" and v and NONE in ts:
        return None
    return st


class Filters(Rec):
    def __init__(self, p, names):
        super().__init__(p, [E(self.label, ["append"], when=lambda c: c.recv is not None and c.recv.k == "newlist"), E("", ["get_tasks"]), E("snap", ["snapshot"], ret=lambda c, st: [T("attr", c.recv, "INFO")]),
                             E("sort", ["sorted", "sort"], ret=self.keyed)],
                         cap=3, small=300, stop={"get_tasks", "snapshot"})
        self.names, self.taken, self.left, self.keys, self.want_keys, self.memo, self.loops, self.passed = names, [], [], [], False, {}, set(), []

    def label(self, c):
        return "take:" + ",".join(sorted({r[0] for r in self.rels(c.st)}))

    def keyed(self, c, st):
        """what the sort key gives for an info"""
        key = dict(c.kw).get("key")
        if key is not None and self.want_keys:
            for kind, v, x in self.invoke(c, key, (XINFO,), st):
                self.keys.append((v if kind == "ok" else None, x, f"{c.module.rel}:{c.node.lineno}"))
        return [self.default_term(c)]

    def relates(self, lit_):
        """(filter, info field, value) a literal relates"""
        if lit_ not in self.memo:
            self.memo[lit_] = self.relates_(lit_)
        return self.memo[lit_]

    def relates_(self, lit_):
        k, ts, v = lit_
        if k not in ("eq", "is", "in") or len(ts) != 2:
            return None
        for a, b in ((ts[0], ts[1]), (ts[1], ts[0])):
            f = {x.a[0] for x in subterms(a) if x.k == "p" and x.a[0] in self.names}
            flds = {y.a[1] for y in subterms(b) if y.k == "attr" and y.a[1] != "INFO" and infoish(y.a[0])}
            if len(f) == 1 and len(flds) == 1:
                if k == "in" and a is not ts[0]:
                    return None
                return f.pop(), flds.pop(), v
        return None

    def rels(self, st):
        out = [r for r in (self.relates(x) for x in st.facts) if r]
        # a missing field is compared as the empty text
        blank = {t[0].a[1] for k, t, v in st.facts if k == "truth" and not v and t[0].k == "attr" and infoish(t[0].a[0])}
        for k, ts, v in st.facts:
            if k in ("eq", "in") and len(ts) == 2 and const("") in ts:
                fs = {x.a[0] for t in ts for x in subterms(t) if x.k == "p" and x.a[0] in self.names}
                out += [(f, b, v) for f in fs if len(fs) == 1 for b in blank]
        return out

    def on_elt(self, terms, st, node, fr):
        if len(terms) == 1 and (isinstance(node, ast.Call) or any(g.ifs for g in node.generators)):
            self.taken.append((st, f"{fr.func.module.rel}:{node.lineno}"))
            fs = sorted({r[0] for r in self.rels(st)})
            return self.add(st, "kept:" + ",".join(fs))
        return st

    def on_skip(self, it, st, node, fr):
        self.left.append((st, f"{fr.func.module.rel}:{node.lineno}"))

    def on_loop(self, kind, it, st, node, fr):
        """a loop that appends infos: what an iteration did is judged at its end"""
        if not isinstance(node, (ast.For, ast.While)):
            return st
        locks, s = st.ts or ((), ())
        if "@it" in s and kind in ("iter", "exit", "break"):
            i = len(s) - 1 - s[::-1].index("@it")
            mine = [x for x in s[i:] if x.startswith("take:")]
            if mine:
                self.loops.add(id(node))
            else:
                self.passed.append((id(node), st, f"{fr.func.module.rel}:{node.lineno}"))
            new = tuple(dict.fromkeys("kept:" + x[5:] for x in mine))
            s = s[:i] + tuple(x for x in new if x not in s[:i])
        if kind == "iter":
            s += ("@it",)
        return st.w(ts=(locks, s))

    def leavings(self):
        return self.left + [(st, w) for n, st, w in self.passed if n in self.loops]


def infoish(t):
    return t.k in ("elem", "val", "idx") or t.k == "attr" and t.a[1] == "INFO"


@prop("C39", "Filtered task listings hold exactly the tasks matching every filter",
      """get_task_infos returns the info of every task of the chosen store that satisfies all the filters given (state, executor, trigger alias or class
      name, free text) and of no other; a filter that is absent excludes nothing. The free text is looked for, ignoring case, in the id, name, callable,
      trigger, executor, store and state of each task. The result is ordered by the requested key, reversed when asked to, and an unknown key is refused.""".replace("\n      ", " "),
      ["inputs"],
      "every combination of filters, every task",
      "four filters and ten searched fields combine freely over every task; tests try a handful of combinations",
      ["asyncz/schedulers/base.py"], [("BaseScheduler.get_task_infos", FILE)],
      "path-sensitive analysis of the filter conditions: each kept or dropped element is justified by path facts",
      "Every path through the filters is enumerated per filter; the order inside equal sort keys and the sort keys' contents are not judged.")
def c39(ctx):
    p = ctx.proj
    ctx.rule("only-matching", "an info is kept only when the filter matches it")
    ctx.rule("all-matching", "an info is left out only when no searched field matches")
    ctx.rule("combined", "filters given together all apply")
    ctx.rule("absent", "without filters nothing is left out")
    ctx.rule("sorted", "ordered by the key asked for, reversed when asked to, unknown keys refused")
    f = p.method(S, "get_task_infos")
    pnames = params(f)
    flt = [x for x in FIELDS if x in pnames]
    ctx.ob("only-matching", len(flt) == len(FIELDS), "filters", f.where, "a filter parameter is gone")

    def go(on, sort=None):
        args = {x: (T("p", x) if x in on else NONE) for x in flt}
        cl = Filters(p, set(flt))
        cl.want_keys = sort is not None
        if len(on) > 1:         # whether all apply: on infos that have every field, filters in use
            cl.assume_hook = present
        res, it = run(p, cl, f, self_cls=S, args={**{x: T("p", x) for x in pnames}, **args, **({"sort_by": sort} if sort is not None else {})}, max_states=12000)
        ctx.absorb(it)
        return cl, res
    for x in flt:
        cl, res = go([x])
        kept = cl.taken + [(i.st, i.where) for i in cl.insts if i.label.startswith("take")]
        sites, n = {}, 0
        for st, w in kept:
            if absent(st, T("p", x)) is True or lit(st, "truth", T("p", x)) is False:
                continue
            rs = [r for r in cl.rels(st) if r[0] == x]
            sites.setdefault(w, []).append((any(r[2] and r[1] in FIELDS[x] | MAY.get(x, set()) for r in rs), bool(rs), st))
        for w, got in sites.items():
            if not any(rs for _, rs, _ in got):
                continue            # a place that does not filter by x
            n += 1
            for ok, _, st in got:
                ctx.ob("only-matching", ok, x, w, f"an info is kept although its {x} is not known to match", [f"{a} {show(b)} {c}" for a, b, c in st.facts])
        ctx.ob("only-matching", n > 0, f"{x}:applied", f.where, f"the filter {x} is never applied")
        for st, w in cl.leavings():
            rs = [r for r in cl.rels(st) if r[0] == x]
            miss = FIELDS[x] - {r[1] for r in rs if not r[2]}
            ctx.ob("all-matching", not miss and not any(r[2] for r in rs), x, w, f"an info is left out although {', '.join(sorted(miss)) or x} may match", [f"{a} {show(b)} {c}" for a, b, c in st.facts])
        if x in ("q", "trigger"):
            folded_ = all(lowered(ts) for st, w in kept for k, ts, v in st.facts if cl.relates((k, ts, v)) and not any(y.k == "attr" and y.a[1] == "schedule_state" for t in ts for y in subterms(t)))
            ctx.ob("only-matching", folded_, f"{x}:case", f.where, "the comparison distinguishes upper and lower case")
    cl, res = go(flt)
    ok = False
    for k, pl, st in res:
        ls = {y for z in seq(st) if ":" in z and z.split(":")[0] in ("kept", "take") for y in z.split(":")[1].split(",") if y}
        ok = ok or k == "return" and set(flt) <= ls
    ctx.ob("combined", ok, "filters", f.where, "filters given together are not all applied to one listing")
    cl, res = go([])
    ctx.ob("absent", not cl.leavings() and not cl.taken, "filters", f.where, "infos are left out although no filter was given")
    rev = T("p", "descending")
    for k, pl, st in res:
        if k == "raise":
            ctx.ob("sorted", pl.cls.endswith("ValueError"), "refused", f.where, f"an unknown sort key raises {pl.cls}")
    sorts = [i for i in cl.insts if i.label == "sort"]
    ctx.ob("sorted", bool(sorts), "sorted", f.where, "the listing is not sorted")
    for i in sorts:
        kw = dict(i.call.kw)
        ctx.ob("sorted", kw.get("reverse") is not None and contains(kw["reverse"], rev) and kw["reverse"].k in ("p", "call"), "reverse", i.where, f"reversed by {show(kw['reverse']) if 'reverse' in kw else 'nothing'}")
    for name, flds in SORTS.items():
        cl, res = go([], const(name))
        ok = [1 for k, pl, st in res if k == "return"]
        ctx.ob("sorted", bool(ok) and bool(cl.keys), name, f.where, f"the documented sort key {name} is refused or gives no sort key")
        for v, st, w in cl.keys:
            head = v.a[0][0] if v is not None and v.k == "tuple" and v.a[0] else v
            used = {x.a[1] for x in subterms(head) if x.k == "attr" and x.a[0] is XINFO} if head is not None else set()
            for kk, ts, tv in st.facts:         # a missing value was replaced
                if kk in ("truth", "is") and ts[0].k == "attr" and ts[0].a[0] is XINFO and head is not None and head.k == "const":
                    used.add(ts[0].a[1])
            ctx.ob("sorted", bool(used & flds), f"{name}:key", w, f"sorting by {name} orders by {', '.join(sorted(used)) or show(v) if v is not None else 'nothing'}", trace(st))
    cl, res = go([], const("no such key"))
    ctx.ob("sorted", not [1 for k, pl, st in res if k == "return"], "unknown", f.where, "an unknown sort key is accepted")
    ctx.floor("only-matching", 6)


def lowered(ts):
    """both sides of a comparison were brought to the same case"""
    return all(any(callee(x) in ("lower", "casefold", "upper") for x in subterms(t)) for t in ts)
