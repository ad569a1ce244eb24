"""Dashboard controllers: what the pages and the buttons do to the scheduler, and what they record."""
import ast
import re

from checks._common import *  # noqa: F401,F403
from sa.report import prop

D = "asyncz.contrib.dashboard."
CT = D + "controllers."
READERS = {"get_task", "get_tasks", "get_task_info", "get_task_infos", "get_scheduler_info", "get_scheduler_instance_infos", "lookup_task",
           "lookup_store", "lookup_executor", "preview_task_runs", "running", "is_remote", "create_lock", "create_processing_lock", "check_uwsgi"}
GENERIC = {"start", "shutdown", "pause", "resume", "setup", "wakeup", "asgi"}          # judged only on the scheduler itself
OPS = {"run_task": "run", "pause_task": "pause", "resume_task": "resume", "delete_task": "remove", "add_task": "create", "update_task": "update"}
RAISES = {"run_task": (LOOKUP, MAXINST, OTHER), "pause_task": (LOOKUP, OTHER), "resume_task": (LOOKUP, OTHER), "delete_task": (LOOKUP, OTHER),
          "add_task": (CONFLICT, OTHER), "update_task": (LOOKUP, OTHER)}


def mutators(p):
    """public scheduler methods that are not plain readers"""
    out = set()
    for q in p.classes:
        if q == S or S in p.mro(q) or q.endswith("schedulers.types.SchedulerType"):
            out |= {n for n in p.classes[q].methods if not n.startswith("_")}
    return out - READERS


def is_sched(t):
    """does the value look like the scheduler a controller or a handler was given"""
    if t is None:
        return False
    return t.k == "attr" and t.a[1] == "scheduler" or t.k in ("p", "free") and t.a[0] == "scheduler" or t.k == "cell" and "scheduler" in show(t)


def controllers(p):
    """classes that answer requests: {class: {http method: Func}}"""
    out = {}
    for q, k in sorted(p.classes.items()):
        if not q.startswith(D):
            continue
        ms = {}
        for c in p.mro(q):
            kk = p.classes.get(c)
            for m in ("get", "post", "put", "patch", "delete", "head", "options"):
                if kk and m in kk.methods and "request" in [a.arg for a in kk.methods[m].node.args.args]:
                    ms.setdefault(m, kk.methods[m])
        if ms:
            out[q] = ms
    return out


def short(q):
    return q.split(".")[-1]


@prop("C58", "Viewing or previewing in the dashboard never changes the scheduler",
      """Handling a GET request of the dashboard never adds, changes, runs, pauses, resumes, removes or reschedules a task and never starts,
      stops or reconfigures the scheduler. Posting an edit changes the task only when the intent is apply, the input is valid and something differs;
      a preview, an invalid edit and an edit without difference leave it as it was.""",
      ["inputs"],
      "every GET handler of every dashboard page and everything it calls, every form of the edit page",
      "a forgotten branch mutates on a plain page view, e.g. one made by a crawler or a prefetching browser; tests look at the rendered page",
      [CT.replace(".", "/") + "tasks.py", CT.replace(".", "/") + "_helpers.py"],
      [("get handlers", CT.replace(".", "/") + "tasks.py"), ("TaskEditController.post", CT.replace(".", "/") + "tasks.py")],
      "interprocedural path analysis of every request handler: no scheduler-changing call is reachable from a GET, and the edit's call is dominated by the apply facts",
      "Calls are recognised by the scheduler's own method names, read from its classes; a name in the fixed list of readers is not a change.")
def c58(ctx):
    p = ctx.proj
    ctx.rule("get-reads", "no scheduler-changing call is reachable from a GET handler")
    ctx.rule("apply-only", "an edit reaches the scheduler only when applied, valid and different")
    muts = mutators(p)
    ctx.need({"add_task", "update_task", "delete_task"} <= muts, "scheduler methods not found")
    for q, ms in controllers(p).items():
        for m, f in ms.items():
            if m in ("post", "put", "patch", "delete"):
                continue
            cl = Rec(p, [E(lambda c: "change:" + c.name, sorted(muts), when=lambda c: c.name not in GENERIC or is_sched(c.recv))], cap=1, small=0)
            cl.merge_by_ts = True
            res, it = run(p, cl, f, self_cls=q, max_states=3000)
            ctx.absorb(it)
            bad = [i for i in cl.insts]
            ctx.ob("get-reads", not bad, f"{short(q)}.{m}", bad[0].where if bad else f.where, f"{bad[0].label} is reachable from a GET" if bad else "", [i.label for i in bad])
    edits = [(q, ms["post"]) for q, ms in controllers(p).items() if "post" in ms and reaches(p, q, ms["post"], "update_task")]
    for q, f in edits:
        cl = Actions(p)
        res, it = run(p, cl, f, self_cls=q, max_states=6000)
        ctx.absorb(it)
        for i in cl.insts:
            if i.label == "" and i.call.name == "update_task":
                b = i.call.recv
                ctx.ob("apply-only", fresh(b) or "~apply" in i.seq, f"{short(q)}:copy", i.where, f"the proposal is made on {show(b)}, not on a copy of the task")
            if i.label != "op:update_task":
                continue
            sq = i.seq
            ctx.ob("apply-only", "~apply" in sq, f"{short(q)}:intent", i.where, "the task is changed although the intent is not known to be apply", facts(i.st))
            ctx.ob("apply-only", "~differs" in sq, f"{short(q)}:diff", i.where, "the task is changed although no difference is known", facts(i.st))
            ctx.ob("apply-only", "~valid" in sq, f"{short(q)}:errors", i.where, "the task is changed although the input is not known to be valid", facts(i.st))
    ctx.floor("get-reads", 12)
    ctx.floor("apply-only", 3)


def fresh(t):
    """a copy or a new object, not the scheduler's own"""
    if t is None:
        return False
    if t.k == "phi":
        return all(fresh(x) for x in t.a[0])
    if t.k == "new":
        return True
    return t.k == "call" and (t.a[0].k == "attr" and t.a[0].a[1] in ("model_copy", "copy", "__copy__", "deepcopy") or t.a[0].k == "ref" and t.a[0].a[0] in ("copy.copy", "copy.deepcopy")) or t.k == "copyof"


def facts(st):
    return [f"{k} {' ; '.join(show(x) for x in ts)} {v}" for k, ts, v in st.facts]


def reaches(p, q, f, *names):
    cl = Rec(p, [E("op", list(names), when=lambda c: is_sched(c.recv))], cap=1, small=0)
    cl.merge_by_ts = True
    run(p, cl, f, self_cls=q, max_states=3000)
    return bool(cl.insts)


class Actions(Rec):
    """operations on the scheduler and audit records, per path and per loop iteration"""
    def __init__(self, p, others=True):
        ops = [E("op:" + n, [n], when=lambda c: is_sched(c.recv), raises=[x for x in RAISES[n] if others or x is not OTHER], split=True) for n in OPS]
        look = E("", ["lookup_task"], when=lambda c: is_sched(c.recv), raises=(LOOKUP,))
        aud = E(self.audit, ["append"], when=lambda c: c.recv is not None and any(k == "action" for k, _ in c.kw) and any(k == "status" for k, _ in c.kw))
        rec = E(self.audit, ["record_audit_event"])
        parse = E("", ["loads", "parse_trigger_config", "parse_trigger", "import_callable"], raises=("builtins.ValueError",))
        bad = E("~bad", ["append"], when=lambda c: c.recv is not None and c.recv.k in ("newlist", "idx"))
        own = E("", ["update_task"], when=lambda c: not is_sched(c.recv), raises=(OTHER,))
        super().__init__(p, ops + [look, own, parse, aud, rec, bad, E("page", ["render_table", "_render", "_redirect", "get_context_data"])], cap=2)
        self.rel.names = set(OPS) | {"record_audit_event", "get_audit_storage"}
        self.iter_rel = True
        self.iter_events = frozenset(OPS)
        self.merge_by_ts = True
        self.assume_hook = self.learn

    def inline(self, f, c):
        if f.name in ("render_table", "get_context_data", "add_message", "_render", "_redirect"):
            return False
        return self.rel.relevant(f) or f.cls is not None and self.rel.is_part(f) or self.rel.is_small(f) and not any(isinstance(n, (ast.Try, ast.Raise)) for n in ast.walk(f.node))

    def audit(self, c):
        s = c.arg(1 if c.name == "append" else 99, "status")
        s = const("succeeded") if s is None else s
        return "audit:" + (str(s.a[0]) if s.k == "const" else "?")

    def learn(self, lit, st, node, fr):
        kind, ts, val = lit
        if kind == "eq" and val and const("apply") in ts:
            return self.add(st, "~apply")
        t = ts[0]
        if kind == "truth" and val and any(x.k == "comp" and x.a[0] == "dict" for x in subterms(t)) or kind == "lt" and val and t is const(0) and any(x.k == "comp" and x.a[0] == "dict" for x in subterms(ts[1])):
            return self.add(st, "~differs")
        if kind == "truth" and (t.k == "newlist" or t.k == "idx" and t.a[0].k == "call" and t.a[0].a[0].k != "attr" or t.k == "call" and t.a[0].k in ("ref", "func") and not t.a[0].a[0].startswith("builtins.")):
            return self.add(st, "~bad" if val else "~valid")
        return st


def deeds(labels):
    return [x for x in labels if x.startswith(("op:", "audit:"))]


@prop("C59", "The dashboard's audit trail tells the truth about every attempted action",
      """Each create, update, run, pause, resume or remove attempted through the dashboard leaves exactly one audit record, for that action and that
      task: succeeded only after the scheduler performed it, warning or failed when the scheduler refused it (unknown task, too many running
      instances, an invalid or conflicting task).""",
      ["inputs", "histories"],
      "every post handler, every path through it, every refusal the scheduler declares",
      "the record and the operation are two steps: recording first, in a finally, or only on success passes any test that checks one outcome",
      [CT.replace(".", "/") + "tasks.py", D.replace(".", "/") + "audit.py"],
      [("post handlers", CT.replace(".", "/") + "tasks.py"), ("_audit_task_action", CT.replace(".", "/") + "tasks.py"), ("record_audit_event", D.replace(".", "/") + "audit.py")],
      "typestate of every path (per iteration in the bulk loops): operation outcome, then exactly one record of the matching status",
      """The refusals modelled are TaskLookupError and MaximumInstancesError for the task actions, and any exception for create and update; a store failure
      during run, pause, resume or remove propagates, and is only required not to be recorded as a success.""")
def c59(ctx):
    p = ctx.proj
    ctx.rule("outcome", "after the operation exactly one record follows, and its status is the operation's outcome")
    ctx.rule("no-claim", "no success is recorded unless the operation was performed on that path")
    ctx.rule("subject", "the record names the task the operation was applied to")
    ctx.rule("action", "the record names the operation that was attempted")
    for q, ms in controllers(p).items():
        for m, f in ms.items():
            if m == "get" or not reaches(p, q, f, *OPS):
                continue
            nm = short(q)
            cl = Actions(p)
            res, it = run(p, cl, f, self_cls=q, max_states=6000)
            ctx.absorb(it)
            used = {i.label[3:] for i in cl.insts if i.label.startswith("op:")}
            ends = [(k, seq(st), st, f"{f.where}") for k, pl, st in res if "@iter" not in seq(st) or k == "raise"]
            ends += [("iter", seq(st), st, f"{fn.module.rel}:{node.lineno}") for itb, st, node, fn in cl.iters]
            for kind, s, st, w in ends:
                judge(ctx, nm, kind, deeds(s), w, st)
                if kind == "raise" and not any(x.startswith("op:") for x in s) and used & {"add_task", "update_task"}:
                    ctx.ob("outcome", len(deeds(s)) == 1 and deeds(s)[0] in ("audit:failed", "audit:warning"), f"{nm}:invalid", w, "an attempt with invalid input ends without a record", trace(st))
            for i in cl.insts:
                if not i.label.startswith("audit:"):
                    continue
                act = i.call.arg(0, "action")
                txt = flat(act)
                done = [x for x in deeds(i.seq) if x.startswith("op:")]
                want = {OPS[x[3:].split("!")[0]] for x in done} or {OPS[u] for u in used}
                ctx.ob("action", txt is not None and txt.split(".")[-1] in want, f"{nm}:{txt}", i.where, f"recorded as {txt}, attempted was {sorted(want)}")
                tgt = i.call.arg(99, "target_id")
                ops = [j for j in cl.insts if j.label.startswith("op:")]
                ids = {subject(j.call) for j in ops}
                ctx.ob("subject", tgt is not None and names_task(tgt, ids, [j.call for j in ops]), f"{nm}:{txt}", i.where, f"recorded for {show(tgt) if tgt is not None else None}, the operation is on {sorted(show(x) for x in ids if x is not None)}")
    audits(ctx)
    ctx.floor("outcome", 20)
    ctx.floor("subject", 12)


def judge(ctx, nm, kind, s, w, st):
    for x in (x for x in s if x == "audit:succeeded"):
        ctx.ob("no-claim", any(y.startswith("op:") and "!" not in y for y in s[:s.index(x)]), nm, w, "a success is recorded although the operation was not performed", trace(st))
    for n, x in enumerate(s):
        if not x.startswith("op:"):
            continue
        name, _, fail = x[3:].partition("!")
        rest = s[n + 1:]
        if any(y.startswith("op:") for y in rest):
            continue
        aud = [y[6:] for y in s if y.startswith("audit:")]
        late = [y[6:] for y in rest if y.startswith("audit:")]
        if not fail:
            ctx.ob("outcome", aud == ["succeeded"] and late == aud, f"{nm}:{x}", w, f"after a performed operation the records are {aud or 'none'}", trace(st))
        elif fail == "Error" and name not in ("add_task", "update_task"):
            ctx.ob("outcome", "succeeded" not in aud, f"{nm}:{x}", w, "a success is recorded although the operation failed", trace(st))
        else:
            ctx.ob("outcome", len(aud) == 1 and late == aud and aud[0] in ("failed", "warning"), f"{nm}:{x}", w, f"after a refused operation the records are {aud or 'none'}", trace(st))


def flat(t):
    """string constant a term folds to"""
    if t is None:
        return None
    if t.k == "const" and isinstance(t.a[0], str):
        return t.a[0]
    if t.k == "fstr":
        xs = [flat(x) for x in t.a[0]]
        return None if None in xs else "".join(xs)
    if t.k == "op" and t.a[0] == "Add":
        xs = [flat(x) for x in t.a[1:3]]
        return None if None in xs else "".join(xs)
    return None


def subject(c):
    return None if c.name == "add_task" else c.arg(0, "task_id")


def names_task(t, ids, calls):
    if t in ids:
        return True
    if t.k == "phi":
        return all(names_task(x, ids, calls) for x in t.a[0])
    if any(c.name == "add_task" for c in calls):      # a created task is named by its id, a refused creation by its callable
        return t.k == "attr" and t.a[1] == "id" and t.a[0].k == "call" and t.a[0].a[0].k == "attr" and t.a[0].a[0].a[1] == "add_task" or t.k == "const" and not t.a[0] or contains(t, const("callable_path"))
    return False


def audits(ctx):
    """what is handed to the recorder arrives unchanged in the record"""
    p = ctx.proj
    f = p.functions.get(D + "audit.record_audit_event")
    ctx.need(f is not None, "record_audit_event not found")
    cl = Rec(p, [E("append", ["append"], when=lambda c: any(k in ("action", "status") for k, _ in c.kw))], cap=2)
    res, it = run(p, cl, f)
    ctx.absorb(it)
    ctx.rule("recorded", "a record carries the action, status, target and message it was asked to")
    for kind, pl, st in res:
        if kind == "return":
            ctx.ob("recorded", seq(st).count("append") == 1, "record_audit_event", f.where, f"{seq(st).count('append')} records appended", trace(st))
    for i in cl.insts:
        for n in ("action", "status", "target_id", "message", "target_type", "actor", "details"):
            v = i.call.arg(99, n)
            ctx.ob("recorded", v is T("p", n), "record_audit_event:" + n, i.where, f"{n} is {show(v) if v is not None else 'missing'}")
    for q in sorted(p.classes):
        k = p.classes[q]
        if q.startswith(D + "audit.") and "append" in k.methods:
            f = k.methods["append"]
            cl = Rec(p, [E("record", ["AuditRecord"])], cap=2, inline_all=True)
            res, it = run(p, cl, f, self_cls=q)
            ctx.absorb(it)
            for i in cl.insts:
                for n in ("action", "status", "target_id", "message"):
                    v = i.call.arg(99, n)
                    ctx.ob("recorded", v is T("p", n), f"{short(q)}:{n}", i.where, f"{n} is {show(v) if v is not None else 'missing'}")
    ctx.floor("recorded", 12)


class Where(str):
    """a line, told apart from other constructs on the same line"""
    def __new__(cls, text, col=0):
        me = super().__new__(cls, text)
        me.col = col
        return me

    def __eq__(self, o):
        return str(self) == str(o) and self.col == getattr(o, "col", self.col)

    def __hash__(self):
        return hash(str(self))


def routes(p, qual, closure_env=None):
    """[(list of routes, [(path, handler term, methods term, where)])] built by an app factory: one entry per route list"""
    cl = Rec(p, [E("route", ["RoutePath", "Path"], when=lambda c: bool(c.args or c.kw))], cap=1, seq=False, small=0)
    cl.merge_by_ts = True
    res, it = run(p, cl, qual)
    got = {}
    for i in cl.insts:
        path, h = flat(i.call.arg(0, "path")), i.call.arg(1, "handler")
        if path is not None and h is not None:
            got.setdefault((i.where, getattr(i.node, "col_offset", 0)), (path, h, i.call.arg(99, "methods"), Where(i.where, getattr(i.node, "col_offset", 0)), flat(i.call.arg(99, "name"))))
    lists = []
    for kind, pl, st in res:
        for x in subterms(pl) if kind == "return" and hasattr(pl, "k") else ():
            if x.k == "list":
                lists.append([y for y in x.a[0] if y.k == "new" and short(y.a[0]) in ("RoutePath", "Path") and y.a[1]])
    return list(got.values()), lists, it


def controller_of(p, h):
    """controller class a route's handler term stands for"""
    for x in subterms(h):
        if x.k == "ref":
            q = x.a[0]
            while q:
                if q in p.classes:
                    return q
                q = q.rpartition(".")[0]
    return None


VERBS = {"run": "run_task", "pause": "pause_task", "resume": "resume_task", "remove": "delete_task", "create": "add_task", "edit": "update_task"}


def seg_match(a, b):
    """could a request path written by pattern b be answered by pattern a"""
    xs, ys = a.strip("/").split("/"), b.strip("/").split("/")
    if len(xs) != len(ys):
        return False
    return all(x == y or x.startswith("{") for x, y in zip(xs, ys))


@prop("C54", "Each task route of the dashboard does what its path says, to exactly its tasks",
      """The run, pause, resume, remove, create and edit routes of the dashboard perform that operation and no other on the scheduler. A single-task
      route acts on the task its path names; a bulk route acts once on every distinct id of the form, and an id that is refused does not keep the
      others from being handled.""",
      ["inputs"],
      "every task route, every set of ids in a bulk request, every refusal of any of them",
      "twelve near-identical handlers: a copy-and-paste slip calls the neighbour's operation, a misplaced return stops after the first refused id",
      [CT.replace(".", "/") + "tasks.py", D.replace(".", "/") + "application.py", CT.replace(".", "/") + "_helpers.py"],
      [("create_dashboard_app", D.replace(".", "/") + "application.py"), ("Task*Controller.post", CT.replace(".", "/") + "tasks.py"), ("parse_ids_from_request_form", CT.replace(".", "/") + "_helpers.py")],
      "route table folded from the app factory, joined with path analysis of each handler (per-iteration typestate in bulk loops)",
      "How the form spells a list of ids is not judged, only that each distinct one is acted on once.")
def c54(ctx):
    p = ctx.proj
    ctx.rule("route-op", "the handler of a task route performs the operation the path names and no other")
    ctx.rule("subject", "the operation is applied to the task of the path, or to the id of the iteration")
    ctx.rule("every-id", "a refused id ends neither the loop nor the request, and the ids are distinct")
    ctx.rule("reachable", "no route is hidden behind an earlier pattern that also matches it")
    table, lists, it = routes(p, D + "application.create_dashboard_app")
    ctx.absorb(it)
    seen = 0
    for path, h, methods, where, name in table:
        verb = path.strip("/").split("/")[-1]
        if verb not in VERBS:
            continue
        q = controller_of(p, h)
        ms = controllers(p).get(q, {})
        if not ctx.ob("route-op", "post" in ms, f"{path}:post", where, f"{path} has no post handler"):
            continue
        seen += 1
        f = ms["post"]
        cl = Actions(p)
        cl.keep_break = True
        params = re.findall(r"{(\w+)", path)
        res, it = run(p, cl, f, self_cls=q, max_states=6000)
        ctx.absorb(it)
        ops = [i for i in cl.insts if i.label.startswith("op:")]
        ctx.ob("route-op", {i.label[3:] for i in ops} == {VERBS[verb]}, path, f.where, f"{path} performs {sorted({i.label[3:] for i in ops}) or 'nothing'}")
        bulk = "{" not in path and verb != "create"
        for i in ops:
            t = subject(i.call)
            if i.call.name == "add_task":
                continue
            if bulk:
                ok = t is not None and t.k == "elem" and i.seq.count("@iter") == 1 and from_form(t)
                ctx.ob("subject", ok, f"{path}:id", i.where, f"acts on {show(t) if t is not None else None}")
                ctx.ob("subject", not any(x.startswith("op:") for x in i.seq), f"{path}:once", i.where, "acts twice on one id", list(i.seq))
                ctx.ob("every-id", distinct(p, t.a[0] if t is not None and t.k == "elem" else None), f"{path}:distinct", i.where, "the ids handed to the loop may repeat")
            else:
                ok = t is not None and any(x.k == "attr" and x.a[1] == "path_params" for x in subterms(t)) and any(contains(t, const(x)) for x in params)
                ctx.ob("subject", ok, f"{path}:id", i.where, f"acts on {show(t) if t is not None else None}")
        if bulk:
            for itb, st, node, fn in cl.iters:
                done = [x for x in seq(st) if x.startswith("op:")]
                ctx.ob("every-id", len(done) == 1, f"{path}:each", f"{fn.module.rel}:{node.lineno}", f"an id is acted on {len(done)} times", trace(st))
            for kind, pl, st in res:
                s = seq(st)
                if "@iter" in s:
                    ctx.ob("every-id", kind == "raise" and any(x.endswith("!Error") for x in s), f"{path}:stop", f.where, "the request ends inside the loop, the remaining ids are not handled", trace(st))
                elif kind == "raise":
                    ctx.ob("every-id", False, f"{path}:raise", f.where, "a refusal escapes", trace(st))
        else:
            for kind, pl, st in res:
                refused = [x for x in seq(st) if x.startswith("op:") and "!" in x and not x.endswith("!Error")]
                if refused:
                    ctx.ob("route-op", kind == "return", f"{path}:refused", f.where, f"a refusal ({refused[0][3:]}) is not answered", trace(st))
                ctx.ob("route-op", len([x for x in seq(st) if x.startswith("op:")]) <= 1, f"{path}:once", f.where, "the operation is performed more than once", trace(st))
    for ls in lists:
        for n, b in enumerate(ls):
            pb = flat(b.a[1][0])
            hid = [flat(a.a[1][0]) for a in ls[:n] if pb and flat(a.a[1][0]) and seg_match(flat(a.a[1][0]), pb)]
            ctx.ob("reachable", not hid, f"{pb}", D, f"{pb} is hidden behind {hid}")
    ctx.need(seen >= 8 or ctx.violations, "task routes not found")
    ctx.floor("subject", 8)
    ctx.floor("every-id", 8)


def from_form(t):
    return "form" in show(t, 12)


def distinct(p, coll):
    """is the iterated collection free of duplicates (a set, a dict view, or the result of a de-duplicating helper)"""
    if coll is None:
        return False
    for x in subterms(coll):
        if x.k == "call" and x.a[0].k == "ref" and x.a[0].a[0] in ("builtins.set", "builtins.frozenset", "builtins.dict.fromkeys"):
            return True
        if x.k == "call" and x.a[0].k == "attr" and x.a[0].a[1] == "fromkeys":
            return True
        f = p.functions.get(x.a[0].a[0]) if x.k == "call" and x.a[0].k in ("ref", "func") else None
        if f is not None and (tail_of(p, f) or fills_once(p, f)):
            return True
    return False


def fills_once(p, f):
    """on every path an item is put into the returned list only when it is known to be missing from the list, or from a collection it is also put into"""
    pairs: dict = {}

    def name(kind, v, box):
        return f"{kind}{pairs.setdefault((v, box), len(pairs))}"

    def hook(lit, st, node, fr):
        kind, ts, val = lit
        return cl.add(st, name("new", *ts)) if kind == "in" and not val else st
    cl = Rec(p, [E(lambda c: name("put", c.args[-1], c.recv), ["append", "add", "insert"], when=lambda c: c.recv is not None and len(c.args) > 0)], cap=2)
    cl.assume_hook = hook
    res, it = run(p, cl, f, self_cls=f.cls.qual if f.cls else None, max_states=4000)
    puts = [(i.call.recv, i.call.args[-1], seq(i.st)) for i in cl.insts if i.call is not None]
    ends = [pl for k, pl, _ in res if k == "return"]
    boxes = {y for pl in ends for y in subterms(pl) if y.k == "newlist"}
    if not puts or not ends or not all(pl.k == "newlist" or pl.k in ("list", "tuple") and len(pl.a[0]) <= 1 or boxes & set(subterms(pl)) for pl in ends):
        return False
    for box, v, s in puts:
        if box in boxes:
            # found missing (from the list, or from a collection it is put into as well) once more than it was put in so far
            done = s.count(name("put", v, box))
            tests = [(m, s.count(name("new", w, m))) for (w, m) in list(pairs) if w is v]
            if not any((n > done or n == 2) and (m is box or any(b is m and w is v for b, w, _ in puts)) for m, n in tests):
                return False
    return any(b in boxes for b, _, _ in puts)


def tail_of(p, f, depth=0):
    """the returned list is filled only where membership in a maintained seen-collection was tested false, or is a set / dict.fromkeys copy"""
    rets = [n.value for n in ast.walk(f.node) if isinstance(n, ast.Return) and n.value is not None]
    return bool(rets) and depth < 4 and all(unique_expr(p, f, r, depth) for r in rets)


def kept(f, box, name):
    """is the seen-collection the result itself, or added to"""
    if box is None or box == name:
        return True
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == box and n.func.attr in ("add", "append", "update", "extend", "setdefault"):
            return True
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == box:
            return True
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == box:
            return True
    return False


def unique_expr(p, f, e, depth=0):
    if isinstance(e, (ast.Set, ast.SetComp)):
        return True
    if isinstance(e, (ast.List, ast.Tuple)) and len(e.elts) <= 1 and not any(isinstance(x, ast.Starred) for x in e.elts):
        return True
    if isinstance(e, (ast.List, ast.Tuple)) and len(e.elts) == 1:
        return unique_expr(p, f, e.elts[0].value, depth)
    if isinstance(e, ast.IfExp):
        return unique_expr(p, f, e.body, depth) and unique_expr(p, f, e.orelse, depth)
    if isinstance(e, ast.Call):
        nm = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else ""
        if nm in ("set", "frozenset", "fromkeys"):
            return True
        if nm in ("list", "tuple", "sorted", "keys", "copy") and (e.args or isinstance(e.func, ast.Attribute)):
            return unique_expr(p, f, e.args[0] if e.args else e.func.value, depth)
        g = [h for h in p.functions.values() if h.name == nm and h.module is f.module] if depth < 3 else []
        if g:
            return all(tail_of(p, h, depth + 1) for h in g)
    if isinstance(e, ast.ListComp):
        gs = [guards(c) for g in e.generators for c in g.ifs]
        return unique_expr(p, f, e.generators[0].iter, depth) and isinstance(e.elt, ast.Name) or any(g and kept(f, g, None) for g in gs)
    if isinstance(e, ast.DictComp) or isinstance(e, ast.Dict) and not e.keys:
        return True
    if isinstance(e, ast.Name) and depth < 3:
        ok, found = True, False
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Assign, ast.AnnAssign)):
                tg = n.targets[0] if isinstance(n, ast.Assign) else n.target
                if isinstance(tg, ast.Name) and tg.id == e.id and n.value is not None:
                    found = True
                    ok = ok and (isinstance(n.value, ast.List) and not n.value.elts or unique_expr(p, f, n.value, depth + 1) or isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == "list" and not n.value.args)
        adds = [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == e.id]
        for a in adds:
            if a.func.attr in ("setdefault", "add"):
                continue
            g = guarded_by(f.node, a)
            ok = ok and a.func.attr == "append" and bool(g) and kept(f, g, e.id)
        return ok and found
    return False


def boxname(e):
    return e.id if isinstance(e, ast.Name) else "?" if e is not None else None


def guards(c):
    """the collection a test finds the item missing from"""
    if isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.ops[0], ast.NotIn):
        return boxname(c.comparators[0])
    if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not):
        return member(c.operand)
    if isinstance(c, ast.BoolOp) and isinstance(c.op, ast.And):
        return next((g for g in map(guards, c.values) if g), None)
    return None


def member(c):
    """the collection a test finds the item in (when false: missing from)"""
    if isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.ops[0], ast.In):
        return boxname(c.comparators[0])
    if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not):
        return guards(c.operand)
    if isinstance(c, ast.BoolOp) and isinstance(c.op, ast.Or):
        return next((g for g in map(member, c.values) if g), None)
    return None


def guarded_by(root, call):
    """the collection tested: the call is inside an `if x not in seen`, or after an `if x in seen: continue` of the same block"""
    def walk(body, safe):
        for s in body:
            if any(n is call for n in ast.walk(s)):
                if isinstance(s, ast.If):
                    if any(n is call for b in s.body for n in ast.walk(b)):
                        return walk(s.body, guards(s.test) or safe)
                    return walk(s.orelse, member(s.test) or safe)
                for name in ("body", "orelse", "finalbody"):
                    sub = getattr(s, name, None)
                    if isinstance(sub, list) and any(n is call for b in sub for n in ast.walk(b)):
                        return walk(sub, safe)
                for h in getattr(s, "handlers", []):
                    if any(n is call for n in ast.walk(h)):
                        return walk(h.body, safe)
                return safe
            if isinstance(s, ast.If) and s.body and isinstance(s.body[-1], (ast.Continue, ast.Return)):
                safe = member(s.test) or safe
        return safe
    return walk(root.body, None)
