"""Task stores: contract per backend, due index, restore, encryption, envelope, file containment, shutdown."""
import ast

from sa.report import prop

from ._common import *
from .lifecycle import concrete_methods  # noqa: F401

BS = "asyncz.stores.base.BaseStore"
F = ["asyncz/stores/base.py", "asyncz/stores/memory.py", "asyncz/stores/file.py", "asyncz/stores/redis.py", "asyncz/stores/mongo.py", "asyncz/stores/sqlalchemy.py"]
NEWTASK = T("new", "asyncz.tasks.base.Task", (), (), ("model", 0, 0))
R1, R0 = T("new", "model.Matched", (), (), ("model", 1, 0)), T("new", "model.Unmatched", (), (), ("model", 2, 0))
INDEX = ("tasks_index",)


def backends(p):
    """concrete store classes"""
    return [c for c in p.subclasses(BS) if not any(BS in p.mro(d) and c in p.mro(d)[1:] for d in p.subclasses(BS))]


def sql_kind(t):
    """insert/update/delete/select of a statement term"""
    for x in subterms(t):
        if x.k == "call" and x.a[0].k in ("attr", "ref"):
            n = x.a[0].a[1] if x.a[0].k == "attr" else x.a[0].a[0].split(".")[-1]
            if n in ("insert", "update", "delete"):
                return n
    return "select"


def in_pipeline(t):
    return t is not None and any(x.k == "attr" and x.a[1] == "pipeline" for x in subterms(t))


def is_resource(c):
    return c.recv is not None and not is_self(c.recv)


def in_directory(t):
    """does the path lie in the store's directory"""
    return from_attr(t, "directory") and not any(y.k == "attr" and y.a[1] in ("parent", "parents", "anchor", "root") or y.k == "const" and isinstance(y.a[0], str) and ".." in y.a[0].replace("\\", "/").split("/") for y in subterms(t))


def open_mode(c):
    """mode of open(path, mode) / path.open(mode)"""
    m = c.arg(0, "mode") if c.fn.k == "attr" and not is_mod(c.recv) else c.arg(1, "mode")
    return m.a[0] if m is not None and m.k == "const" and isinstance(m.a[0], str) else "r"


def is_mod(t):
    return t is not None and t.k == "ref"


def open_path(c):
    return c.recv if c.fn.k == "attr" and not is_mod(c.recv) else c.arg(0, "file")


def mode(ch):
    return lambda c: ch in open_mode(c)


class Model(Rec):
    """storage primitives with their outcomes: labels say what was found or written"""
    def attr_value(self, base, name, st):
        if base in (R1, R0) and name in ("matched_count", "deleted_count", "rowcount"):
            return const(1 if base is R1 else 0)
        return None

    def fork(self, hit, miss, th=R1, tm=R0):
        def ret(c, st):
            a = self.add(st, hit).know(("truth", (R1,), True))
            b = self.add(st, miss).know(("truth", (R0,), True))
            return [(th, a), (tm, b)]
        return ret


def table():
    m = [None]

    def fork(*a):
        return lambda c, st: m[0].fork(*a)(c, st)

    def memget(c, st):
        x = m[0]
        d = c.arg(1, "default")
        return [(T("tuple", (NEWTASK, T("sym", "old_timestamp"))), x.add(st, "has+").know(("truth", (NEWTASK,), True))), (d if d is not None else NONE, x.add(c.st, "has-"))]

    def execute(c, st):
        x = m[0]
        if in_pipeline(c.recv) or c.arg(0) is None:
            return [(x.default_term(c), x.add(st, "exec"))]
        k = sql_kind(c.arg(0))
        if k == "select":
            return None
        if k == "insert":
            return [(x.default_term(c), x.add(st, "ins"))]
        if not any(y.k == "attr" and y.a[1] in ("where", "filter", "filter_by") for y in subterms(c.arg(0))):
            return [(x.default_term(c), x.add(st, "clear"))]
        lab = "upd" if k == "update" else "del"
        return x.fork(lab, lab + "0")(c, st)
    q = lambda c: "q:" + c.name
    res = is_resource
    ev = [
        E("", "hexists", when=res, ret=fork("has+", "has-", TRUE, FALSE)),
        E(q, ["hset", "zadd", "hdel", "zrem", "hmset"], when=res),
        E(lambda c: "q:delete", "delete", when=lambda c: res(c) and in_pipeline(c.recv)),
        E("ins", ["insert_one"], when=res, raises=["pymongo.errors.DuplicateKeyError"]),
        E("", ["update_one", "replace_one"], when=lambda c: res(c) and not upsert(c), ret=fork("upd", "upd0")),
        E("upsert", ["update_one", "replace_one"], when=lambda c: res(c) and upsert(c)),
        E("", ["delete_one"], when=res, ret=fork("del", "del0")),
        E("clear", ["delete_many", "drop"], when=res),
        E("sql", "execute", when=lambda c: res(c) and c.arg(0) is not None and sql_kind(c.arg(0)) == "insert", raises=["sqlalchemy.exc.IntegrityError"], split=True, ret=execute),
        E("", "execute", when=lambda c: res(c) and not (c.arg(0) is not None and sql_kind(c.arg(0)) == "insert"), ret=execute),
        E("ins", "open", when=mode("x"), raises=["builtins.FileExistsError"]),
        E("upd", "open", when=lambda c: "r" in open_mode(c) and "+" in open_mode(c), raises=["builtins.FileNotFoundError"]),
        E("set", "open", when=lambda c: set(open_mode(c)) & set("wa")),
        E("data", "write", when=res),
        E("trunc", "truncate", when=res),
        E("del", ["unlink", "remove"], when=lambda c: fs_del(c) and strict(c), raises=["builtins.FileNotFoundError"]),
        E("wipe", ["unlink", "remove"], when=lambda c: fs_del(c) and not strict(c)),
        E("", ["exists", "is_file"], when=res, ret=fork("has+", "has-", TRUE, FALSE)),
        E("", ["get", "pop"], when=lambda c: res(c) and c.recv.k == "attr" and c.recv.a[1] in INDEX, ret=memget),
        E("ser", "__getstate__", when=res, raises=[OTHER]),
        M(lambda op, k, v: {"[]=": "i=", "del": "i-", "pop": "i-", "rebind": "i0", "clear": "i0"}.get(op, "i:" + op), list(INDEX)),
        M(lambda op, k, v: {"insert": "t+", "[]=": "t=", "del": "t-", "pop": "t-", "rebind": "t0", "clear": "t0"}.get(op, "t:" + op), ["tasks"], when=lambda b, st: is_self(b.a[0])),
        E("pos", "get_task_index"),
    ]
    return ev, m


def upsert(c):
    u = c.arg(2, "upsert")
    return u is not None and u is not FALSE


def rm_call(c):
    return is_resource(c) or (c.fn.k == "ref" and c.fn.a[0].startswith("os."))


def fs_del(c):
    if c.fn.k == "ref":
        return c.fn.a[0].startswith("os.")
    if c.recv is None or is_self(c.recv):
        return False
    if c.recv.k == "ref":
        return c.recv.a[0].split(".")[-1] == "os"
    return c.name == "unlink"


def strict(c):
    mo = c.kwarg("missing_ok")
    if mo is None and c.recv is not None and c.recv.k != "ref" and c.args:
        mo = c.args[0]
    return mo is None or mo is FALSE


def in_hook(cl):
    def hook(lit, st, node, fr):
        kind, ts, val = lit
        if kind == "in" and ts[1].k == "attr" and ts[1].a[1] in INDEX:
            return cl.add(st, "has+" if val else "has-")
        if kind in ("truth", "is") and ts[0].k == "attr" and ts[0].a[1] == "next_run_time" and ts[0].a[0].k == "p":
            if kind == "truth" or ts[1] is NONE:
                return cl.add(st, "due+" if val == (kind == "truth") else "due-")
        return st
    cl.assume_hook = hook


def sub_raises(base, key, st):
    if base.k == "attr" and base.a[1] in INDEX:
        if "has+" in seq(st):
            return None
        return "builtins.KeyError"
    return None


def model_run(ctx, c, name, stop=("get_task_index",), cap=3):
    p = ctx.proj
    f = p.method(c, name)
    ctx.need(f is not None, f"{c}.{name} not found")
    ev, m = table()
    cl = Model(p, ev, stop=set(stop), cap=cap)
    m[0] = cl
    in_hook(cl)
    res, it = run(p, cl, f, self_cls=c)
    ctx.absorb(it)
    out = [(k, pl, st, list(seq(st))) for k, pl, st in res]
    return f, cl, [x for x in out if not contradictory(x[3])]


PRESENT, ABSENT = {"has+", "ins!", "sql!IntegrityError", "upd", "del"}, {"has-", "ins", "upd!", "upd0", "del!", "del0"}


def contradictory(s):
    return bool("has+" in s and {"upd0", "del0", "upd!", "del!"} & set(s))


def writes(s):
    return [x for x in s if x in ("ins", "upd", "del", "set", "upsert", "wipe", "clear", "exec", "i=", "i-", "i0", "t+", "t=", "t-", "t0") or x.startswith(("i:", "t:"))]


def ident(f):
    """terms that denote the id of the task the operation is about"""
    a = [x.arg for x in f.node.args.args if x.arg != "self"]
    x = T("p", a[0])
    return x if "id" in a[0] else T("attr", x, "id")


def task_param(f):
    return T("p", [x.arg for x in f.node.args.args if x.arg != "self"][0])


@prop("C25", "Every store reports conflicts and missing tasks and changes nothing then",
      """Adding a task whose id the store already holds raises ConflictIdError, and updating or deleting a task it does not hold raises
      TaskLookupError (only the memory store's update stores a missing task); in these cases, and when the task cannot be serialized, the store
      is left unchanged. Otherwise the operation stores, fully replaces or removes exactly the task with that id.""",
      ["inputs", "configurations", "fault_sequences"],
      "every add, update, delete and remove-all on each of the five backends, for ids present and absent and for tasks that cannot be serialized",
      "backends are tested separately with few histories; a backend that silently overwrites or ignores, or a half done write, needs specific histories or faults",
      F, [("add_task/update_task/delete_task/remove_all_tasks", "asyncz/stores/*.py")],
      "path-sensitive dataflow over a model of the storage primitives' outcomes (found / not found / already there), siblings compared",
      "Every path of every store operation is enumerated over all outcomes of the storage primitives used (insert, update, delete, exclusive open, ...).",
      assumptions=["The storage libraries behave as modelled: insert reports duplicates, update and delete report the number of matched records."])
def c25(ctx):
    p = ctx.proj
    ctx.rule("conflict", "add: id present -> ConflictIdError, nothing written; absent -> inserted once")
    ctx.rule("missing", "update/delete: id absent -> TaskLookupError, nothing written; present -> exactly that change")
    ctx.rule("serialize", "a task that cannot be serialized changes nothing")
    ctx.rule("which", "the record written or removed is the one with the task's id, with the task's state")
    ctx.rule("clear", "remove_all_tasks removes everything")
    bs = backends(p)
    ctx.need(len(bs) >= 5, "store backends not found")
    for c in bs:
        memory = bool([1 for n in ast.walk(p.classes[c].node) if isinstance(n, ast.Attribute) and n.attr in INDEX])
        for op in ("add_task", "update_task", "delete_task"):
            f, cl, paths = model_run(ctx, c, op)
            rule = "conflict" if op == "add_task" else "missing"
            cons = f"{c}.{op}"
            seen = set()
            for k, pl, st, s in paths:
                pres, abs_ = bool(PRESENT & set(s)), bool(ABSENT & set(s))
                w = writes(s)
                if "exec" in w and not any(x.startswith("q:") for x in s[:s.index("exec")]):
                    w.remove("exec")
                if k == "raise" and "ser!" in s:
                    ctx.ob("serialize", not w and not {"trunc", "data"} & set(s), cons, f.where, "a task that cannot be serialized: " + " ".join(s), trace(st))
                    continue
                if k == "raise" and pl.cls.endswith(("AssertionError", "RuntimeError")) and not pres and not abs_:
                    ctx.ob(rule, not w, cons + ":refused", f.where, "refused operation writes: " + " ".join(s), trace(st))
                    continue
                if op == "add_task":
                    if pres:
                        seen.add("bad")
                        ctx.ob(rule, k == "raise" and pl.cls == CONFLICT and not w, cons, f.where, f"existing id: {k if k == 'return' else pl.cls} after " + " ".join(s), trace(st))
                    elif k == "return":
                        seen.add("ok")
                        ctx.ob(rule, abs_ and wrote(s, "add"), cons, f.where, "add: " + " ".join(s), trace(st))
                    else:
                        ctx.ob(rule, not w, cons + ":raise", f.where, f"add raises {pl.cls} after " + " ".join(s), trace(st))
                else:
                    gone = abs_ and not pres
                    if gone and not (memory and op == "update_task"):
                        seen.add("bad")
                        ctx.ob(rule, k == "raise" and pl.cls == LOOKUP and not [x for x in w if x not in ("upd0", "del0")], cons, f.where, f"missing id: {k if k == 'return' else pl.cls} after " + " ".join(s), trace(st))
                    elif k == "return":
                        seen.add("ok")
                        want = "add" if gone else op.split("_")[0]
                        ctx.ob(rule, (pres or gone) and wrote(s, want), cons, f.where, f"{op}: " + " ".join(s), trace(st))
                    else:
                        ctx.ob(rule, not w and pl.cls != LOOKUP, cons + ":raise", f.where, f"{op} raises {pl.cls} after " + " ".join(s), trace(st))
            ctx.ob(rule, "ok" in seen, cons + ":possible", f.where, f"{op} never succeeds")
            if not (memory and op == "update_task"):
                ctx.ob(rule, "bad" in seen, cons + ":detected", f.where, f"{op} cannot tell an existing task from a missing one")
            which(ctx, c, op, f, cl, cons)
        f, cl, paths = model_run(ctx, c, "remove_all_tasks", cap=4)
        for k, pl, st, s in paths:
            if any(n in s for n in ("wipe", "del")) or f.qual.endswith("FileStore.remove_all_tasks"):
                continue
            good = "clear" in s or ("i0" in s and "t0" in s) or (s.count("q:delete") >= 1 and "exec" in s and s.index("exec") > max(i for i, x in enumerate(s) if x == "q:delete"))
            ctx.ob("clear", k == "return" and good, c, f.where, "remove all: " + " ".join(s), trace(st))
        if any(i.label == "wipe" for i in cl.insts):
            ctx.ob("clear", True, c, f.where)
        elif not any({"clear", "i0", "t0", "q:delete"} & set(s) for _, _, _, s in paths):
            ctx.ob("clear", False, c, f.where, "remove_all_tasks removes nothing")
        for i in cl.insts:
            if i.label == "clear" and i.call is not None and i.call.name == "delete_many":
                a = i.call.arg(0)
                ctx.ob("clear", a is None or (a.k in ("dict", "newdict") and not (a.k == "dict" and a.a[0])), c + ":all", i.where, f"only {show(a)} is removed")
    ctx.floor("conflict", 10)
    ctx.floor("missing", 20)
    ctx.floor("clear", 5)


def wrote(s, what):
    n = lambda *x: sum(s.count(y) for y in x)
    if any(x in s for x in ("i=", "i-", "t+", "t=", "t-", "t0", "i0")):
        if what == "add":
            return n("t+") == 1 and n("i=") == 1 and not n("t=", "t-", "i-", "t0", "i0")
        if what == "update":
            return n("i=") == 1 and n("t0", "i0") == 0 and (n("t=") == 1 and not n("t+", "t-") or n("t+") == 1 and n("t-") == 1 and not n("t="))
        return n("i-") == 1 and n("t-") == 1 and not n("t+", "t=", "i=", "t0", "i0")
    q = [x for x in s if x.startswith("q:")]
    if q:
        last = len(s) - 1 - s[::-1].index("exec") if "exec" in s else -1
        done = all(i < last for i, x in enumerate(s) if x.startswith("q:"))
        if what in ("add", "update"):
            return done and q.count("q:hset") == 1 and "q:hdel" not in q and "q:delete" not in q
        return done and q.count("q:hdel") == 1 and "q:hset" not in q and "q:delete" not in q
    if n("wipe", "clear", "upsert"):
        return False
    if what == "add":
        return n("ins") == 1 and not n("upd", "del", "set") and ("data" not in s or s.index("data") > s.index("ins"))
    if what == "update":
        if "data" in s:
            return n("upd", "set") == 1 and n("data") == 1 and (n("set") == 1 or n("trunc") == 1) and not n("ins", "del")
        return n("upd") == 1 and not n("ins", "del", "set")
    return n("del") == 1 and not n("ins", "upd", "set")


def which(ctx, c, op, f, cl, cons):
    tid = ident(f)
    tp = task_param(f)
    getstate = T("attr", tp, "__getstate__")
    has_data = False
    for i in cl.insts:
        if i.kind == "call" and i.call is not None:
            a, n = i.call, i.call.name
            args = list(a.args) + [v for _, v in a.kw]
            if n in ("hset", "hdel", "hexists", "zadd", "zrem"):
                rest = a.args[1:] if len(a.args) > 1 else tuple(args)
                ctx.ob("which", any(key_of(x, tid) for x in rest), f"{cons}:{n}", i.where, f"{n} is about {show(rest)}")
            elif n in ("insert_one", "update_one", "delete_one", "replace_one"):
                flt = a.arg(0)
                ctx.ob("which", doc_value(flt, "_id") is tid, f"{cons}:{n}", i.where, f"{n} is about {show(flt)}")
            elif n == "execute" and a.arg(0) is not None and sql_kind(a.arg(0)) in ("insert", "update", "delete"):
                kd = sql_kind(a.arg(0))
                if kd == "insert":
                    ok = any(x.k == "call" and any(v is tid for k2, v in x.a[2] if k2 == "id") or x.k == "call" and any(doc_value(y, "id") is tid for y in x.a[1]) or x.k == "dict" and doc_value(x, "id") is tid for x in subterms(a.arg(0)))
                else:
                    ok = any(x.k == "cmp" and x.a[0] == "==" and tid in x.a[1:] and any(y.k == "attr" and y.a[1] == "id" and from_attr(y, "table") for y in x.a[1:]) for x in subterms(a.arg(0)))
                ctx.ob("which", ok, f"{cons}:{kd}", i.where, f"{kd} is not about the task's id: {show(a.arg(0))}")
            elif n in ("open", "unlink", "remove"):
                pth = open_path(a) if n == "open" else (a.recv if a.recv is not None and a.recv.k != "ref" else a.arg(0))
                ctx.ob("which", pth is not None and contains(pth, tid), f"{cons}:{n}", i.where, f"{n} is about {show(pth)}")
            if n in ("write", "hset", "insert_one", "update_one", "replace_one") or n == "execute" and a.arg(0) is not None and sql_kind(a.arg(0)) in ("insert", "update"):
                has_data = True
                ctx.ob("which", any(contains(x, getstate) for x in args), f"{cons}:{n}:state", i.where, f"{n} does not store the task's state")
        elif i.label in ("i=", "i-"):
            ctx.ob("which", i.key is tid or (i.key is not None and i.key.k == "attr" and i.key.a[1] == "id" and i.key.a[0] is NEWTASK), f"{cons}:index", i.where, f"index entry of {show(i.key)}")
            if i.label == "i=":
                has_data = True
                ctx.ob("which", i.value is not None and contains(i.value, tp), f"{cons}:entry", i.where, f"index entry holds {show(i.value)}")
    if op != "delete_task":
        ctx.ob("which", has_data, f"{cons}:data", f.where, "the task is not stored")


def key_of(x, tid):
    if x is tid:
        return True
    if x.k == "dict":
        return any(k is tid for k, _ in x.a[0])
    if x.k == "starred":
        return contains(x, tid)
    return False


def doc_value(t, key):
    if t is None:
        return None
    if t.k == "dict":
        for k, v in t.a[0]:
            if k.k == "const" and k.a[0] == key:
                return v
    return None


def columns(t):
    """next_run_time value carried by a written document/statement"""
    for x in subterms(t):
        if x.k == "dict":
            v = doc_value(x, "next_run_time")
            if v is not None:
                return v
        if x.k == "call":
            for k, v in x.a[2]:
                if k == "next_run_time":
                    return v
    return None


@prop("C29", "The due-time index of a store always matches the stored tasks",
      """Whatever a store uses to find due tasks (sorted list, sorted set, column) is written together with the task: adding or updating a task
      with a next run time indexes exactly that time in the same transaction, a task without one is not indexed as due, and deleting a task or
      all tasks removes the index entries too. The memory store's sorted list and its id index always describe the same tasks.""",
      ["inputs", "histories"],
      "every add, update and delete of scheduled and paused tasks, in every backend that keeps a separate due-time index",
      "an index left stale only shows when a paused, rescheduled or deleted task is looked for later, in histories the tests do not contain",
      F, [("add_task/update_task/delete_task", "asyncz/stores/*.py")],
      "path-sensitive dataflow over modelled storage primitives; index and record writes compared per path",
      "Every path of the write operations is enumerated, split by whether the task has a next run time; the file store has no separate index.")
def c29(ctx):
    p = ctx.proj
    ctx.rule("indexed", "the index entry is written exactly when the task has a next run time, removed otherwise, in the same transaction")
    ctx.rule("time", "the indexed time is the task's next run time")
    ctx.rule("list", "memory store: list and id index change together, at the position of the right time")
    for c in backends(p):
        for op in ("add_task", "update_task", "delete_task", "remove_all_tasks"):
            f, cl, paths = model_run(ctx, c, op, cap=4)
            cons = f"{c}.{op}"
            tp = task_param(f) if op in ("add_task", "update_task") else None
            nrt = T("attr", tp, "next_run_time") if tp is not None else None
            for k, pl, st, s in paths:
                q = [x for x in s if x.startswith("q:")]
                if k != "return" or not q:
                    continue
                last = len(s) - 1 - s[::-1].index("exec") if "exec" in s else -1
                q = [x for i, x in enumerate(s) if x.startswith("q:") and i < last]
                if op in ("add_task", "update_task"):
                    due = True if "due+" in s else False if "due-" in s else None
                    ctx.ob("indexed", due is not None, cons + ":decides", f.where, "the index does not depend on whether the task has a next run time", trace(st))
                    if due:
                        ctx.ob("indexed", q.count("q:zadd") == 1 and "q:zrem" not in q[q.index("q:zadd"):], cons + ":due", f.where, "scheduled task: " + " ".join(s), trace(st))
                    elif due is False:
                        ctx.ob("indexed", "q:zadd" not in q and (op == "add_task" or "q:zrem" in q), cons + ":paused", f.where, "paused task: " + " ".join(s), trace(st))
                elif op == "delete_task":
                    ctx.ob("indexed", q.count("q:zrem") == 1, cons, f.where, "delete: " + " ".join(s), trace(st))
            if op == "remove_all_tasks":
                keys = {a.a[1] for i in cl.insts if i.label == "q:delete" for a in i.call.args if a.k == "attr"}
                if any(i.label == "q:delete" for i in cl.insts):
                    ctx.ob("indexed", {"tasks_key", "run_times_key"} <= keys, cons, f.where, f"remove all deletes only {sorted(keys)}")
                continue
            for i in cl.insts:
                if i.kind != "call" or i.call is None:
                    continue
                n = i.call.name
                if n == "zadd":
                    d = i.call.arg(1, "mapping")
                    v = d.a[0][0][1] if d is not None and d.k == "dict" and d.a[0] else None
                    ctx.ob("time", v is not None and contains(v, nrt) and "timestamp" in show(v), cons, i.where, f"indexed time is {show(v) if v is not None else show(d)}")
                    ctx.ob("time", i.call.arg(0).k == "attr" and i.call.arg(0).a[1] == "run_times_key", cons + ":key", i.where, "wrong index")
                    ctx.ob("indexed", in_pipeline(i.call.recv), cons + ":transaction", i.where, "index written outside the transaction")
                elif n == "zrem":
                    ctx.ob("time", i.call.arg(0).k == "attr" and i.call.arg(0).a[1] == "run_times_key", cons + ":key", i.where, "wrong index")
                    ctx.ob("indexed", in_pipeline(i.call.recv), cons + ":transaction", i.where, "index written outside the transaction")
                elif n in ("hset", "hdel"):
                    ctx.ob("indexed", in_pipeline(i.call.recv), cons + ":transaction", i.where, "record written outside the transaction")
                    ctx.ob("time", i.call.arg(0).k == "attr" and i.call.arg(0).a[1] == "tasks_key", cons + ":" + n, i.where, "wrong hash")
                elif n in ("insert_one", "update_one", "replace_one") or n == "execute" and i.call.arg(0) is not None and sql_kind(i.call.arg(0)) in ("insert", "update"):
                    v = None
                    for a in i.call.args:
                        v = v if v is not None else columns(a)
                    vs = list(v.a[0]) if v is not None and v.k == "phi" else [v]
                    has = none = False
                    for x in vs:
                        if x is not None and contains(x, nrt) and "timestamp" in show(x):
                            has = True
                        elif x is NONE:
                            none = True
                        else:
                            ctx.ob("time", False, cons, i.where, f"next_run_time column is {show(x) if x is not None else 'not written'}")
                    ctx.ob("time", not none or has or _known_none(i.st, nrt), cons, i.where, "next_run_time column is None for a scheduled task")
                    ctx.ob("time", not has or not _known_none(i.st, nrt), cons, i.where, "a paused task is given a due time")
                    if has:
                        ctx.ob("indexed", True, cons, i.where)
            memory_list(ctx, c, op, f, cl, paths, cons, nrt)
    ctx.floor("time", 6)
    ctx.floor("indexed", 8)
    ctx.floor("list", 3)


def _known_none(st, t):
    return any((x[0] == "truth" and x[1][0] is t and not x[2]) or (x[0] == "is" and x[1][0] is t and x[1][1] is NONE and x[2]) for x in st.facts)


def memory_list(ctx, c, op, f, cl, paths, cons, nrt):
    mem = [i for i in cl.insts if i.label in ("t+", "t=", "t-", "i=", "i-")]
    if not mem:
        return
    for k, pl, st, s in paths:
        if k != "return":
            continue
        if "t+" in s:
            at = s.index("t+")
            ctx.ob("list", "pos" in s[:at] and "pos" in s[(s.index("t-") if "t-" in s[:at] else 0):at], cons + ":position", f.where, "the insert position is computed before the old entry is removed: " + " ".join(s), trace(st))
    old_ts = T("sym", "old_timestamp")
    for i in mem:
        pos = i.key
        if i.label in ("t+", "t=", "t-"):
            ok = pos is not None and pos.k == "call" and callee(pos) == "get_task_index" or pos is not None and "get_task_index" in show(pos)
            ctx.ob("list", ok, f"{cons}:{i.label}", i.where, f"position is {show(pos) if pos is not None else None}")
            if not ok or pos.k != "call":
                continue
            ts = pos.a[1][0] if pos.a[1] else None
            if i.label in ("t-", "t="):
                same = i.label == "t=" and ts is not None and any(x[0] in ("eq", "is") and x[2] and ts in x[1] and old_ts in x[1] for x in i.st.facts)
                ctx.ob("list", ts is old_ts or same, f"{cons}:{i.label}:old", i.where, f"the old entry is looked for at {show(ts)}")
                if i.label == "t=":
                    eq = any(x[0] in ("eq", "is") and x[2] and old_ts in x[1] for x in i.st.facts)
                    ctx.ob("list", eq, f"{cons}:inplace", i.where, "an entry is replaced in place although its time changed")
            else:
                v = i.value
                ctx.ob("list", v is not None and v.k == "tuple" and v.a[0][1] is ts, f"{cons}:{i.label}:same", i.where, f"inserted {show(v)} at the position of {show(ts)}")
        if i.label in ("t+", "t=", "i=") and i.value is not None and nrt is not None:
            v = i.value
            ctx.ob("list", v.k == "tuple" and v.a[0][0] is nrt.a[0] and (contains(v.a[0][1], nrt) or v.a[0][1] is NONE and not _known_set(i.st, nrt)), f"{cons}:{i.label}:entry", i.where, f"entry is {show(v)}")


def _known_set(st, t):
    return any((x[0] == "truth" and x[1][0] is t and x[2]) or (x[0] == "is" and x[1][0] is t and x[1][1] is NONE and not x[2]) for x in st.facts)


NOW = T("new", "datetime.datetime", (), (), ("now", 0, 0))


def ts_now(t):
    return t is NOW or (t is not None and t.k == "call" and t.a[0].k == "attr" and t.a[0].a[1] == "timestamp" and t.a[0].a[0] is NOW)


@prop("C30", "Due queries return exactly the tasks whose time has come",
      """A store's due query returns the tasks whose next run time is set and not later than the given time, the exact moment included, and no
      paused or future task. Its next-run query ignores paused tasks and takes the earliest time of the others, or none.""",
      ["inputs", "configurations"],
      "every set of stored tasks (paused, past, exactly now, future) and every query time, on all five backends",
      "boundary instants and mixtures of paused and due tasks are sampled once or not at all; four backends express the query differently",
      F, [("get_due_tasks/get_next_run_time", "asyncz/stores/*.py")],
      "per-iteration path analysis of the selection loop; algebraic comparison of the query terms handed to the storage library",
      "Selection conditions are decided over all orderings of the task's time and the query time; for query languages the query term is compared. How the file store's loop computes its minimum is not decided.")
def c30(ctx):
    p = ctx.proj
    ctx.rule("due", "selected iff next run time set and <= the given time")
    ctx.rule("next", "earliest next run time, paused tasks ignored")
    for c in backends(p):
        # ---- due
        f = p.method(c, "get_due_tasks")
        prm = [x.arg for x in f.node.args.args if x.arg != "self"][0]
        ev = [E("q", ["zrangebyscore", "find"], when=is_resource), E("zr", ["zrange"], when=is_resource), E("sel", "execute", when=is_resource), E("app", ["append", "add", "insert"], when=lambda c: c.recv is not None and c.recv.k in ("newlist", "list"))]
        # the selection is the outermost layer; rebuilding below it is opaque
        layered = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("get_all_tasks",) for n in ast.walk(f.node))
        cl = Rec(p, ev, stop={"rebuild_task", "rebuild_tasks", "get_all_tasks"} | ({"get_tasks"} if layered else set()), cap=2)
        cl.iter_rel = True
        other = []

        def hook(lit, st, node, fr):
            kind, ts, val = lit
            tm = [t for t in ts if isinstance(t, T) and is_time(t)]
            if not tm:
                if any(isinstance(t, T) and any(y.k in ("elem", "val") for y in subterms(t)) for t in ts):
                    return cl.add(st, "other")
                return st
            if kind == "is" and ts[1] is NONE:
                return cl.add(st, "none+" if val else "none-")
            if kind == "truth":
                return cl.add(st, "none-" if val else "none+")
            if kind == "lt":
                if ts_now(ts[0]):
                    return cl.add(st, "future" if val else "due")
                if ts_now(ts[1]):
                    return cl.add(st, "before" if val else "notbefore")
            return cl.add(st, "other")
        cl.assume_hook = hook
        res, it = run(p, cl, f, self_cls=c, args={prm: NOW})
        ctx.absorb(it)
        qs = [i for i in cl.insts if i.label in ("q", "sel")]
        if qs:
            for i in qs:
                n, a = i.call.name, i.call
                if n == "zrangebyscore":
                    lo, hi = a.arg(1, "min"), a.arg(2, "max")
                    ctx.ob("due", lo is not None and lo.k == "const" and lo.a[0] in (0, "-inf") and ts_now(hi) and not ({"start", "num"} & {k for k, _ in a.kw}), c, i.where, f"due range is {show(lo)}..{show(hi)}")
                elif n == "find":
                    flt = doc_value(a.arg(0, "filter"), "next_run_time")
                    ok = flt is not None and flt.k == "dict" and ts_now(doc_value(flt, "$lte")) and len(a.arg(0, "filter").a[0]) == 1 and not ({k.a[0] for k, _ in flt.a[0]} - {"$lte", "$ne"})
                    ctx.ob("due", ok, c, i.where, f"due filter is {show(a.arg(0, 'filter'))}")
                elif n == "execute" and sql_kind(a.arg(0)) == "select":
                    cm = [x for x in subterms(a.arg(0)) if x.k == "cmp"]
                    ok = any(x.a[0] == "<=" and col(x.a[1]) and ts_now(x.a[2]) or x.a[0] == ">=" and col(x.a[2]) and ts_now(x.a[1]) for x in cm)
                    extra = [x for x in cm if not (x.a[0] in ("<=", ">=") or x.a[0] in ("!=", "is not") and NONE in x.a)]
                    ctx.ob("due", ok and not extra and not any(y.k == "attr" and y.a[1] == "limit" for y in subterms(a.arg(0))), c, i.where, f"due query is {show(a.arg(0), 12)}")
        else:
            tested = False
            for itm, st, node, fn in cl.iters:
                s = list(seq(st))
                if "none+" not in s and "none-" not in s and "due" not in s and "future" not in s and "app" not in s:
                    if "before" not in s and "notbefore" not in s:
                        continue        # another loop
                tested = True
                if "app" in s:
                    b = s[:s.index("app")]
                    ctx.ob("due", "none-" in b and "due" in b, c, f.where, "selected when only " + " ".join(b[1:]) + " is known", trace(st))
                else:
                    ctx.ob("due", "none+" in s or "future" in s, c, f.where, "not selected when only " + " ".join(s[1:]) + " is known", trace(st))
            if not tested:
                # comprehension: the markers of the passing branch are on the returned path
                for k, pl, st in res:
                    s = list(seq(st))
                    if k != "return" or pl.k != "comp" or not any(x in s for x in ("none+", "none-", "due", "future", "before", "notbefore", "other")):
                        continue
                    tested = True
                    ctx.ob("due", "none-" in s and "due" in s and not {"other", "none+", "future"} & set(s), c, f.where, "selected when " + " ".join(x for x in s if x != "@iter"), trace(st))
            ctx.ob("due", tested, c, f.where, "the due query does not compare the tasks' times with the given time")
        # ---- next
        f = p.method(c, "get_next_run_time")
        cl = Rec(p, [E("zr", ["zrange"], when=is_resource), E("zs", "zrangebyscore", when=is_resource), E("one", ["find_one", "find"], when=is_resource), E("sel", "execute", when=is_resource)], stop={"rebuild_task", "rebuild_tasks", "get_all_tasks", "get_tasks"}, cap=2)
        if any(i for i in ()):  # pragma: no cover
            pass
        cl.iter_of = lambda itm: True
        res, it = run(p, cl, f, self_cls=c)
        ctx.absorb(it)
        src = False
        for i in cl.insts:
            n, a = i.call.name, i.call
            src = True
            if n == "zrange":
                rev = [v for k, v in a.kw if k in ("desc", "rev")]
                st0, en = a.arg(1, "start"), a.arg(2, "end")
                ctx.ob("next", a.arg(0).k == "attr" and a.arg(0).a[1] == "run_times_key" and st0 is const(0) and en is not None and en.k == "const" and not any(v is not FALSE for v in rev), c, i.where, f"asks for {show(st0)}..{show(en)}")
            elif n in ("find_one", "find"):
                flt = a.arg(0, "filter")
                f2 = doc_value(flt, "next_run_time") if flt is not None else None
                ok = f2 is not None and f2.k == "dict" and (doc_value(f2, "$ne") is NONE or any(k.a[0] in ("$gt", "$gte", "$type") for k, _ in f2.a[0]))
                so = a.kwarg("sort")
                up = so is not None and any(x is const("next_run_time") for x in subterms(so)) and not any(x is const(-1) or x.k == "ref" and x.a[0].endswith("DESCENDING") for x in subterms(so))
                ctx.ob("next", ok, c, i.where, f"paused tasks are not ignored: {show(flt)}")
                ctx.ob("next", up, c + ":order", i.where, f"not the earliest: sort={show(so) if so is not None else None}")
            elif n == "execute" and a.arg(0) is not None:
                q = a.arg(0)
                mn = any(x.k == "attr" and x.a[1] == "min" or x.k == "ref" and x.a[0].endswith(".min") for x in subterms(q))
                notnull = any(x.k == "cmp" and x.a[0] in ("!=", "is not") and NONE in x.a and any(col(y) for y in x.a[1:] if isinstance(y, T)) for x in subterms(q)) or any(x.k == "attr" and x.a[1] in ("is_not", "isnot") for x in subterms(q))
                asc = any(x.k == "attr" and x.a[1] == "order_by" for x in subterms(q)) and not any(x.k == "attr" and x.a[1] == "desc" or x.k == "ref" and x.a[0].endswith(".desc") for x in subterms(q))
                ctx.ob("next", mn or notnull, c, i.where, f"paused tasks are not ignored: {show(q, 12)}")
                ctx.ob("next", mn or asc, c + ":order", i.where, f"not the earliest: {show(q, 12)}")
        if not src:
            alts = [y for k, pl, st in res if k == "return" for y in (pl.a[0] if pl.k == "phi" else [pl])]
            ctx.ob("next", any(has_time(y) for y in alts), c, f.where, f"returns {[show(y) for y in alts]}")
            for y in alts:
                first = [x for x in subterms(y) if x.k == "idx" and x.a[1].k == "const" and x.a[0].k == "attr" and x.a[0].a[1] == "tasks"]
                for x in first:
                    ctx.ob("next", x.a[1] is const(0), c + ":first", f.where, f"takes entry {show(x.a[1])} of the sorted list")
            for k, pl, st in res:
                ctx.ob("next", k == "return", c + ":raises", f.where, f"raises {pl}", trace(st))
    ctx.floor("due", 5)
    ctx.floor("next", 5)


def has_time(t):
    return is_time(t) or any(is_time(x) for x in subterms(t))


def is_time(t):
    if t.k == "attr" and t.a[1] == "next_run_time":
        return True
    if t.k == "call" and t.a[0].k == "attr" and t.a[0].a[1] == "timestamp":
        return is_time(t.a[0].a[0])
    return t.k == "idx" and t.a[1] is const(1) and t.a[0].k == "elem" and from_attr(t.a[0], "tasks")


def col(t):
    return (t.k == "attr" and t.a[1] == "next_run_time" or t.k == "idx" and t.a[1] is const("next_run_time")) and from_attr(t, "table", "c")


READ_ERR = "builtins.PermissionError"
KBD = "builtins.KeyboardInterrupt"


def holds_rebuild(t):
    return t is not None and any(x.k == "call" and callee(x) == "rebuild_task" for x in subterms(t))


@prop("C26", "Restoring tasks is isolated: a broken record harms no other task",
      """When stored tasks are listed, a record that cannot be restored is left out and removed, every other record is still returned, and the
      listing does not fail. Only a record that was read and could not be restored is removed: an error while reading it, or an interrupt, removes
      nothing. A restored task belongs to the scheduler and the store it was restored from.""",
      ["inputs", "fault_sequences"],
      "every listing of every persistent backend, for every subset of records that cannot be restored or read",
      "tests break one record in one way; they do not combine broken with good ones, nor fail the read itself",
      F, [("rebuild_task/rebuild_tasks/get_tasks", "asyncz/stores/*.py"), ("lookup_task", "asyncz/stores/file.py")],
      "per-iteration event-sequence dataflow with injected restore and read failures",
      "Every iteration path of every listing is enumerated with the restore succeeding, failing or being interrupted, and the file read failing.")
def c26(ctx):
    p = ctx.proj
    ctx.rule("isolated", "a failing restore does not leave the listing and does not end it")
    ctx.rule("kept", "a restored task is listed exactly once, a broken one is not")
    ctx.rule("removed", "exactly the records that were read and could not be restored are removed")
    ctx.rule("owner", "a restored task gets the store's scheduler and alias and the stored state")
    bs = [c for c in backends(p) if p.method(c, "rebuild_task") is not None]
    ctx.need(len(bs) >= 4, "persistent backends not found")
    for c in bs:
        # ---- ownership
        f = p.method(c, "rebuild_task")
        sp = T("p", [x.arg for x in f.node.args.args if x.arg != "self"][0])
        cl = Rec(p, [E("deser", "deserialize_task_state"), E("set", "__setstate__")], stop={"conditional_decrypt"})
        res, it = run(p, cl, f, self_cls=c)
        ctx.absorb(it)
        for k, pl, st in res:
            if k != "return":
                continue
            ctx.ob("owner", st.heap.get((pl, "scheduler")) is T("attr", T("self", c), "scheduler"), f.qual + ":scheduler", f.where, f"scheduler of a restored task is {show(st.heap.get((pl, 'scheduler')))}")
            ctx.ob("owner", st.heap.get((pl, "store_alias")) is T("attr", T("self", c), "alias"), f.qual + ":alias", f.where, f"store of a restored task is {show(st.heap.get((pl, 'store_alias')))}")
            ctx.ob("owner", seq(st).count("set") == 1, f.qual, f.where, "the stored state is not applied", trace(st))
        for i in cl.insts:
            if i.label == "set":
                a = i.call.arg(0)
                ctx.ob("owner", a is not None and a.k == "call" and callee(a) == "deserialize_task_state" and contains(a, sp), f.qual + ":state", i.where, f"state is {show(a)}")
        # ---- listings
        for name in ("get_all_tasks", "get_due_tasks"):
            f = p.method(c, name)
            ev = [E("rebuild", "rebuild_task", raises=[OTHER, KBD], split=True),
                  E("read", "open", raises=[READ_ERR, "builtins.FileNotFoundError"], split=True),
                  E(lambda c2: "keep" if any(holds_rebuild(a) for a in c2.args) else "fail" if bad is None or c2.recv in bad else "", ["append", "add", "insert"], when=lambda c2: c2.recv is not None and c2.recv.k in ("newlist", "list", "newset", "call", "new")),
                  E("rm", ["hdel", "zrem", "delete_many", "delete_one", "unlink", "remove"], when=rm_call),
                  E("rm", "execute", when=lambda c2: is_resource(c2) and c2.arg(0) is not None and sql_kind(c2.arg(0)) == "delete")]
            bad = None
            for _ in range(2):      # first pass: which lists name the records to remove
                cl = Rec(p, ev, cap=2)
                cl.iter_rel = True
                cl.iter_events = frozenset({"rebuild_task"})
                cl.keep_break = True
                res, it = run(p, cl, f, self_cls=c)
                if bad is None:
                    rargs = [a for i in cl.insts if i.label == "rm" for a in [*i.call.args, *(v for _, v in i.call.kw), i.call.recv] if a is not None]
                    bad = {i.base for i in cl.insts if i.label == "fail" and any(contains(a, i.base) for a in rargs)}
            ctx.absorb(it)
            cons = f"{c}.{name}"
            for k, pl, st in res:
                s = list(seq(st))
                if k == "raise":
                    ctx.ob("isolated", "rebuild!Error" not in s, cons, f.where, f"a broken record fails the listing with {pl.cls}: " + " ".join(s), trace(st))
                    if "rebuild!KeyboardInterrupt" in s or "read!PermissionError" in s:
                        ctx.ob("removed", "rm" not in s and "fail" not in s, cons + ":unread", f.where, "a record is removed although reading or restoring it was cut short: " + " ".join(s), trace(st))
                else:
                    ctx.ob("isolated", "@iter" not in s or not any(x.startswith("rebuild") for x in s), cons + ":ends", f.where, "the listing ends early: " + " ".join(s), trace(st))
            seen = set()
            for itm, st, node, fn in cl.iters:
                s = list(seq(st))
                if "rebuild!Error" in s:
                    seen.add("bad")
                    ctx.ob("kept", "keep" not in s, cons + ":broken", f.where, "a broken record is listed: " + " ".join(s), trace(st))
                    ctx.ob("removed", "fail" in s or "rm" in s, cons + ":broken", f.where, "a broken record is not removed: " + " ".join(s), trace(st))
                elif "rebuild" in s and not any("!" in x for x in s):
                    seen.add("good")
                    ctx.ob("kept", s.count("keep") == 1, cons, f.where, f"a restored task is listed {s.count('keep')} times: " + " ".join(s), trace(st))
                    ctx.ob("removed", "fail" not in s and "rm" not in s, cons, f.where, "a restored task is removed: " + " ".join(s), trace(st))
                else:
                    ctx.ob("removed", "fail" not in s and "rm" not in s, cons + ":unread", f.where, "a record is removed although reading or restoring it was cut short: " + " ".join(s), trace(st))
            ctx.ob("isolated", seen == {"good", "bad"}, cons + ":both", f.where, f"iterations seen: {sorted(seen)}")
            lists = {i.base for i in cl.insts if i.label == "fail"}
            rms = [i for i in cl.insts if i.label == "rm"]
            ctx.ob("removed", bool(rms), cons + ":remover", f.where, "records that cannot be restored are not removed")
            for i in rms:
                args = list(i.call.args) + [v for _, v in i.call.kw] + [i.call.recv]
                neg = [y for a in args if a is not None for y in subterms(a) if y.k == "const" and y.a[0] in ("$nin", "$ne", "$not") or y.k == "attr" and y.a[1] in ("not_in", "notin_")]
                ctx.ob("removed", not neg, cons + ":negated", i.where, f"removes the other records: {show(i.call.args)}")
                if lists:
                    ctx.ob("removed", any(contains(a, x) for a in args for x in lists), cons + ":which", i.where, f"removes {show(i.call.args)}")
                elif "rebuild!Error" not in i.seq:
                    ctx.ob("removed", False, cons + ":which", i.where, "removes a record outside a failed restore")
        # ---- single lookup never removes what it could not read
        f = p.method(c, "lookup_task")
        cl = Rec(p, [E("rebuild", "rebuild_task", raises=[OTHER, KBD], split=True), E("read", "open", raises=[READ_ERR, "builtins.FileNotFoundError"], split=True),
                     E("rm", ["hdel", "zrem", "delete_many", "delete_one", "unlink", "remove"], when=rm_call)], cap=2, stop={"get_tasks"})
        res, it = run(p, cl, f, self_cls=c)
        ctx.absorb(it)
        for k, pl, st in res:
            s = list(seq(st))
            ctx.ob("removed", "rm" not in s or "rebuild!Error" in s, f"{c}.lookup_task", f.where, "a record that was not found broken is removed: " + " ".join(s), trace(st))
    ctx.floor("isolated", 8)
    ctx.floor("kept", 8)


@prop("C27", "With a key set, no task state leaves or enters a store unencrypted",
      """With an encryption key configured every serialized task state is encrypted before it is written, and decrypted before it is unpickled, by
      every persistent store; without a key it is stored as is. Each encryption uses a fresh random nonce that is stored in front of the
      ciphertext, and decryption splits at the same place. The key comes from ASYNCZ_STORE_ENCRYPTION_KEY when the store starts.""",
      ["inputs", "configurations"],
      "every write and read path of every persistent backend, with and without a key",
      "a single write path that skips encryption, or a reused nonce, still round-trips and is invisible to tests",
      F, [("conditional_encrypt/conditional_decrypt", "asyncz/stores/base.py"), ("start", "asyncz/stores/base.py:start")],
      "value-flow (term) analysis from serialization to the storage primitive, split by whether a key is set",
      "The value reaching each storage write and each unpickling is computed symbolically on every path; cryptographic strength is the library's.",
      assumptions=["cryptography's AESCCM is correct"])
def c27(ctx):
    p = ctx.proj
    ctx.rule("write", "stored bytes are nonce + encrypt(nonce, pickled state) with a key, the pickled state without")
    ctx.rule("nonce", "the nonce is freshly drawn for each encryption")
    ctx.rule("read", "unpickled bytes are decrypt(x[:n], x[n:]) with a key, x without, n the nonce length")
    ctx.rule("key", "the key is taken from the environment at start")
    lens = set()

    def keyed(st):
        for x in st.facts:
            if x[0] == "truth" and x[1][0].k == "attr" and x[1][0].a[1] == "encryption_key":
                return x[2]
            if x[0] == "is" and x[1][0].k == "attr" and x[1][0].a[1] == "encryption_key" and x[1][1] is NONE:
                return not x[2]
        return None

    def payloads(i):
        n = i.call.name
        if n == "write":
            return [i.call.arg(0)]
        if n == "hset":
            return [i.call.args[-1]]
        return [i.call.arg(0)] if n != "update_one" else [i.call.arg(1, "update")]
    W_ = [E("w", ["hset", "insert_one", "update_one", "replace_one", "write"], when=is_resource),
          E("w", "execute", when=lambda c: is_resource(c) and c.arg(0) is not None and sql_kind(c.arg(0)) in ("insert", "update")),
          E("dumps", "dumps"), E("enc", "encrypt", when=is_resource)]
    for c in backends(p):
        if p.method(c, "rebuild_task") is None:
            continue
        for op in ("add_task", "update_task"):
            f = p.method(c, op)
            cl = Rec(p, W_, stop={"serialize_task_state"})
            res, it = run(p, cl, f, self_cls=c)
            ctx.absorb(it)
            cons = f"{c}.{op}"
            n = 0
            for i in cl.insts:
                if i.label != "w":
                    continue
                n += 1
                key = keyed(i.st)
                ctx.ob("write", key is not None, cons + ":decides", i.where, "whether to encrypt is not decided by the key")
                for t in payloads(i):
                    if t is None:
                        continue
                    plain = raw_state(t)
                    encs = [x for x in subterms(t) if x.k == "call" and x.a[0].k == "attr" and x.a[0].a[1] == "encrypt"]
                    if key:
                        ctx.ob("write", bool(encs) and not plain, cons + ":encrypted", i.where, f"stored unencrypted: {show(t, 10)}")
                        for x in encs:
                            nonce = x.a[1][0]
                            fresh = nonce.k == "call" and callee(nonce) in ("urandom", "token_bytes", "randbytes") and len(nonce.a[1]) == 1 and nonce.a[1][0].k == "const"
                            ctx.ob("nonce", fresh, cons, i.where, f"nonce is {show(nonce)}")
                            pre = [y for y in subterms(t) if y.k == "op" and y.a[0] == "Add" and y.a[1] is nonce and y.a[2] is x]
                            ctx.ob("nonce", bool(pre), cons + ":stored", i.where, "the nonce is not stored in front of the ciphertext")
                            if fresh:
                                lens.add(nonce.a[1][0])
                    elif key is False:
                        ctx.ob("write", bool(plain) and not encs, cons + ":plain", i.where, f"without a key stored as {show(t, 10)}")
            ctx.ob("write", n > 0, cons + ":writes", f.where, f"{op} writes nothing")
        f = p.method(c, "rebuild_task")
        cl = Rec(p, [E("loads", "loads")], stop={"deserialize_task_state"})
        sp = T("p", [x.arg for x in f.node.args.args if x.arg != "self"][0])
        cl.rel.names = frozenset(cl.rel.names | {"decrypt"})
        res, it = run(p, cl, f, self_cls=c)
        ctx.absorb(it)
        got = set()
        for i in cl.insts:
            key = keyed(i.st)
            a = i.call.arg(0)
            got.add(key)
            if key:
                ok = a.k == "call" and a.a[0].k == "attr" and a.a[0].a[1] == "decrypt" and len(a.a[1]) >= 2
                ctx.ob("read", ok, f.qual + ":decrypted", i.where, f"unpickles {show(a)}")
                if ok:
                    n1, n2 = cut(a.a[1][0], sp, 0), cut(a.a[1][1], sp, 1)
                    ctx.ob("read", n1 is not None and n1 is n2 and lens <= {n1}, f.qual + ":split", i.where, f"nonce {show(a.a[1][0])}, ciphertext {show(a.a[1][1])}, nonce length {[show(x) for x in lens]}")
            else:
                ctx.ob("read", key is False and a is sp, f.qual + ":plain", i.where, f"unpickles {show(a)}")
        ctx.ob("read", got == {True, False}, f.qual, f.where, f"reads decided by the key: {got}")
    # unpickling only in rebuild_task
    for q, fn in p.functions.items():
        if fn.module.name.startswith("asyncz.stores.") and fn.parent is None:
            for n in ast.walk(fn.node):
                if isinstance(n, ast.Call) and p.resolve(fn.module, _dot(n.func)) in ("pickle.loads", "pickle.load", "pickle.Unpickler"):
                    own = fn.name == "rebuild_task" or any(n2 for n2 in callers(p, fn) if n2 == "rebuild_task")
                    ctx.ob("read", own, q + ":where", f"{fn.module.rel}:{n.lineno}", "stored state is unpickled outside rebuild_task")
    f = p.method(BS, "start")
    cl = Rec(p, [W(lambda b, n, v: "key" if v is not NONE else "nokey", ["encryption_key"], when=lambda b, n, v, st: is_self(b))], stop={"create_lock"})
    res, it = run(p, cl, f, self_cls=BS)
    ctx.absorb(it)
    for k, pl, st in res:
        if k != "return":
            continue
        s = seq(st)
        env = None
        for x in st.facts:
            if x[0] == "truth" and "ASYNCZ_STORE_ENCRYPTION_KEY" in show(x[1][0]):
                env = x[2]
            if x[0] in ("is",) and "ASYNCZ_STORE_ENCRYPTION_KEY" in show(x[1][0]) and x[1][1] is NONE and env is None:
                env = not x[2]
        ctx.ob("key", env is None or ("key" in s) == env, "start", f.where, f"key {'set' if 'key' in s else 'not set'} although the variable is {'' if env else 'not '}given", trace(st))
    ks = [i for i in cl.insts if i.label == "key"]
    ctx.ob("key", bool(ks), "start:set", f.where, "the key is never taken from the environment")
    for i in ks:
        ctx.ob("key", "ASYNCZ_STORE_ENCRYPTION_KEY" in show(i.value, 20) and "AESCCM" in show(i.value), "start:value", i.where, f"key is {show(i.value)}")
    for c in backends(p):
        f = p.method(c, "start")
        if f.cls.qual != BS:
            cl = Rec(p, [E("base", "start", when=lambda c2: c2.recv is not None and c2.fn.k == "func" and c2.fn.a[0] == f"{BS}.start")])
            res, it = run(p, cl, f, self_cls=c)
            for k, pl, st in res:
                if k == "return":
                    ctx.ob("key", seq(st).count("base") == 1, c + ":start", f.where, "the base start (which sets the key) is not called exactly once", trace(st))
    ctx.floor("write", 16)
    ctx.floor("nonce", 8)
    ctx.floor("read", 8)


def _dot(n):
    from sa.project import dotted
    return dotted(n) or ""


def callers(p, fn):
    out = set()
    for q, g in p.functions.items():
        if g.module is fn.module and g is not fn:
            for n in ast.walk(g.node):
                if isinstance(n, ast.Attribute) and n.attr == fn.name or isinstance(n, ast.Name) and n.id == fn.name:
                    out.add(g.name)
    return out


def raw_state(t):
    """is a pickled state reachable in t other than through encrypt()"""
    if not isinstance(t, T):
        return any(raw_state(x) for x in t) if isinstance(t, tuple) else False
    if t.k == "call" and t.a[0].k == "attr" and t.a[0].a[1] == "encrypt":
        return False
    if t.k == "call" and callee(t) in ("dumps", "serialize_task_state"):
        return True
    return any(raw_state(x) for x in t.a if isinstance(x, (T, tuple)))


def cut(t, src, side):
    """n when t is src[:n] (side 0) or src[n:] (side 1)"""
    if t.k == "idx" and t.a[0] is src and t.a[1].k == "slice":
        lo, hi = t.a[1].a[0][0], t.a[1].a[0][1]
        if side == 0 and (lo is NONE or lo is None or lo is const(0)):
            return hi
        if side == 1 and (hi is NONE or hi is None):
            return lo
    return None


@prop("C28", "Persisted state is restored only from the envelope it was written in",
      """Task state is written in an envelope naming its entity, its version, the shape and the state, and read back only when entity and version
      are the ones the library writes; it is then loaded by the shape the envelope names and must yield a task state. Anything else is
      refused with a shape error; a bare task state of older versions is still accepted.""",
      ["inputs"],
      "every stored object: bare states, envelopes of any entity, version and shape, foreign objects",
      "tests check one wrong entity or version; agreement of writer and reader and refusal of everything else is not sampled",
      ["asyncz/stores/base.py", "asyncz/stores/persistence.py"], [("serialize_task_state/deserialize_task_state", "asyncz/stores/base.py")],
      "path-sensitive dataflow with branch facts; writer and reader constants compared",
      "All paths of the reader are enumerated with the facts they rely on.")
def c28(ctx):
    p = ctx.proj
    ctx.rule("reader", "returns only a bare TaskState, or the state loaded by the named shape from an envelope of the right entity and version")
    ctx.rule("refuse", "everything else raises a shape error")
    ctx.rule("writer", "the writer writes the entity and version the reader accepts, the shape used and the task's state")
    f = p.method(BS, "deserialize_task_state")
    g = p.method(BS, "serialize_task_state")
    ctx.need(f and g, "serialize/deserialize not found")
    sp = T("p", [x.arg for x in f.node.args.args if x.arg != "self"][0])
    cl = Rec(p, [E("load", "load", when=is_resource), E("resolve", "resolve_shape")])
    marks = {}

    def hook(lit, st, node, fr):
        kind, ts, val = lit
        if kind == "truth" and ts[0].k == "call" and show(ts[0].a[0]) == "isinstance":
            x, ty = ts[0].a[1][0], show(ts[0].a[1][1])
            who = "stored" if x is sp else "loaded" if x.k == "call" and x.a[0].k == "attr" and x.a[0].a[1] == "load" else None
            if who:
                return cl.add(st, f"{who}:{ty}{'+' if val else '-'}")
        if kind in ("eq", "is") and any(t.k == "attr" and t.a[0] is sp for t in ts):
            a, b = (ts if ts[0].k == "attr" else ts[::-1])
            marks.setdefault(a.a[1], set()).add(b)
            return cl.add(st, f"{a.a[1]}{'+' if val else '-'}")
        return st
    cl.assume_hook = hook
    res, it = run(p, cl, f, self_cls=BS)
    ctx.absorb(it)
    kinds = set()
    for k, pl, st in res:
        s = list(seq(st))
        if k == "return":
            for y in (pl.a[0] if pl.k == "phi" else [pl]):
                if y is sp:
                    kinds.add("bare")
                    ctx.ob("reader", "stored:TaskState+" in s, "bare", f.where, "a foreign object is returned as task state: " + " ".join(s), trace(st))
                else:
                    kinds.add("envelope")
                    good = y.k == "call" and y.a[0].k == "attr" and y.a[0].a[1] == "load"
                    ctx.ob("reader", good, "loaded", f.where, f"returns {show(y)}", trace(st))
                    for m in ("stored:TaskStateEnvelope+", "entity+", "version+", "loaded:TaskState+"):
                        ctx.ob("reader", m in s, "envelope:" + m, f.where, f"restored without {m}: " + " ".join(s), trace(st))
                    if good:
                        sh, a = y.a[0].a[0], y.a[1]
                        ctx.ob("reader", contains(sh, T("attr", sp, "shape")), "envelope:shape", f.where, f"loaded by {show(sh)}")
                        ctx.ob("reader", any(x is T("attr", sp, "payload") for x in a) and any(x.k == "ref" and x.a[0].endswith("TaskState") for x in a), "envelope:payload", f.where, f"loads {show(a)}")
        else:
            kinds.add("refused")
            ok = any(c.endswith("ShapeError") for c in it.exc_mro(pl.cls))
            ctx.ob("refuse", ok, pl.cls.split(".")[-1], f.where, f"refused with {pl.cls}", trace(st))
    ctx.ob("reader", {"bare", "envelope", "refused"} <= kinds, "outcomes", f.where, f"outcomes possible: {sorted(kinds)}")
    tp = task_param(g)
    cl = Rec(p, [E("state", "__getstate__")])
    res, it = run(p, cl, g, self_cls=BS)
    ctx.absorb(it)
    for k, pl, st in res:
        if k != "return":
            continue
        ok = pl.k == "new" and pl.a[0].endswith("TaskStateEnvelope")
        ctx.ob("writer", ok, "envelope", g.where, f"writes {show(pl)}")
        if not ok:
            continue
        fields = p.dataclass_fields(pl.a[0]) if hasattr(p, "dataclass_fields") else ["entity", "version", "shape", "payload"]
        kw = dict(zip(fields, pl.a[1])) | dict(pl.a[2])
        for n in ("entity", "version"):
            r = marks.get(n, set())
            ctx.ob("writer", len(r) == 1 and same_const(p, kw.get(n), next(iter(r))), n, g.where, f"writes {n} {show(kw.get(n))}, reader accepts {[show(x) for x in r]}")
        ctx.ob("writer", kw.get("shape") is not None and show(kw["shape"]).endswith("shape.name"), "shape", g.where, f"names shape {show(kw.get('shape'))}")
        x = kw.get("payload")
        ctx.ob("writer", x is not None and contains(x, T("attr", tp, "__getstate__")), "payload", g.where, f"stores {show(x)}")
    ctx.floor("reader", 6)
    ctx.floor("refuse", 1)
    ctx.floor("writer", 4)


def same_const(p, a, b):
    if a is None or b is None:
        return False
    if a is b:
        return True

    def val(t):
        if t.k == "const":
            return t.a[0]
        if t.k == "ref":
            try:
                return p.const_of(t.a[0])
            except (ValueError, KeyError):
                return None
        return None
    return val(a) is not None and val(a) == val(b)


@prop("C31", "A file store never touches a file outside its directory",
      """The file store refuses a task id that is missing, starts with a dot, or contains a slash, backslash, colon or NUL character, before it touches
      any file. Every file it opens or deletes is named by a checked id inside its directory, or was found by listing its directory.""",
      ["inputs"],
      "every task id and every file-store operation",
      "tests try one or two forbidden ids on one or two operations",
      ["asyncz/stores/file.py"], [("check_task_id", "asyncz/stores/file.py:check_task_id"), ("operations", "asyncz/stores/file.py")],
      "must-precede dataflow from each file access to the id check; path enumeration of the check itself",
      "Every path of every operation that takes an id is enumerated; the id check is enumerated over its branch conditions.")
def c31(ctx):
    p = ctx.proj
    ctx.rule("checked", "every access to a path built from an id follows a check of that id")
    ctx.rule("inside", "such a path is the store's directory joined with the id")
    ctx.rule("refuses", "the check returns only for ids without forbidden characters or leading dot")
    fs = [c for c in backends(p) if p.method(c, "check_task_id") is not None]
    ctx.need(fs, "file store not found")
    for c in fs:
        for op in ("lookup_task", "add_task", "update_task", "delete_task"):
            f = p.method(c, op)
            tid = ident(f)
            ev = [E("check", "check_task_id", raises=["builtins.RuntimeError"]),
                  E(lambda c2: "file", ["open", "unlink", "remove", "stat", "replace", "rename", "touch", "write_bytes", "read_bytes", "exists", "link", "rmtree"], when=lambda c2: is_resource(c2) or c2.fn.k == "ref")]
            cl = Rec(p, ev, cap=3)
            res, it = run(p, cl, f, self_cls=c)
            ctx.absorb(it)
            n = 0
            for i in cl.insts:
                if i.label == "file":
                    pth = open_path(i.call) if i.call.name == "open" else (i.call.recv if i.call.recv is not None and i.call.recv.k != "ref" else i.call.arg(0))
                    if pth is None or not contains(pth, tid):
                        ctx.ob("inside", in_directory(pth), f"{c}.{op}:{i.call.name}", i.where, f"touches {show(pth)}")
                        continue
                    n += 1
                    ctx.ob("checked", "check" in i.seq, f"{c}.{op}:{i.call.name}", i.where, f"{i.call.name} of a path built from an unchecked id")
                    inside = any(x.k == "op" and x.a[0] == "Div" and x.a[1].k == "attr" and x.a[1].a[1] == "directory" for x in subterms(pth)) or any(x.k == "call" and callee(x) in ("joinpath", "join") and from_attr(x, "directory") for x in subterms(pth))
                    ctx.ob("inside", inside, f"{c}.{op}:{i.call.name}:dir", i.where, f"path is {show(pth)}")
            for i in cl.insts:
                if i.label == "check":
                    ctx.ob("checked", i.call.arg(0) is tid, f"{c}.{op}:id", i.where, f"checks {show(i.call.arg(0))}, uses {show(tid)}")
            ctx.ob("checked", n > 0, f"{c}.{op}:used", f.where, f"{op} touches no file of the id")
        for op in ("get_tasks", "get_all_tasks", "remove_all_tasks"):
            f = p.method(c, op)
            if f is None:
                continue
            cl = Rec(p, [E("file", ["open", "unlink", "remove"], when=lambda c2: is_resource(c2) or c2.fn.k == "ref")], stop={"rebuild_task"})
            res, it = run(p, cl, f, self_cls=c)
            ctx.absorb(it)
            for i in cl.insts:
                pth = open_path(i.call) if i.call.name == "open" else (i.call.recv if i.call.recv is not None and i.call.recv.k != "ref" else i.call.arg(0))
                ctx.ob("inside", in_directory(pth), f"{c}.{op}:{i.call.name}", i.where, f"touches {show(pth)}")
        # the check itself
        f = p.method(c, "check_task_id")
        prm = T("p", [x.arg for x in f.node.args.args if x.arg != "self"][0])
        cl = Rec(p, [E("startswith", "startswith")], cap=2)
        sets = set()

        def hook(lit, st, node, fr):
            kind, ts, val = lit
            if kind == "is" and ts[0] is prm and ts[1] is NONE:
                return cl.add(st, "none+" if val else "none-")
            if kind == "truth" and ts[0] is prm:
                return cl.add(st, "none-" if val else "none+")
            if kind == "truth" and ts[0].k == "call" and ts[0].a[0].k == "attr" and ts[0].a[0].a[1] == "startswith" and ts[0].a[0].a[0] is prm and ts[0].a[1] and _dotarg(ts[0].a[1][0]):
                return cl.add(st, "dot+" if val else "dot-")
            if kind == "eq" and any(x.k == "idx" and x.a[0] is prm for x in ts) and const(".") in ts:
                return cl.add(st, "dot+" if val else "dot-")
            if kind == "in" and ts[0].k == "elem" and ts[0].a[0] is prm:
                sets.add(ts[1])
                return cl.add(st, "bad+" if val else "bad-")
            if kind == "in" and ts[1] is prm and ts[0].k == "elem":
                sets.add(ts[0].a[0])
                return cl.add(st, "bad+" if val else "bad-")
            if kind == "truth" and ts[0].k in ("comp", "call") and contains(ts[0], prm):
                fc = [x for x in subterms(ts[0]) if x.k == "attr" and x.a[1] == "forbidden_characters"]
                if fc:
                    sets.add(fc[0])
                    inv = "isdisjoint" in show(ts[0])
                    return cl.add(st, "bad+" if val != inv else "bad-")
            return st
        cl.assume_hook = hook
        res, it = run(p, cl, f, self_cls=c)
        ctx.absorb(it)
        got = set()
        for k, pl, st in res:
            s = set(seq(st))
            if k == "return":
                ctx.ob("refuses", "dot-" in s and "none-" in s and not {"bad+", "dot+", "none+"} & s, "accepts", f.where, "an id is accepted with " + " ".join(sorted(s)), trace(st))
            else:
                got |= {x for x in s if x.endswith("+")}
        ctx.ob("refuses", {"none+", "dot+", "bad+"} <= got, "rejects", f.where, f"refusals possible for {sorted(got)}")
        want = {"/", "\\", "\x00", ":"}
        for t in sets:
            v = None
            if t.k in ("set", "tuple", "list"):
                v = {x.a[0] for x in t.a[0] if x.k == "const"}
            elif t.k == "const" and isinstance(t.a[0], str):
                v = set(t.a[0])
            elif t.k in ("attr", "ref"):
                v = class_const(p, c, t.a[1] if t.k == "attr" else t.a[0].split(".")[-1])
            ctx.ob("refuses", v is not None and want <= v, "characters", f.where, f"forbidden characters are {sorted(v) if v else show(t)}")
        ctx.ob("refuses", bool(sets), "characters:used", f.where, "no character of the id is refused")
        # iterating over the whole id
    ctx.floor("checked", 4)
    ctx.floor("refuses", 3)


def _dotarg(t):
    return t is const(".") or t.k in ("tuple", "list") and const(".") in t.a[0]


def class_const(p, c, name):
    for q in p.mro(c):
        ci = p.classes.get(q)
        if ci is None:
            continue
        for n in ci.node.body:
            tg = n.target if isinstance(n, ast.AnnAssign) else n.targets[0] if isinstance(n, ast.Assign) else None
            if isinstance(tg, ast.Name) and tg.id == name and n.value is not None:
                v = n.value
                if isinstance(v, ast.Call) and v.args:
                    v = v.args[0]
                try:
                    return set(ast.literal_eval(v))
                except ValueError:
                    return None
    return None


@prop("C32", "Task files are read and written completely under their file lock",
      """The file store takes the exclusive file lock before it changes a task file's content and has written the content out before the lock is
      released, also when the write fails; it reads a task file's content only under the shared lock. The lock is always released.""",
      ["schedules", "fault_sequences"],
      "every interleaving of file-store operations of several processes; every failing write",
      "a torn read needs a second process at the right moment between buffered write, lock release and close",
      ["asyncz/stores/file.py", "asyncz/file_locking.py"], [("add_task/update_task/get_tasks", "asyncz/stores/file.py"), ("with_lock", "asyncz/file_locking.py:with_lock")],
      "path-sensitive lock-section dataflow including failing operations",
      "Every path of every operation is enumerated with lock, write, flush and unlock events. The moment between creating a file and locking it, and crashes, are not decided.")
def c32(ctx):
    p = ctx.proj
    ctx.rule("write", "content changes only under the exclusive lock and is flushed before the release")
    ctx.rule("read", "content is read only under a lock")
    ctx.rule("release", "the lock is released on every path, exactly once")
    fs = [c for c in backends(p) if p.method(c, "check_task_id") is not None]
    ctx.need(fs, "file store not found")
    for c in fs:
        for op in ("add_task", "update_task", "lookup_task", "get_tasks"):
            f = p.method(c, op)
            if f is None:
                continue
            isfl = lambda c2: c2.fn.k in ("func", "ref") and "file_locking" in c2.fn.a[0] or (c2.recv is not None and show(c2.recv).endswith("file_locking"))
            ev = [E(lambda c2: "lockx" if "LOCK_EX" in show(c2.args) else "locks" if "LOCK_SH" in show(c2.args) else "lock?", "lock", when=isfl),
                  E("unlock", "unlock", when=isfl),
                  E("data", "write", when=is_resource, raises=["builtins.OSError"]), E("trunc", "truncate", when=is_resource),
                  E("flush", "flush", when=is_resource), E("read", ["read", "readall"], when=is_resource, raises=["builtins.OSError"]),
                  E("open", "open", when=lambda c2: is_resource(c2) or c2.fn.k == "ref")]
            cl = Rec(p, ev, cap=2, stop={"rebuild_task", "serialize_task_state", "conditional_encrypt"})
            cl.iter_rel = True
            res, it = run(p, cl, f, self_cls=c)
            ctx.absorb(it)
            cons = f"{c}.{op}"
            unbuf = any(i.label == "open" and any(v is const(0) for v in list(i.call.args) + [v for k, v in i.call.kw if k == "buffering"]) for i in cl.insts)
            n = 0
            for s, st in [(list(seq(st)), st) for k, pl, st in res] + [(list(seq(st)), st) for itm, st, node, fn in cl.iters]:
                held, dirty = [], False
                for x in s:
                    if x in ("lockx", "locks"):
                        held.append(x)
                    elif x == "unlock":
                        ctx.ob("release", bool(held), cons, f.where, "unlocked twice: " + " ".join(s), trace(st))
                        ctx.ob("write", not dirty, cons + ":flushed", f.where, "the lock is released before the content is written out: " + " ".join(s), trace(st))
                        held = held[:-1]
                    elif x == "data":
                        n += 1
                        ctx.ob("write", "lockx" in held, cons, f.where, "content written without the exclusive lock: " + " ".join(s), trace(st))
                        dirty = not unbuf
                    elif x == "trunc":
                        ctx.ob("write", "lockx" in held, cons + ":truncate", f.where, "content truncated without the exclusive lock: " + " ".join(s), trace(st))
                    elif x == "flush":
                        dirty = False
                    elif x == "read":
                        n += 1
                        ctx.ob("read", bool(held), cons, f.where, "content read without a lock: " + " ".join(s), trace(st))
                ctx.ob("release", not held, cons, f.where, "the lock is not released: " + " ".join(s), trace(st))
            ctx.ob("write" if op in ("add_task", "update_task") else "read", n > 0, cons + ":any", f.where, "no content access found")
    ctx.floor("write", 4)
    ctx.floor("read", 2)


RELEASE = {"dispose": "engine", "disconnect": "redis", "close": "client"}


@prop("C33", "Shutting a store down releases its connection and its lock",
      """Shutting down a store releases the store's own resource (database engine, connection pool, client) exactly once, and runs the base shutdown,
      which closes the store lock, exactly once. The file store deletes its directory only when cleanup was asked for, and the memory store forgets
      its tasks.""",
      ["configurations"],
      "every store class and configuration",
      "a store that leaks its connection or lock at shutdown passes every functional test",
      F, [("shutdown", "asyncz/stores/*.py")],
      "must-call dataflow over the class hierarchy",
      "Every path of every shutdown implementation is enumerated.")
def c33(ctx):
    p = ctx.proj
    ctx.rule("resource", "the resource the store opened is released exactly once")
    ctx.rule("base", "the base shutdown closes the lock exactly once")
    ctx.rule("cleanup", "the directory is deleted iff cleanup_directory, tasks of the memory store are dropped")
    for c in backends(p):
        f = p.method(c, "shutdown")
        ev = [E("lock", "shutdown", when=lambda c2: c2.recv is not None and c2.recv.k == "attr" and c2.recv.a[1] == "lock"),
              E(lambda c2: "rel:" + RELEASE[c2.name], list(RELEASE), when=lambda c2: c2.recv is not None and from_attr(c2.recv, "engine", "redis", "client")),
              E("rmtree", "rmtree"), M(lambda op, k, v: "i0" if op in ("rebind", "clear") else "i?", list(INDEX)), M(lambda op, k, v: "t0" if op in ("rebind", "clear") else "t?", ["tasks"])]
        cl = Rec(p, ev, cap=3)

        def hook(lit, st, node, fr):
            if lit[0] == "truth" and lit[1][0].k == "attr" and lit[1][0].a[1] == "cleanup_directory":
                return cl.add(st, "clean+" if lit[2] else "clean-")
            if lit[0] == "truth" and lit[1][0].k == "attr" and lit[1][0].a[1] == "lock" and not lit[2]:
                return cl.add(st, "nolock")
            return st
        cl.assume_hook = hook
        res, it = run(p, cl, f, self_cls=c)
        ctx.absorb(it)
        attrs = {n.attr for q in p.mro(c) if q in p.classes and q != BS for n in ast.walk(p.classes[q].node) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self"}
        own = attrs & {"engine", "redis", "client"}
        for k, pl, st in res:
            s = list(seq(st))
            ctx.ob("base", k == "return" and (s.count("lock") == 1 or "nolock" in s), c, f.where, f"the lock is closed {s.count('lock')} times: " + " ".join(s), trace(st))
            for r in own:
                ctx.ob("resource", s.count("rel:" + r) == 1, f"{c}:{r}", f.where, f"{r} is released {s.count('rel:' + r)} times", trace(st))
            if "cleanup_directory" in attrs:
                ctx.ob("cleanup", ("rmtree" in s) == ("clean+" in s) and ("clean+" in s or "clean-" in s), c, f.where, "directory cleanup: " + " ".join(s), trace(st))
            if "tasks_index" in attrs:
                ctx.ob("cleanup", "i0" in s and "t0" in s, c, f.where, "tasks are kept: " + " ".join(s), trace(st))
    ctx.floor("base", 5)
    ctx.floor("resource", 3)
