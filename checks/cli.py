"""The command line: what each command does to its scheduler, and what its options mean."""
import ast

from checks.remote import bound, params

from checks._common import *  # noqa: F401,F403
from sa.report import prop

CM = "asyncz.cli.commands"
CF = "asyncz/cli/commands/"
SCHED = "asyncz.schedulers.asyncio.AsyncIOScheduler"


def commands(p):
    """{command function name: FuncInfo} of the functions decorated with @command"""
    out = {}
    for q, f in sorted(p.functions.items()):
        if f.module.name.startswith(CM) and any((d.func if isinstance(d, ast.Call) else d).__class__ in (ast.Name, ast.Attribute) and ast.unparse(d.func if isinstance(d, ast.Call) else d).split(".")[-1] == "command" for d in f.node.decorator_list):
            out[f.module.name.split(".")[-1]] = f
    return out


def methods(p):
    """the public methods of the scheduler"""
    return {m for k in p.mro(SCHED) if k in p.classes for m in p.classes[k].methods if not m.startswith("_")}


def temp(t):
    return t is not None and t.k == "new" and t.a[0].split(".")[-1] == "AsyncIOScheduler"


def booted(t):
    return t is not None and t.k == "call" and t.a[0].k in ("ref", "func") and t.a[0].a[0].split(".")[-1] == "load_bootstrap_scheduler"


class Cmd(Rec):
    """runs a command's coroutine; what it ends with is in .outs"""
    def __init__(self, p, fail=True, extra=(), small=400):
        r = (OTHER,) if fail else ()
        mine = lambda c: temp(c.recv) or booted(c.recv)
        super().__init__(p, list(extra) + [
            E("", ["run_until_complete", "run"], ret=self.go, when=lambda c: any(x.k == "coro" for x in c.args)),
            E("boot", ["load_bootstrap_scheduler"], raises=r),
            E(lambda c: "stop" if temp(c.recv) else "stopboot", ["shutdown"], when=mine, raises=()),
            E(lambda c: "start" if temp(c.recv) else "startboot", ["start"], when=mine, raises=r),
            E(lambda c: "op:" + c.name, sorted(methods(p) - {"start", "shutdown"}), when=mine, raises=r),
            E(lambda c: "task:" + c.name, TASKOPS, when=lambda c: c.recv is not None and from_call(c.recv, *READS) and not any(map(copied, subterms(c.recv))), raises=r),
            E("confirm", ["confirm"], raises=r),
            E("say", ["success"], raises=r),
            E("", ["import_callable", "loads", "parse_trigger", "info", "print", "echo", "build_stores_map", "dumps"], raises=r),
        ], cap=2, small=small, stop=("load_bootstrap_scheduler", "import_callable", "parse_trigger", "build_stores_map", "ensure_loop"))
        self.max_depth = 40
        self.merge_by_ts = True
        self.outs = []
        self.writes = []

    def go(self, c, st):
        for a in c.args:
            if a.k == "coro":
                self.outs += self.invoke_coro(c, a, st)
        return [(self.default_term(c), st)]

    def invoke_coro(self, c, v, st):
        from sa.interp import Frame
        fr = Frame(c.func, c.stack)
        fn, recv = c.interp.target(v.a[1])
        rs = c.interp.inline_call(fn, recv, v.a[2], v.a[3], st, fr, c.node, closure=v.a[1] if v.a[1].k == "closure" else None)
        return [("ok", v, x) for v, x in rs] + [("raise", e, x) for e, x in fr.sink]

    def attr_write(self, base, name, value, st, node, fr):
        if temp(base) or booted(base) or from_call(base, *READS) and not any(map(copied, subterms(base))):
            self.writes.append((name, "%s:%d" % (fr.func.module.rel, node.lineno)))
        return super().attr_write(base, name, value, st, node, fr)

    def applied(self, key, value, st):
        return self.add(st, "applied") if key.k == "const" and key.a[0] == "applied" and value is not FALSE else st

    def sub_write(self, base, key, value, st, node, fr):
        return self.applied(key, value, super().sub_write(base, key, value, st, node, fr))

    def on_dict(self, pairs, st, node, fr):
        for k, v in pairs:
            st = self.applied(k, v, st) if k is not None else st
        return st


READS = ("get_task", "get_tasks", "get_task_info", "get_task_infos", "lookup_task")
TASKOPS = ["pause", "resume", "delete", "remove", "reschedule", "update_task", "submit", "run"]
READERS = ("list", "preview", "timeline", "status", "doctor", "instances", "inspect")
PASSIVE = ("status", "doctor", "instances")
WRITERS = {"add": "add_task", "run": "run_task", "pause": "pause_task", "resume": "resume_task", "remove": "delete_task", "update": "update_task"}
MODES = {"a temporary scheduler": NONE, "--bootstrap": const("app:Spec")}


def copied(t):
    return t.k == "call" and callee(t) in ("model_copy", "copy", "deepcopy")


def from_call(t, *names):
    return any(x.k == "call" and callee(x) in names for x in subterms(t))


def outcomes(ctx, name, mode, consts=None, extra=()):
    p = ctx.proj
    f = commands(p).get(name)
    if f is None:
        ctx.ob("C.found", False, "asyncz " + name, CF + name + ".py", "the command is defined in asyncz/cli/commands")
        return None, None, None
    given = {"bootstrap": MODES[mode]}
    given.update(consts or {})
    given = {k: v for k, v in given.items() if k in params(f)}
    cl = Cmd(p, extra=extra)
    res, it = run(p, cl, f, args=given, max_states=20000)
    ctx.absorb(it)
    ctx.ob("C.run", bool(cl.outs), "asyncz %s" % name, f.where, "the command runs its coroutine to completion on the event loop")
    return f, cl, cl.outs


def seqs(outs, kind=None):
    return sorted({o[2].ts[1] for o in outs if kind in (None, o[0])})


@prop("C70", "A CLI command always shuts down the scheduler it created, and no other",
      "Every command that builds a temporary scheduler (all but `start` and `version`) shuts it down exactly once, as its last action on it, whether the operation succeeds or fails at any point after the scheduler was started. A scheduler obtained through --bootstrap is never shut down.",
      "every command with a --bootstrap option except start; both scheduler sources; a failure of any scheduler call, conversion or output step", "forall paths",
      "A temporary scheduler that stays up keeps its executors' threads, its store connections and its store locks until the process ends, and stopping the application's own scheduler from a management command stops its tasks; tests only run the successful path.",
      [CF + "%s.py" % n for n in ("add", "run", "pause", "resume", "remove", "update", "list", "preview", "timeline", "status", "doctor", "instances", "inspect")],
      [("asyncio scheduler shutdown", "asyncz/schedulers/asyncio.py")],
      "path-sensitive abstract interpretation of each command's coroutine, once per scheduler source, with a failure injected at every call; typestate of the scheduler object (started, used, shut down)",
      "A command may or may not shut down a temporary scheduler whose start() itself failed.")
def c70(ctx):
    ctx.rule("C.found", "the command exists")
    ctx.rule("C.run", "the command's coroutine is run")
    ctx.rule("C70.stop", "on every path on which a temporary scheduler was started it is shut down exactly once, after the last operation on it")
    ctx.rule("C70.boot", "no path shuts down a scheduler obtained from load_bootstrap_scheduler")
    ctx.rule("C70.shape", "each scheduler source is really used: the temporary one is started without --bootstrap, the bootstrap one loaded with it")
    n = 0
    for name in sorted(set(WRITERS) | set(READERS)):
        for mode in MODES:
            f, cl, outs = outcomes(ctx, name, mode)
            if not outs:
                continue
            ss = seqs(outs)
            where = f.where
            what = "asyncz %s with %s" % (name, mode)
            n += len(ss)
            ctx.ob("C70.shape", any(("start" if mode[0] == "a" else "boot") in s for s in ss), what, where, "the scheduler this mode names is the one the command uses")
            bad = [s for s in ss if "start" in s and (s.count("stop") != 1 or s[-1] != "stop")]
            ctx.ob("C70.stop", not bad, what, where, "paths that started the temporary scheduler end in one shutdown", trace=[" -> ".join(bad[0])] if bad else None)
            bad = [s for s in ss if "stopboot" in s]
            ctx.ob("C70.boot", not bad, what, where, "the application's scheduler is not shut down", trace=[" -> ".join(bad[0])] if bad else None)
    ctx.stat("distinct operation sequences", n)
    ctx.floor("C70.stop", 2 * len(set(WRITERS) | set(READERS)))


def readonly(label):
    return label in ("boot", "start", "startboot", "stop", "say", "confirm", "op:preview_task_runs", "op:lookup_task") or label.startswith("op:get_") or label.rstrip("!") != label and readonly(label.rstrip("!"))


@prop("C71", "CLI inspection commands change nothing, and update asks before it writes",
      "list, preview, timeline, status, doctor, instances and inspect only read: they call nothing on the scheduler but its inspection methods and change no task; status, doctor and instances do not even start a --bootstrap scheduler. `update` calls update_task, and reports it applied, only without --dry-run and only after --yes or a confirmation, and it changes nothing before that.",
      "every path of the inspection commands and of update, for both scheduler sources and every combination of --dry-run, --yes and --json", "forall paths",
      "An operator inspects production stores with these commands; a write on some path (an error path, a JSON mode, a flag combination) is not noticed by a test that checks the output.",
      [CF + "%s.py" % n for n in READERS + ("update",)],
      [("scheduler inspection", "asyncz/schedulers/base.py")],
      "abstract interpretation of each command with the calls on its scheduler and on the tasks it read as effects; for update one run per flag combination with the flags as constants",
      "That the scheduler's inspection methods themselves change nothing is C31. Changes to a copy of a task (model_copy) are not changes to the task.")
def c71(ctx):
    ctx.rule("C.found", "the command exists")
    ctx.rule("C.run", "the command's coroutine is run")
    ctx.rule("C71.reads", "an inspection command calls only inspection methods on its scheduler and no mutating method of a task it read")
    ctx.rule("C71.writes", "it assigns no attribute of the scheduler or of such a task")
    ctx.rule("C71.passive", "status, doctor and instances never start a bootstrap scheduler")
    ctx.rule("C71.gate", "update_task is reached only with --dry-run off and --yes on or after a confirmation that returned")
    ctx.rule("C71.only", "update does nothing else that changes a task or the scheduler")
    ctx.rule("C71.applied", "update reports `applied` as true only after update_task returned")
    n = 0
    for name in READERS:
        for mode in MODES:
            f, cl, outs = outcomes(ctx, name, mode)
            if not outs:
                continue
            ss = seqs(outs)
            n += len(ss)
            where, what = f.where, "asyncz %s with %s" % (name, mode)
            bad = [s for s in ss if not all(readonly(x) for x in s)]
            ctx.ob("C71.reads", not bad, what, where, "only inspection methods are called", trace=[" -> ".join(bad[0])] if bad else None)
            ctx.ob("C71.writes", not cl.writes, what, cl.writes[0][1] if cl.writes else where, "no attribute is assigned" + (" (%s)" % cl.writes[0][0] if cl.writes else ""))
            if name in PASSIVE:
                bad = [s for s in ss if any(x.startswith("startboot") for x in s)]
                ctx.ob("C71.passive", not bad, what, where, "a bootstrap scheduler is inspected as it is", trace=[" -> ".join(bad[0])] if bad else None)
    for mode in MODES:
        for dry in (TRUE, FALSE):
            for yes in (TRUE, FALSE):
                for js in (TRUE, FALSE):
                    f, cl, outs = outcomes(ctx, "update", mode, {"dry_run": dry, "yes": yes, "as_json": js})
                    if not outs:
                        continue
                    ss = seqs(outs)
                    n += len(ss)
                    what = "asyncz update (%s%s%s) with %s" % ("--dry-run " if dry is TRUE else "", "--yes " if yes is TRUE else "", "--json" if js is TRUE else "", mode)
                    where = f.where

                    def early(s):
                        i = [k for k, x in enumerate(s) if x.startswith("op:update_task")]
                        return i and (dry is TRUE or yes is FALSE and "confirm" not in s[:i[0]])
                    bad = [s for s in ss if early(s)]
                    ctx.ob("C71.gate", not bad, what, where, "nothing is applied before it was asked for", trace=[" -> ".join(bad[0])] if bad else None)
                    if dry is FALSE:
                        ctx.ob("C71.gate", any("op:update_task" in s for s in seqs(outs, "ok")), what + ": applies", where, "the update is applied when it was asked for")
                    bad = [s for s in ss if not all(readonly(x) or x.startswith(("op:update_task", "applied")) for x in s)]
                    ctx.ob("C71.only", not bad and not cl.writes, what, where, "no other change", trace=[" -> ".join(bad[0])] if bad else None)
                    bad = [s for s in ss if "applied" in s and "op:update_task" not in s[:s.index("applied")]]
                    ctx.ob("C71.applied", not bad, what, where, "applied only after the update", trace=[" -> ".join(bad[0])] if bad else None)
    ctx.stat("distinct operation sequences", n)
    ctx.floor("C71.gate", 16)


def args_of(cl, p, op, label=None):
    """[(bound parameters, instance)] of the calls of a scheduler method"""
    f = p.method(SCHED, op)
    sig = params(f) if f is not None else []
    return [(bound(i.call, sig), i) for i in cl.insts if i.label == "op:" + op]


def alone(outs):
    return [o for o in outs if o[0] == "ok"]


PATHS = ("analysis of the command with its options set to distinguishable constants; the arguments that reach the scheduler method are compared with them")
ONE = {"run": ("run_task", ()), "pause": ("pause_task", ()), "resume": ("resume_task", ()), "remove": ("delete_task", ("lookup_task",))}
STORE = T("tuple", (const("durable=sqlite:///x"),))
UPDATES = {"name": ("name", const("@n")), "callable_path": ("fn", const("@m:f")), "args": ("args", const("[1]")), "kwargs": ("kwargs", const("{}")), "executor": ("executor", const("@e")),
           "coalesce": ("coalesce", const("true")), "max_instances": ("max_instances", const(7)), "mistrigger_grace_time": ("mistrigger_grace_time", const(7.5)), "clear_mistrigger_grace_time": ("mistrigger_grace_time", TRUE)}
FILTERS = {"executor": "executor", "trigger": "trigger", "q": "q", "sort_by": "sort_by", "descending": "descending", "state": "schedule_state"}


def parts(t):
    return [y for x in t.a[0] for y in parts(x)] if t is not None and t.k == "phi" else [t]


def is_call(t, name, *args):
    return t is not None and t.k == "call" and callee(t) == name and all(any(a is x for x in list(t.a[1]) + [v for _, v in t.a[2]]) for a in args)


@prop("C72", "Each CLI command does its one operation, on what its options name",
      "run, pause, resume and remove perform exactly one scheduler operation, theirs, on the given task id (remove in the store that holds it); add adds the named callable once, with the given id, name, arguments and trigger, to the first given store; update passes on exactly the given options; list, inspect and preview ask for exactly the given filters, id and count. A command that ends normally has completed its operation, and inspect and preview of an unknown task fail. The scheduler is the --bootstrap one if given, otherwise one over the --store options.",
      "all options of these commands, each given or not; both scheduler sources; failure of any step", "forall inputs x paths",
      "A dropped or crossed option (a filter passed as another, an option ignored with --bootstrap, an operation run twice) acts on the wrong task or store without an error.",
      [CF + "%s.py" % n for n in ("add", "run", "pause", "resume", "remove", "update", "list", "preview", "inspect")],
      [("scheduler API", "asyncz/schedulers/base.py")],
      "abstract interpretation of each command with its options as distinguishable constants: the sequence of scheduler operations on every path and the provenance of each of their arguments",
      "What parse_trigger, build_stores_map, import_callable and json.loads return is not part of this property (the option syntax is C73).")
def c72(ctx):
    p = ctx.proj
    for r, t in {"C.found": "the command exists", "C.run": "the command's coroutine is run",
                 "C72.once": "a command that ends normally called its scheduler operation exactly once, and it did not fail",
                 "C72.nothing-else": "no path calls another operation that changes tasks",
                 "C72.arg": "each argument of the operation is the value of the option of that meaning",
                 "C72.source": "the operation is called on the bootstrap scheduler when --bootstrap is given, otherwise on a scheduler over exactly the --store options",
                 "C72.unknown": "an unknown task id makes the command fail"}.items():
        ctx.rule(r, t)

    def source(what, f, recv, mode):
        if mode[0] == "a":
            kw = dict(recv.a[2]) if temp(recv) else {}
            ok = temp(recv) and all(is_call(x, "build_stores_map", STORE) for x in parts(kw.get("stores")))
        else:
            ok = booted(recv) and recv.a[1] and recv.a[1][0] is MODES[mode]
        ctx.ob("C72.source", ok, what, f.where, "called on %s" % show(recv)[:120])

    def arg(what, where, name, ok, got):
        ctx.ob("C72.arg", ok, what + ":" + name, where, "%s is %s" % (name, show(got)[:120] if got is not None else "not passed"))

    for mode in MODES:
        for name, (op, helpers) in ONE.items():
            what = "asyncz %s with %s" % (name, mode)
            f, cl, outs = outcomes(ctx, name, mode, {"job_id": const("@id"), "store": STORE})
            if not outs:
                continue
            once(ctx, what, f, outs, op, helpers)
            for b, i in args_of(cl, p, op):
                arg(what, i.where, "task_id", b.get("task_id") is const("@id"), b.get("task_id"))
                source(what, f, i.call.recv, mode)
                s = b.get("store")
                arg(what, i.where, "store", s in (None, NONE) or s.k == "idx" and s.a[1] is const(1) and is_call(s.a[0], "lookup_task", const("@id")), s)
        # add
        given = {"callable_path": const("@m:f"), "job_id": const("@id"), "name": const("@n"), "args": const("[1]"), "kwargs": const("{}"), "store": STORE}
        for one in ("cron", "interval", "at"):
            what = "asyncz add --%s with %s" % (one, mode)
            f, cl, outs = outcomes(ctx, "add", mode, dict(given, **{x: const("@t") if x == one else NONE for x in ("cron", "interval", "at")}))
            if not outs:
                continue
            once(ctx, what, f, outs, "add_task", ())
            for b, i in args_of(cl, p, "add_task"):
                fn = next((b[x] for x in ("fn_or_task", "fn_or_trigger", "fn") if x in b), None)
                arg(what, i.where, "callable", is_call(fn, "import_callable", const("@m:f")), fn)
                arg(what, i.where, "id", b.get("id") is const("@id"), b.get("id"))
                arg(what, i.where, "name", b.get("name") is const("@n"), b.get("name"))
                arg(what, i.where, "args", is_call(b.get("args"), "loads", const("[1]")), b.get("args"))
                arg(what, i.where, "kwargs", is_call(b.get("kwargs"), "loads", const("{}")), b.get("kwargs"))
                t = b.get("trigger")
                kw = dict(t.a[2]) if is_call(t, "parse_trigger") else {}
                arg(what, i.where, "trigger", kw.get(one) is const("@t") and all(kw.get(x, NONE) is NONE for x in ("cron", "interval", "at") if x != one), t)
                if mode[0] == "a":
                    s = b.get("store")
                    arg(what, i.where, "store", s is not None and any(is_call(x, "build_stores_map", STORE) for x in subterms(s)), s)
                source(what, f, i.call.recv, mode)
        # update
        for opt, (key, val) in UPDATES.items():
            what = "asyncz update --%s with %s" % (opt.replace("_", "-"), mode)
            given = {x: FALSE if x.startswith("clear") else NONE for x in UPDATES}
            given.update({opt: val, "job_id": const("@id"), "yes": TRUE, "dry_run": FALSE, "as_json": FALSE, "store": STORE})
            f, cl, outs = outcomes(ctx, "update", mode, given)
            if not outs:
                continue
            calls = args_of(cl, p, "update_task")
            ctx.ob("C72.arg", bool(calls), what, f.where, "the update is applied")
            for b, i in calls:
                v = b.get(key)
                ok = v is not None and all(x is val or x is NONE and opt[:5] == "clear" or is_call(x, "loads", val) or opt == "coalesce" and x is TRUE for x in parts(v))
                arg(what, i.where, key, ok, v)
                extra = sorted(set(b) - {"task_id", "store", key})
                arg(what, i.where, "nothing else", not extra, b.get(extra[0]) if extra else None)
                arg(what, i.where, "task_id", b.get("task_id") is const("@id"), b.get("task_id"))
                s = b.get("store")
                arg(what, i.where, "store", s in (None, NONE) or s.k == "idx" and s.a[1] is const(1) and is_call(s.a[0], "lookup_task", const("@id")), s)
                source(what, f, i.call.recv, mode)
        # list
        for opt, par in FILTERS.items():
            what = "asyncz list --%s with %s" % (opt.replace("_", "-"), mode)
            given = {x: NONE for x in ("state", "executor", "trigger", "q")}
            given.update({"sort_by": const("@s"), "descending": FALSE, "as_json": FALSE, "store": STORE})
            val = TRUE if opt == "descending" else const("@v")
            given[opt] = val
            f, cl, outs = outcomes(ctx, "list", mode, given)
            if not outs:
                continue
            calls = args_of(cl, p, "get_task_infos")
            ctx.ob("C72.arg", bool(calls), what, f.where, "the tasks are read")
            for b, i in calls:
                for o, q in FILTERS.items():
                    v, want = b.get(q), given[o]
                    ok = v is want or want is NONE and v is None or q == "schedule_state" and want is not NONE and v is not None and contains(v, want)
                    ok = ok or v is None and (o, want) in (("descending", FALSE),)
                    arg(what, i.where, q, ok, v)
                extra = sorted(set(b) - set(FILTERS.values()))
                arg(what, i.where, "nothing else", not extra or all(b[x] is NONE for x in extra), b.get(extra[0]) if extra else None)
                source(what, f, i.call.recv, mode)
        # inspect, preview
        for name in ("inspect", "preview"):
            what = "asyncz %s with %s" % (name, mode)
            f, cl, outs = outcomes(ctx, name, mode, {"job_id": const("@id"), "count": const(7), "as_json": FALSE, "store": STORE})
            if not outs:
                continue
            calls = args_of(cl, p, "preview_task_runs")
            ctx.ob("C72.arg", bool(calls), what, f.where, "the runs are previewed")
            for b, i in calls + args_of(cl, p, "get_task") + args_of(cl, p, "get_task_info"):
                arg(what, i.where, "task_id", b.get("task_id") is const("@id"), b.get("task_id"))
                source(what, f, i.call.recv, mode)
            for b, i in calls:
                arg(what, i.where, "count", b.get("count") is const(7), b.get("count"))
            none = [E("op:" + m, m, ret=lambda c, st: [NONE], when=lambda c: temp(c.recv) or booted(c.recv)) for m in ("get_task", "get_task_info", "preview_task_runs")]
            f, cl, outs = outcomes(ctx, name, mode, {"job_id": const("@id"), "count": const(7), "store": STORE}, extra=none)
            bad = seqs(outs, "ok")
            ctx.ob("C72.unknown", not bad, what, f.where, "no normal end", trace=[" -> ".join(bad[0])] if bad else None)
    ctx.floor("C72.arg", 100)
    ctx.floor("C72.once", 2 * 7)


def once(ctx, what, f, outs, op, helpers):
    ss = seqs(outs, "ok")
    bad = [s for s in ss if s.count("op:" + op) != 1 or "op:%s!" % op in s]
    ctx.ob("C72.once", ss and not bad, what, f.where, "%s is called once" % op, trace=[" -> ".join(bad[0])] if bad else None)
    bad = [s for s in seqs(outs) if not all(readonly(x) or x.rstrip("!") == "op:" + op for x in s)]
    ctx.ob("C72.nothing-else", not bad, what, f.where, "only %s changes anything" % op, trace=[" -> ".join(bad[0])] if bad else None)


UT = "asyncz.cli.utils."
SPECS = {   # documented form: (alias, type, {key: value or attribute of the parsed URL})
    "default=memory": ("default", "memory", {}),
    "memory": ("default", "memory", {}),
    "durable=file:///tmp/asyncz-store": ("durable", "file", {"directory": "/tmp/asyncz-store"}),
    "durable=sqlite:///scheduler.db": ("durable", "sqlalchemy", {"database": "sqlite:///scheduler.db"}),
    "pg=postgresql://u@h/db?sslmode=require": ("pg", "sqlalchemy", {"database": "postgresql://u@h/db?sslmode=require"}),
    "cache=redis://localhost:6379/0": ("cache", "redis", {"host": ("hostname",), "port": ("port",), "database": ("path",), "username": ("username",), "password": ("password",)}),
    "durable=mongodb://localhost:27017/asyncz": ("durable", "mongodb", {"host": "mongodb://localhost:27017/asyncz", "database": ("path",)}),
}
CLIENT = {"redis": {"host", "port", "username", "password", "ssl", "unix_socket_path"}, "mongodb": {"host", "port", "username", "password"}, "mongo": {"host", "port"}}
EXECS = {"default=asyncio": ("default", "asyncio", None), "io=thread:8": ("io", "threadpool", 8), "cpu=process:4": ("cpu", "processpool", 4), "io=thread": ("io", "threadpool", None), "debug=debug": ("debug", "debug", None)}


def entries_of(res_st, d):
    """{key term: value term} of a dictionary, with what was stored in it"""
    out = dict(d.a[0]) if d.k == "dict" else {}
    for (b, n), v in res_st.heap.items():
        if b is d and isinstance(n, tuple) and len(n) == 2 and n[0] == "[]":
            out[n[1]] = v
    return {k: v for k, v in out.items() if v.k != "absent"}


def maps(ctx, fn, par, spec):
    """[(exception or None, {key: value}, state)] of a spec-list to configuration function on constant specs"""
    p = ctx.proj
    f = p.functions.get(UT + fn)
    ctx.need(f is not None, "%s not found" % fn)
    cl = Rec(p, [], cap=1, inline_all=True)
    res, it = run(p, cl, f, args={params(f)[0]: T("tuple", tuple(map(const, spec)))})
    ctx.absorb(it)
    out = []
    for k, v, st in res:
        if k == "raise":
            out.append((exc_name(v), {}, st))
        else:
            out.append((None, entries_of(st, v) if v.k in ("dict", "newdict") else {}, st))
    return f, out


def accepted(p, q):
    """(accepted, required) parameters of a class's constructor"""
    init = p.method(q, "__init__")
    if init is None:
        return set(), set()
    ps = [x for x in params(init)]
    a = init.node.args
    d = {x.arg for x in (a.posonlyargs + a.args)[len(a.posonlyargs + a.args) - len(a.defaults):]} | {x.arg for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None}
    return set(ps), set(ps) - d


def registry(p, name):
    """{plugin name: class qualified name} of the default plugins"""
    out = {}
    m = p.modules.get("asyncz.schedulers.defaults")
    for n in ast.walk(m.tree) if m else ():
        if isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(n.value, ast.Dict):
            t = n.targets[0] if isinstance(n, ast.Assign) else n.target
            if isinstance(t, ast.Name) and t.id == name:
                for k, v in zip(n.value.keys, n.value.values):
                    if isinstance(k, ast.Constant) and isinstance(v, ast.Constant):
                        out[k.value] = v.value.replace(":", ".")
    return out


def value_ok(want, got):
    if isinstance(want, tuple):
        return got is not None and any(x.k == "attr" and x.a[1] in want for x in subterms(got))
    return got is const(want) or got is not None and got.k == "call" and callee(got) in ("int", "str") and got.a[1] and got.a[1][0] is const(str(want))


@prop("C73", "CLI store, executor and trigger options mean what the documentation says",
      "Every documented --store form yields, under its alias, a registered store type with arguments that store's constructor takes, carrying the path, URL or host, port and database of the spec; a spec without a value is rejected; every given store is kept. --executor yields the executor class of its type with the given worker count. Exactly one of --cron, --interval and --at is accepted and builds that trigger. Each entry of a --module or --config registry becomes one task of the started scheduler.",
      "every store, executor and trigger form of docs/en/docs/cli.md; every registry entry; every combination of start's options", "forall inputs (documented forms) x paths",
      "A spec that resolves to the wrong store silently operates on another (empty) store; a registry entry that is dropped never runs. Tests use sqlite specs only.",
      ["asyncz/cli/utils.py", "asyncz/cli/_parsers.py", "asyncz/cli/types.py", "asyncz/cli/loader.py", CF + "start.py"],
      [("store constructors", "asyncz/stores"), ("plugin registry", "asyncz/schedulers/defaults.py")],
      "constant propagation of each documented form through the parsing functions, compared with the plugin registry and the constructors' parameters; abstract interpretation of the loaders and of start",
      "The URL of a form is a representative constant; host, port, database and credentials are recognised as the components of the parsed URL. Parsing of the interval text itself is left to tests.")
def c73(ctx):
    p = ctx.proj
    for r, t in {"C73.store": "a documented store form yields its alias and a registered store type", "C73.accepts": "the arguments of a store or executor configuration are parameters of its constructor, none of the required ones missing",
                 "C73.value": "they carry the value of the spec", "C73.keep": "every given spec is in the result", "C73.reject": "a spec without a value is rejected",
                 "C73.executor": "an executor form yields the class of its type under its alias", "C73.one": "exactly one of cron, interval and at is accepted",
                 "C73.trigger": "the trigger is built from the given option", "C73.load": "each registry entry is added exactly once, with its own function, trigger, arguments and name",
                 "C73.start": "start builds its scheduler from --timezone, --store and --executor, loads the registry before it starts, and uses the bootstrap scheduler when one is given"}.items():
        ctx.rule(r, t)
    stores = registry(p, "stores")
    execs = registry(p, "executors")
    ctx.need(stores and execs, "default plugin tables not found")
    for spec, (alias, typ, vals) in SPECS.items():
        f, out = maps(ctx, "build_stores_map", "specs", [spec])
        good = [(m, st) for e, m, st in out if e is None]
        ctx.ob("C73.store", good and all(const(alias) in m for m, _ in good) and any(set(m) == {const(alias)} for m, _ in good), "--store " + spec, f.where, "is accepted under the alias %s" % alias if good else "is rejected")
        for m, st in good:
            cfg = m.get(const(alias))
            cfg = entries_of(st, cfg) if cfg is not None and cfg.k in ("dict", "newdict") else {}
            names = {k.a[0] for k in cfg if k.k == "const"}
            t = cfg.get(const("type"))
            q = stores.get(t.a[0]) if t is not None and t.k == "const" else None
            ctx.ob("C73.store", q is not None and q == stores[typ], "--store %s: type" % spec, f.where, "type is %s" % (show(t) if t is not None else None))
            if q is None or q not in p.classes:
                continue
            ok, req = accepted(p, q)
            bad = names - {"type"} - ok - CLIENT.get(t.a[0], set())
            ctx.ob("C73.accepts", not bad and req <= names and len(names) == len(cfg), "--store " + spec, f.where, "%s does not take %s" % (q, sorted(bad)) if bad else "%s needs %s" % (q, sorted(req - names)))
            for k, want in vals.items():
                if not isinstance(want, tuple):
                    ctx.ob("C73.value", value_ok(want, cfg.get(const(k))), "--store %s: %s" % (spec, k), f.where, "%s is %s" % (k, show(cfg[const(k)])[:100] if const(k) in cfg else "missing"))
        for k, want in vals.items():
            ctx.ob("C73.value", any(value_ok(want, entries_of(st, m[const(alias)]).get(const(k))) for m, st in good if const(alias) in m and m[const(alias)].k in ("dict", "newdict")), "--store %s: %s used" % (spec, k), f.where, "%s of the spec reaches the store" % k)
    f, out = maps(ctx, "build_stores_map", "specs", ["a=memory", "b=sqlite:///b"])
    ctx.ob("C73.keep", out and all(e is None and {const("a"), const("b")} <= set(m) for e, m, _ in out), "--store twice", f.where, "both stores are configured")
    for spec in ("durable=", "durable"):
        f, out = maps(ctx, "build_stores_map", "specs", [spec])
        ctx.ob("C73.reject", all(e is not None for e, _, _ in out), "--store " + spec, f.where, "a spec without a value is an error")
    for spec, (alias, typ, n) in EXECS.items():
        f, out = maps(ctx, "build_executors_map", "executors", [spec])
        good = [(m, st) for e, m, st in out if e is None]
        ctx.ob("C73.executor", good and all(set(m) == {const(alias)} for m, _ in good), "--executor " + spec, f.where, "is accepted under the alias %s" % alias)
        for m, st in good:
            cfg = m.get(const(alias))
            cfg = entries_of(st, cfg) if cfg is not None and cfg.k in ("dict", "newdict") else {}
            c = cfg.get(const("class"), cfg.get(const("type")))
            q = c.a[0].replace(":", ".") if c is not None and c.k == "const" else None
            q = execs.get(q, q)
            ctx.ob("C73.executor", q == execs[typ], "--executor %s: class" % spec, f.where, "class is %s" % q)
            got = cfg.get(const("max_workers"))
            ctx.ob("C73.value", (got is None) if n is None else value_ok(n, got), "--executor %s: workers" % spec, f.where, "max_workers is %s" % (show(got) if got is not None else None))
            if q in p.classes:
                ok = set().union(*[accepted(p, k)[0] for k in p.mro(q) if k in p.classes])
                bad = {k.a[0] for k in cfg if k.k == "const"} - {"class", "type"} - ok
                ctx.ob("C73.accepts", not bad, "--executor " + spec, f.where, "%s does not take %s" % (q, sorted(bad)))
    triggers(ctx)
    loaders(ctx)
    starts(ctx)
    ctx.floor("C73.store", 10)
    ctx.floor("C73.executor", 8)
    ctx.floor("C73.one", 8)
    ctx.floor("C73.load", 4)
    ctx.floor("C73.start", 6)


def triggers(ctx):
    p = ctx.proj
    f = p.functions.get("asyncz.cli.types.parse_trigger")
    ctx.need(f is not None, "parse_trigger not found")
    names = ("cron", "interval", "at")
    vals = {"cron": "*/5 * * * *", "interval": "10s", "at": "2027-01-01T10:00:00+00:00"}
    want = {"cron": ("CronTrigger",), "interval": ("IntervalTrigger",), "at": ("DateTrigger",)}
    for n in range(8):
        on = [x for i, x in enumerate(names) if n >> i & 1]
        for off in (NONE, const("")):
            cl = Rec(p, [], cap=1, stop=("from_crontab", "parse_interval", "fromisoformat"))
            res, it = run(p, cl, f, args={x: const(vals[x]) if x in on else off for x in names})
            ctx.absorb(it)
            ok = [v for k, v, st in res if k == "return"]
            what = "parse_trigger(%s)" % ", ".join(on)
            if len(on) != 1:
                ctx.ob("C73.one", not ok and all(exc_name(v) in ("ValueError", "BadParameter", "UsageError", "SayerError", "ClickException") for k, v, st in res), what, f.where, "is an error")
                continue
            ctx.ob("C73.one", ok and all(k == "return" for k, v, st in res), what, f.where, "is accepted")
            for v in ok:
                val = const(vals[on[0]])
                good = any(x.k == "ref" and x.a[0].split(".")[-1] in want[on[0]] for x in subterms(v)) or v.k == "new" and v.a[0].split(".")[-1] in want[on[0]] or v.k == "call" and any(want[on[0]][0] in str(y.a[0]) for y in subterms(v) if y.k in ("ref", "func"))
                ctx.ob("C73.trigger", good and contains(v, val), what, f.where, "builds %s" % show(v)[:100])


def loaders(ctx):
    p = ctx.proj
    for n in ("load_jobs_from_module", "load_jobs_from_config"):
        f = p.functions.get("asyncz.cli.loader." + n)
        ctx.need(f is not None, n + " not found")
        cl = Rec(p, [E("add", ["add_task"])], cap=2, stop=("parse_trigger", "import_module"))
        cl.iter_rel = lambda it: True
        res, it = run(p, cl, f)
        ctx.absorb(it)
        ctx.ob("C73.load", bool(cl.insts), n, f.where, "adds tasks")
        sig = params(p.method(SCHED, "add_task"))
        for i in cl.insts:
            if i.label != "add":
                continue
            b = bound(i.call, sig)
            fn = next((b[x] for x in ("fn_or_task", "fn") if x in b), None)

            def item(t, key):
                """the entry's value for a key"""
                if t is None:
                    return None
                for x in subterms(t):
                    if x.k == "idx" and x.a[1] is const(key) and x.a[0].k in ("elem", "val"):
                        return x.a[0]
                    if x.k == "call" and callee(x) == "get" and x.a[0].k == "attr" and x.a[1] and x.a[1][0] is const(key):
                        return x.a[0].a[0]
                return None
            e = item(fn, "func")
            plain = fn is not None and (fn.k in ("idx",) or fn.k == "call" and callee(fn) in ("get", "import_callable", "ref_to_obj"))
            ctx.ob("C73.load", e is not None and plain, n + ":func", i.where, "the task is made from %s" % (show(fn)[:100] if fn is not None else None))
            for k, par in (("args", "args"), ("kwargs", "kwargs"), ("name", "name")):
                ctx.ob("C73.load", item(b.get(par), k) is e and e is not None, n + ":" + k, i.where, "%s is %s" % (par, show(b[par])[:100] if par in b else "not passed"))
            t = b.get("trigger")
            if n.endswith("module"):
                ctx.ob("C73.load", item(t, "trigger") is e and e is not None, n + ":trigger", i.where, "trigger is %s" % (show(t)[:100] if t is not None else None))
            else:
                kw = dict(t.a[2]) if is_call(t, "parse_trigger") else {}
                for k in ("cron", "interval", "at"):
                    ctx.ob("C73.load", item(kw.get(k), k) is e and e is not None, n + ":" + k, i.where, "parse_trigger's %s is %s" % (k, show(kw[k])[:80] if k in kw else "not passed"))


def paired(s, name):
    return len(s) >= 2 and len(s) % 2 == 0 and all(x == (name, "start")[i % 2] for i, x in enumerate(s))


def starts(ctx):
    p = ctx.proj
    f = commands(p).get("start")
    ctx.ob("C73.start", f is not None, "start", CF + "start.py", "the command exists")
    if f is None:
        return
    base = {"bootstrap": NONE, "module": NONE, "config": NONE, "timezone": NONE, "standalone": FALSE, "store": T("tuple", ()), "executor": T("tuple", ()), "on_start": NONE, "on_stop": NONE, "watch": FALSE}
    ex = T("tuple", (const("default=asyncio"),))
    cases = [({"timezone": const("Europe/Zurich")}, "timezone", lambda v: v is const("Europe/Zurich")),
             ({"store": STORE}, "stores", lambda v: is_call(v, "build_stores_map", STORE)),
             ({"executor": ex}, "executors", lambda v: is_call(v, "build_executors_map", ex)),
             ({}, None, None)]
    load = [E(lambda c: "load:" + c.name, ["load_jobs_from_module", "load_jobs_from_config"])]

    def go(extra):
        cl = Cmd(p, fail=False, extra=load)
        cl.stop = set(cl.stop) | {"load_jobs_from_module", "load_jobs_from_config", "build_executors_map", "_call_hook"}
        given = dict(base, **extra)
        res, it = run(p, cl, f, args={k: v for k, v in given.items() if k in params(f)}, max_states=20000)
        ctx.absorb(it)
        return cl
    for extra, key, ok in cases:
        cl = go(extra)
        what = "start " + (" ".join("--" + k for k in extra) or "without options")
        st = [i for i in cl.insts if i.label == "start" and i.seq.count("start") < 2]
        ctx.ob("C73.start", bool(st), what, f.where, "a scheduler is started")
        for i in st:
            r = i.call.recv
            kw = {k: v for k, v in (r.a[2] if temp(r) else ())}
            ctx.ob("C73.start", set(kw) == ({key} if key else set()) and (key is None or ok(kw.get(key))), what + ": configuration", i.where, "the scheduler is made with %s" % {k: show(v)[:60] for k, v in kw.items()})
    for opt, watch in (("module", False), ("config", False), ("module", True), ("config", True)):
        cl = go(dict({opt: const("@" + opt)}, **({"watch": TRUE} if watch else {})))
        what = "start --" + opt + (" --watch" if watch else "")
        name = "load:load_jobs_from_" + opt
        at = [i.seq + ("start",) for i in cl.insts if i.label == "start" and i.seq.count("start") < 2]
        ctx.ob("C73.start", at and all(paired([x for x in s if x == "start" or x.startswith("load:")], name) for s in at), what, f.where, "the registry is loaded once for each scheduler started, before it starts", trace=[" -> ".join(s) for s in at[:2]])
        for i in cl.insts:
            if i.label == name:
                ctx.ob("C73.start", temp(i.call.arg(0)) and i.call.arg(1) is const("@" + opt), what + ": arguments", i.where, "loads %s" % show(i.call.arg(1))[:60])
    cl = go({"bootstrap": const("app:Spec")})
    ss = seqs(cl.outs)
    ctx.ob("C73.start", ss and all("boot" in s and "startboot" in s and "start" not in s for s in ss), "start --bootstrap", f.where, "the application's scheduler is started", trace=[" -> ".join(s) for s in ss[:2]])


TASK_KEYS = {"id": "id", "name": "name", "state": "schedule_state", "trigger": "trigger_name", "trigger_alias": "trigger_alias", "trigger_description": "trigger_description", "store": "store_alias", "executor": "executor"}
CALL_KEYS = {"callable_name": "callable_name", "callable_reference": "callable_reference"}
MORE_KEYS = {x: x for x in ("next_run_time", "coalesce", "max_instances", "mistrigger_grace_time", "pending", "paused")}
SCHED_KEYS = dict({x: x for x in ("identity", "started_at", "uptime_seconds", "timezone", "task_count", "scheduled_task_count", "paused_task_count", "pending_task_count", "submitted_task_count")},
                  state="state_label", state_code="state", stores="store_aliases", executors="executor_aliases")
STATUS_KEYS = dict(SCHED_KEYS, running="running", store_retry_interval="store_retry_interval", startup_delay="startup_delay")
INST_KEYS = dict(SCHED_KEYS, **{x: x for x in ("scope", "active", "stale", "last_seen_at", "heartbeat_age_seconds", "stale_after_seconds")})
RUN_KEYS = {"run_times": "run_times", "exhausted": "exhausted", "returned_count": "run_times", "requested_count": ("requested_count", 7)}
SNAP_KEYS = dict({x: x for x in ("name", "executor", "args", "kwargs", "coalesce", "max_instances", "mistrigger_grace_time")}, callable_reference="fn_reference")
# command: (documented top-level keys, [documented nested objects])
JSON = {
    "list": (None, [dict(TASK_KEYS, next_run_time="next_run_time", **CALL_KEYS)]),
    "inspect": (dict(RUN_KEYS, task=None), [dict(TASK_KEYS, **CALL_KEYS, **MORE_KEYS)]),
    "status": (STATUS_KEYS, []),
    "instances": ({"scope": None, "count": None, "instances": None}, [INST_KEYS]),
    "doctor": ({"health": None, "ready": None, "scheduler": None, "checks": None}, [STATUS_KEYS]),
    "preview": (dict(RUN_KEYS, task=None, timezone="timezone", generated_at=None), [TASK_KEYS]),
    "timeline": ({x: x if x == "timezone" else None for x in ("timezone", "generated_at", "requested_per_task", "limit", "task_count", "total_count", "returned_count", "exhausted_task_count", "rows")}, [dict(TASK_KEYS, **CALL_KEYS)]),
    "update": ({x: None for x in ("id", "store", "dry_run", "applied", "changed", "diff")}, [SNAP_KEYS]),
    "version": ({"version": None}, []),
}
FIELDS = frozenset(v for d in (TASK_KEYS, CALL_KEYS, MORE_KEYS, STATUS_KEYS, INST_KEYS, SNAP_KEYS, {x: x for x in ("exhausted", "run_times", "generated_at", "requested_count")}) for v in d.values())
OUT = ["print", "echo", "secho", "info", "success", "warning", "error"]


def is_dump(t):
    return t is not None and t.k == "call" and callee(t) == "dumps"


class JsonCmd(Cmd):
    def __init__(self, p):
        super().__init__(p, fail=False, extra=[E(lambda c: "out:json" if is_dump(c.arg(0)) and c.name in ("print", "echo") else "out:text", OUT), E("dumps", ["dumps"])])
        self.dicts = {}

    def on_dict(self, pairs, st, node, fr):
        self.dicts[(node, tuple(pairs))] = (dict((k.a[0], v) for k, v in pairs if k is not None and k.k == "const"), "%s:%d" % (fr.func.module.rel, node.lineno))
        return super().on_dict(pairs, st, node, fr)


def field_ok(want, v):
    """the value is the field `want` of something, and no other known field takes part in it"""
    name, num = want if isinstance(want, tuple) else (want, None)
    if num is not None and v is const(num):
        return True
    got = {x.a[1] for x in subterms(v) if x.k == "attr" and x.a[1] in FIELDS}
    return got == {name}


@prop("C74", "A CLI command's --json output is one JSON document with the documented keys",
      "With --json every command that offers it prints exactly one JSON document and nothing else when it ends normally; the document and the task and scheduler objects in it have the keys the command-line documentation lists, "
      "each filled from the snapshot field of that meaning, and `list` and `instances` leave no task or instance out.",
      "every command with --json, both scheduler sources, every path of the command and every snapshot", "forall paths",
      "Automation reads this output; a stray status line, a dropped key or a crossed field breaks it, and a test that reads one key of one task does not see it.",
      [CF + "%s.py" % n for n in JSON],
      [("documentation", "docs/en/docs/cli.md")],
      "abstract interpretation of each command with --json on: sequence of output calls on every path; keys and provenance of every dictionary that reaches json.dumps",
      "With --store and --bootstrap together the command says that it ignores --store; that line is not part of the claim.")
def c74(ctx):
    p = ctx.proj
    for r, t in {"C.found": "the command exists", "C74.one": "a normal end with --json printed one json.dumps result and no other text",
                 "C74.keys": "the documented keys are present", "C74.field": "each key is the snapshot field of its meaning",
                 "C74.all": "every task or instance read is in the output", "C74.after": "`after` is present exactly when the update was applied"}.items():
        ctx.rule(r, t)
    for name, (top, nested) in sorted(JSON.items()):
        f = commands(p).get(name)
        ctx.ob("C.found", f is not None, "asyncz " + name, CF + name + ".py", "the command is defined in asyncz/cli/commands")
        if f is None:
            continue
        for mode in MODES if "bootstrap" in params(f) else list(MODES)[:1]:
            what = "asyncz %s --json with %s" % (name, mode)
            cl = JsonCmd(p)
            given = {"bootstrap": MODES[mode], "as_json": TRUE, "store": T("tuple", ()), "job_id": const("@id"), "count": const(7), "yes": TRUE, "strict": FALSE}
            res, it = run(p, cl, f, args={k: v for k, v in given.items() if k in params(f)}, max_states=20000)
            ctx.absorb(it)
            ss = seqs(cl.outs, "ok") if cl.outs else sorted({st.ts[1] for k, v, st in res if k == "return"})
            bad = [s for s in ss if [x for x in s if x.startswith("out:")] != ["out:json"]]
            ctx.ob("C74.one", ss and not bad, what, f.where, "prints one JSON document", trace=[" -> ".join(bad[0])] if bad else None)
            seen = [i for i in cl.insts if i.label == "dumps"]
            ctx.ob("C74.keys", bool(seen), what, f.where, "calls json.dumps")
            for i in seen:
                t = i.call.arg(0)
                for v in parts(t):
                    if top is not None:
                        d = {k.a[0]: x for k, x in entries_of(i.st, v).items() if k.k == "const"} if v.k in ("dict", "newdict") else {}
                        fields(ctx, what, i.where, top, d)
                        if name == "update":
                            ctx.ob("C74.after", ("after" in d) == ("op:update_task" in i.seq), what, i.where, "after is there exactly when the update was applied")
                            ctx.ob("C74.after", (d.get("applied") is TRUE) == ("op:update_task" in i.seq), what + ": applied", i.where, "applied is %s" % (show(d["applied"]) if "applied" in d else "missing"))
                    lists = [v] if name == "list" else [d["instances"]] if name == "instances" and "instances" in d else []
                    for c in lists:
                        if c.k == "comp":
                            its = [x.a[1][0] if x.k == "call" and callee(x) in ("list", "tuple", "sorted") and x.a[1] else x for x in c.a[2]]
                            ctx.ob("C74.all", not any(c.a[3]) and all(x.k == "call" and callee(x).startswith("get_") for x in its), what, i.where, "runs over %s" % show(its[0])[:100])
            for want in nested:
                got = [(d, w) for d, w in inside(seen) + list(cl.dicts.values()) if len(set(d) & set(want)) * 2 > len(want)]
                got = [(d, w) for d, w in got if set(want) <= set(d)] or got
                ctx.ob("C74.keys", bool(got), what + ": nested object", f.where, "an object with the keys %s is built" % ", ".join(sorted(want)[:4]))
                for d, w in got:
                    fields(ctx, what + ": nested object", w, want, d)
    ctx.floor("C74.one", 2 * 8 + 1)
    ctx.floor("C74.field", 150)


def inside(dumps):
    """the dictionaries that are part of what json.dumps is given"""
    out, done = [], set()
    for i in dumps:
        todo = [i.call.arg(0)]
        while todo:
            for x in subterms(todo.pop()):
                if x.k in ("dict", "newdict") and (x, i.st) not in done:
                    done.add((x, i.st))
                    d = entries_of(i.st, x)
                    todo += [v for v in d.values() if v not in done]
                    done |= set(d.values())
                    out.append(({k.a[0]: v for k, v in d.items() if k.k == "const"}, i.where))
    return out


def fields(ctx, what, where, want, d):
    miss = sorted(set(want) - set(d))
    ctx.ob("C74.keys", not miss, what, where, "missing: %s" % miss)
    for k, w in sorted(want.items()):
        if w is not None and k in d:
            ctx.ob("C74.field", field_ok(w, d[k]), what + ": " + k, where, "%s is %s" % (k, show(d[k])[:140]))
