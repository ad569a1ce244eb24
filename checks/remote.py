"""The remote scheduler: worker-side control app and dashboard-side client."""
import ast
import re

from checks._common import *  # noqa: F401,F403
from checks.controllers import Where, flat, routes, seg_match, short
from sa.report import prop

D = "asyncz.contrib.dashboard."
RM = D + "remote."
RF = "asyncz/contrib/dashboard/remote.py"
APP = RM + "create_remote_scheduler_app"
CLIENT = RM + "RemoteSchedulerClient"
NOTRUN = "asyncz.exceptions.SchedulerNotRunningError"
VALUE = "builtins.ValueError"
READS = {"get_scheduler_info", "get_scheduler_instance_infos", "get_task_infos", "get_task_info", "preview_task_runs"}
WRITES = {"add_task", "update_task", "run_task", "pause_task", "resume_task", "delete_task"}
OPS = READS | WRITES | {"remove_all_tasks", "reschedule_task", "start", "shutdown", "pause", "resume", "get_task", "get_tasks", "lookup_task"}
ALIAS = {"get_task": "get_task_info", "lookup_task": "get_task_info", "running": "get_scheduler_info"}
SENTINEL = {"next_run_time": "None adds the task as paused", "mistrigger_grace_time": "None lets the task run no matter how late"}


class Worker(Rec):
    """calls one handler of the control app with a request; outcomes in .outs"""
    def __init__(self, p, where, raises=(LOOKUP, NOTRUN, MAXINST, OTHER), split=False):
        on_sched = lambda c: c.recv is not None and c.recv is T("p", "scheduler")
        super().__init__(p, [E("op", sorted(OPS), when=on_sched, raises=raises, split=split),
                             E("decode", ["loads", "load", "b64decode"], when=lambda c: c.fn.k == "ref" and c.fn.a[0].split(".")[0] in ("pickle", "base64", "dill", "cloudpickle"), raises=(OTHER,)),
                             E("body", ["json", "body", "form"], when=lambda c: c.recv is T("p", "request"), raises=("json.decoder.JSONDecodeError", VALUE)),
                             E("", ["int", "float", "fromisoformat"], when=lambda c: bool(c.args) and source(c.args[0]) is not None, raises=(VALUE,)),
                             E("", ["update"]),
                             E("", ["RoutePath", "Path"], ret=self.go, when=lambda c: Where(f"{c.module.rel}:{c.node.lineno}", c.node.col_offset) == where)],
                         cap=2, small=400, stop=("_dump_json",))
        self.max_depth = 40
        self.outs, self.subs = [], []
        self.assume_hook = lambda lit, st, node, fr: None if lit[0] == "truth" and not lit[2] and lit[1][0].k == "new" and short(lit[1][0].a[0]).endswith("Response") else st      # a response object is true

    def sub_write(self, base, key, value, st, node, fr):
        self.subs.append((base, key, value, st))
        return super().sub_write(base, key, value, st, node, fr)

    def go(self, c, st):
        self.outs += self.invoke(c, c.arg(1, "handler"), [T("p", "request")], st)
        return [(self.default_term(c), st)]


def worker_routes(ctx):
    """[(methods, path, where, name)] in the order of the route list"""
    tab, lists, it = routes(ctx.proj, APP)
    ctx.absorb(it)
    out = []
    for path, h, methods, where, name in tab:
        ms = {x.a[0] for x in subterms(methods) if x.k == "const" and isinstance(x.a[0], str)} if methods is not None else {"GET"}
        out.append((ms, path, where, h))
    return out


def handled(ctx, where, **kw):
    cl = Worker(ctx.proj, where, **kw)
    _, it = run(ctx.proj, cl, APP, max_states=20000)
    ctx.absorb(it)
    return cl


def header_of(t):
    """name of the request header a value is read from"""
    for x in subterms(t):
        if x.k == "call" and x.a[0].k == "attr" and x.a[0].a[1] == "get" and x.a[0].a[0].k == "attr" and x.a[0].a[0].a[1] == "headers" and x.a[1]:
            if len(x.a[1]) > 1 and x.a[1][1] not in (NONE, const("")) or x.a[2]:
                return None         # a made-up value for a missing header
            return x.a[1][0].a[0] if x.a[1][0].k == "const" else None
        if x.k == "idx" and x.a[0].k == "attr" and x.a[0].a[1] == "headers":
            return x.a[1].a[0] if x.a[1].k == "const" else None
    return None


TOKEN = T("p", "token")
EMPTY = (const(""), const(b""))


def bare(t):
    """look through encode() and `or ""`"""
    while t.k == "call" and t.a[0].k == "attr" and t.a[0].a[1] == "encode":
        t = t.a[0].a[0]
    return t


def token_ok(st):
    """the path knows: no (or an empty) token is required, or the request carries exactly it"""
    for k, ts, v in st.facts:
        if k == "is" and v and TOKEN in ts and NONE in ts:
            return True
        if k == "eq" and v and TOKEN in [bare(x) for x in ts] and any(header_of(x) or bare(x) in EMPTY for x in ts):
            return True
        if k == "truth" and v and ts[0].k == "call" and ts[0].a[0].k in ("ref", "func") and ts[0].a[0].a[0].split(".")[-1] == "compare_digest":
            a = [bare(x) for x in ts[0].a[1]]
            if TOKEN in a and any(header_of(x) or x in EMPTY for x in a):
                return True
    return False


def response(t):
    """(status term, payload term) of a built response"""
    if t is None or not hasattr(t, "k") or t.k != "new":
        return None, None
    kw = dict(t.a[2])
    return kw.get("status_code", t.a[1][1] if len(t.a[1]) > 1 else None), kw.get("content", t.a[1][0] if t.a[1] else None)


def source(t, depth=0):
    """where a value of the worker comes from: (query|body|path, key)"""
    for x in subterms(t):
        key = None
        if x.k == "call" and x.a[0].k == "attr" and x.a[0].a[1] in ("get", "pop") and x.a[1]:
            base, key = x.a[0].a[0], x.a[1][0]
        elif x.k == "idx":
            base, key = x.a
        if key is None or key.k != "const" or not isinstance(key.a[0], str):
            continue
        if base.k == "attr" and base.a[1] in ("query_params", "path_params"):
            return base.a[1][:-7], key.a[0]
        if body_value(base):
            return "body", key.a[0]
    return None


def body_value(t):
    while t.k in ("copyof", "await"):
        t = t.a[0]
    return t.k == "call" and (t.a[0].k == "attr" and t.a[0].a[1] == "json" or t.a[0].k in ("ref", "func") and "json" in t.a[0].a[0].split(".")[-1].lower())


def sources(t):
    return {s for x in subterms(t) for s in [source1(x)] if s is not None}


def source1(x):
    key = None
    if x.k == "call" and x.a[0].k == "attr" and x.a[0].a[1] in ("get", "pop") and x.a[1]:
        base, key = x.a[0].a[0], x.a[1][0]
    elif x.k == "idx":
        base, key = x.a
    if key is None or not hasattr(key, "k") or key.k != "const" or not isinstance(key.a[0], str):
        return None
    if base.k == "attr" and base.a[1] in ("query_params", "path_params"):
        return base.a[1][:-7], key.a[0]
    return ("body", key.a[0]) if body_value(base) else None


@prop("C50", "The worker's control app does nothing without the configured token",
      """When create_remote_scheduler_app is given a (non-empty) token, every route answers a request that does not carry exactly that token with 401 and does
      nothing else: no scheduler operation, no reading of the payload, no unpickling. Without a configured token every request is served.""",
      ["inputs"],
      "every route of the control app, every header set and payload",
      "the app unpickles triggers and imports callables: one handler that forgets the check, or checks after decoding, is remote code execution; tests probe one route",
      [RF],
      [("create_remote_scheduler_app", RF), ("_require_token", RF)],
      "route table folded from the app factory; in each handler every effect must be dominated by a token fact on its path",
      "That the token is secret, and sent over a private network, is the deployment's part.")
def c50(ctx):
    ctx.rule("gate", "a scheduler operation, payload read or unpickling happens only under a token fact")
    ctx.rule("refused", "without that fact the answer is 401 and nothing else happened")
    ctx.rule("served", "a request with the token, or without a configured one, reaches the scheduler")
    rs = worker_routes(ctx)
    for ms, path, where, h in rs:
        nm = f"{'/'.join(sorted(ms))} {path}"
        cl = handled(ctx, where)
        for i in cl.insts:
            if i.label in ("op", "decode", "body"):
                ctx.ob("gate", token_ok(i.st), f"{nm}:{i.call.name}", i.where, f"{i.call.name} runs without the token having been checked", [f"{k} {' ; '.join(show(x) for x in ts)} {v}" for k, ts, v in i.st.facts])
        served = False
        for kind, pl, st in cl.outs:
            if token_ok(st):
                served = served or "op" in st.ts[1]
                continue
            code, _ = response(pl)
            ctx.ob("refused", kind == "ok" and code is const(401) and not st.ts[1], nm, where, f"a request without the token is answered with {show(code) if code is not None else show(pl) if hasattr(pl, 'k') else pl}", list(st.ts[1]))
        ctx.ob("served", served, nm, where, "no path reaches the scheduler")
    ctx.floor("gate", 8)
    ctx.floor("refused", 6)


# ---------------------------------------------------------------- client

class Client(Rec):
    def __init__(self, p, raises=(LOOKUP, OTHER)):
        super().__init__(p, [E("req", ["_request"], when=lambda c: is_self(c.recv), raises=raises)], cap=2, small=400, stop=("obj_to_ref", "_encode_trigger"))
        self.max_depth = 40
        self.writes = []

    def sub_write(self, base, key, value, st, node, fr):
        self.writes.append((base, key, value, st))
        return super().sub_write(base, key, value, st, node, fr)


def expand(key, value):
    """entries of `for key, value in {...}.items()`"""
    if key.k == "key" and value is not None:
        for x in subterms(key):
            if x.k == "dict":
                return [(k.a[0], v) for k, v in x.a[0] if k.k == "const"]
    if key.k == "const" and isinstance(key.a[0], str):
        return [(key.a[0], value)]
    return []


def entries(t, depth=0):
    """{key: [values]} a payload or query term may hold"""
    out = {}
    def put(k, v):
        out.setdefault(k, []).append(v)
    if t is None or depth > 6:
        return out
    if t.k == "dict":
        for k, v in t.a[0]:
            if k.k == "const":
                put(k.a[0], v)
            elif k.k == "starstar":
                for a, b in entries(v, depth + 1).items():
                    out.setdefault(a, []).extend(b)
    elif t.k == "comp" and t.a[0] == "dict":
        for x in subterms(t):
            if x.k == "dict":
                for a, b in entries(x, depth + 1).items():
                    out.setdefault(a, []).extend(b)
                break
    elif t.k == "phi":
        for x in t.a[0]:
            for a, b in entries(x, depth + 1).items():
                out.setdefault(a, []).extend(b)
    return out


class Sent:
    """what one client method sends: list of (method, path pieces, where) and the keys with values and facts of their writing"""
    def __init__(self, ctx, f, q):
        p = ctx.proj
        self.cl = Client(p)
        self.res, it = run(p, self.cl, f, self_cls=q, max_states=20000)
        ctx.absorb(it)
        self.reqs, self.keys, self.facts = {}, {}, {}
        for i in self.cl.insts:
            if i.label != "req":
                continue
            path = i.call.arg(1, "path")
            ps = flat_add(path)
            m = i.call.arg(0, "method")
            self.reqs[(m.a[0] if m is not None and m.k == "const" else "?", tuple(ps))] = i
            for kind, t in (("body", i.call.arg(2, "payload")), ("query", i.call.arg(3, "query"))):
                for k, vs in entries(t).items():
                    self.keys.setdefault((kind, k), set()).update(vs)
        for base, key, value, st in self.cl.writes:
            kind = "query" if any(m == "GET" for m, _ in self.reqs) else "body"
            for k, v in expand(key, value):
                if is_self(base) or base.k == "attr":
                    continue
                self.keys.setdefault((kind, k), set()).add(v)
                self.facts.setdefault(k, []).append((v, value, st))


def flat_add(t):
    if t is None:
        return []
    if t.k == "op" and t.a[0] == "Add":
        return flat_add(t.a[1]) + flat_add(t.a[2])
    if t.k == "fstr":
        return [y for x in t.a[0] for y in flat_add(x)]
    return [t]


def path_of(ps):
    """path with {} for each hole; the holes"""
    s, holes = "", []
    for x in ps:
        if x.k == "const":
            s += str(x.a[0])
        else:
            s += "{}"
            holes.append(x)
    return s, holes


def quoted_id(t):
    if t.k == "call" and t.a[0].k in ("ref", "func") and t.a[0].a[0].endswith("parse.quote") or t.k == "call" and t.a[0].k == "attr" and t.a[0].a[1] == "quote":
        safe = dict(t.a[2]).get("safe", t.a[1][1] if len(t.a[1]) > 1 else None)
        return safe is const("") and any(x is T("p", "task_id") for x in subterms(t))
    return False


def find_route(rs, method, path):
    segs = path.replace("{}", "\1")
    for ms, pat, where, h in rs:
        if method in ms and seg_match(re.sub(r"{\w+:\w+}", "{x}", pat), segs):
            return ms, pat, where, h
    return None


def last_seg_fact(st, name, value):
    return any(k == "eq" and v and const(value) in ts and any(("path", name) == source1(x) for x in ts) for k, ts, v in st.facts)


def params(f):
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs if x.arg != "self"]


def defaults(f):
    a = f.node.args
    pos = a.posonlyargs + a.args
    d = {x.arg: v for x, v in zip(pos[len(pos) - len(a.defaults):], a.defaults)}
    d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    return d


def bound(call, sig, subs=()):
    """{parameter: term} of a scheduler call; '**' collects spreads"""
    out = {}
    for i, t in enumerate(call.args):
        if i < len(sig):
            out[sig[i]] = t
    for k, t in call.kw:
        if k == "**":
            for n, s in spread(t, subs):
                out.setdefault(n, s)
        else:
            out[k] = t
    return out


def spread(t, subs=()):
    """(parameter, value) pairs of a ** argument; ('**', term) for an open mapping; `subs` are the (mapping, key, value, state) writes seen"""
    if t.k == "newdict":
        out = []
        for base, key, value, _ in subs:
            if base is not t:
                continue
            names = [key.a[0]] if key.k == "const" else [x.a[0] for x in subterms(key) if x.k == "const" and isinstance(x.a[0], str)] if key.k == "elem" else []
            for n in names:
                same = value.k == "idx" and body_value(value.a[0]) and value.a[1] is key
                out.append((n, T("idx", value.a[0], const(n)) if same else value))
        return sorted(out, key=lambda x: source1(x[1]) is None) or [("**", t)]
    if t.k == "comp" and t.a[0] == "dict":
        names = [x.a[0] for it in t.a[2] for x in subterms(it) if x.k == "const" and isinstance(x.a[0], str)]
        body = [x for x in subterms(t) if x.k == "idx" and body_value(x.a[0]) and x.a[1].k == "elem"]
        if names and body:
            return [(n, T("idx", body[0].a[0], const(n))) for n in names]
    if t.k == "dict":
        out = []
        for k, v in t.a[0]:
            out += [(k.a[0], v)] if k.k == "const" else spread(v, subs)
        return out
    if t.k == "phi":
        return [y for x in t.a[0] for y in spread(x, subs)]
    return [("**", t)]


@prop("C51", "Each remote client call performs the same operation in the worker",
      """A call on RemoteSchedulerClient performs the scheduler operation of the same name in the worker, on exactly the task named, whatever characters
      its id contains. Every argument given arrives as that argument of the worker's scheduler, an argument left out takes the scheduler's own default,
      and an explicit None for next_run_time or mistrigger_grace_time is transmitted rather than dropped.""",
      ["inputs"],
      "every client method, every argument and task id, every route of the worker",
      "client and worker are two hand-written halves of one protocol: a key one side writes and the other ignores is silent; tests send few arguments",
      [RF, "asyncz/schedulers/base.py"],
      [("RemoteSchedulerClient", RF), ("create_remote_scheduler_app", RF), ("BaseScheduler", "asyncz/schedulers/base.py")],
      "both halves folded to tables (method, path, keys with their sources / scheduler call with the keys it is fed from) and joined; defaults compared with the scheduler's",
      "Triggers given as objects travel pickled; conversion of argument values by JSON is not judged.")
def c51(ctx):
    p = ctx.proj
    ctx.rule("route", "the request of a client method is answered by a route that performs the operation of that name")
    ctx.rule("id", "the task id is percent-encoded into the path and arrives as the task id")
    ctx.rule("argument", "each argument arrives as the same argument of the scheduler's operation")
    ctx.rule("read", "each transmitted key is used by the worker")
    ctx.rule("default", "an argument left out takes the scheduler's default")
    ctx.rule("explicit-none", "an explicit None that means something is transmitted")
    ctx.rule("token", "the client sends the token in the header the worker reads")
    ctx.rule("result", "the answer carries the result of the operation")
    rs = worker_routes(ctx)
    byroute = {w: handled(ctx, w, raises=()) for _, _, w, _ in rs}
    q = CLIENT
    ctx.need(q in p.classes, "RemoteSchedulerClient not found")
    for name, f in sorted(p.classes[q].methods.items()):
        if name.startswith("_"):
            continue
        sent = Sent(ctx, f, q)
        op = ALIAS.get(name, name)
        if not sent.reqs:
            ctx.ob("route", name not in OPS and name not in ALIAS, name, f.where, "no request is sent")
            continue
        sig_f = p.method(S, op)
        ctx.ob("route", sig_f is not None, f"{name}:scheduler", f.where, f"the scheduler has no operation {op}")
        if sig_f is None:
            continue
        for (method, ps), i in sent.reqs.items():
            path, holes = path_of(ps)
            r = find_route(rs, method, path)
            if not ctx.ob("route", r is not None, f"{name}:{method} {path}", i.where, f"no route of the worker answers {method} {path}"):
                continue
            _, pat, where, _ = r
            dyn = re.findall(r"{(\w+)(?::\w+)?}", pat)
            want = path.rstrip("/").split("/")[-1]
            cl = byroute[where]
            ops = [x for x in cl.insts if x.label == "op"]
            if len(dyn) > len(holes):       # the action is part of the path
                ops = [x for x in ops if last_seg_fact(x.st, dyn[-1], want)]
            ctx.ob("route", bool(ops) and {x.call.name for x in ops} == {op}, f"{name}:op", i.where, f"{method} {path} makes the worker perform {sorted({x.call.name for x in ops}) or 'nothing'} instead of {op}")
            ops = [x for x in ops if x.call.name == op]
            if not ops:
                continue
            if "task_id" in params(f):
                ctx.ob("id", len(holes) == 1 and quoted_id(holes[0]), f"{name}:path", i.where, f"the task id is put into the path as {[show(x) for x in holes]}")
            names = params(sig_f)
            fed = {}                          # scheduler parameter -> keys it is fed from
            alts = {}
            for x in ops:
                for n, t in bound(x.call, names, cl.subs).items():
                    fed.setdefault(n, set()).update(sources(t))
                    alts.setdefault(n, set()).update(t.a[0] if t.k == "phi" else [t])
            if "task_id" in names:
                ctx.ob("id", fed.get("task_id") == {("path", dyn[0])} if dyn else False, f"{name}:worker", where, f"the worker acts on {fed.get('task_id')}")
            # arguments
            for a in params(f) + ([f.node.args.kwarg.arg] if f.node.args.kwarg else []):
                if a in ("task_id", "fn"):
                    continue
                keys = {k for k, vs in sent.keys.items() if any(T("p", a) in set(subterms(v)) for v in vs)}
                if name == "add_task" and a == "fn_or_task":
                    keys = {k for k, vs in sent.keys.items() if any({T("p", "fn"), T("p", "fn_or_task")} & set(subterms(v)) for v in vs)}
                ctx.ob("argument", bool(keys), f"{name}:{a}", f.where, f"argument {a} is not transmitted")
                target = "**" if f.node.args.kwarg and a == f.node.args.kwarg.arg else a
                got = {s for s in fed.get(target, ())}
                for k in keys:
                    ctx.ob("argument", (k in got), f"{name}:{a}:{k[1]}", where, f"argument {a} is transmitted as {k[0]} key {k[1]!r}, but the worker feeds {target} from {sorted(got)}")
            used = {s for x in cl.insts for t in list(x.call.args) + [v for _, v in x.call.kw] for s in sources(t) | {("body", n) for n, _ in spread(t, cl.subs)}}
            for kind, k in sent.keys:
                ctx.ob("read", (kind, k) in used, f"{name}:{k}", where, f"the client sends {kind} key {k!r}, which the worker ignores")
            # defaults
            dw, dc = defaults(sig_f), defaults(f)
            for n, ts in alts.items():
                for t in ts:
                    c = const_of(t)
                    if c is not None and n in dw:
                        ctx.ob("default", same_default(c[0], dw[n]), f"{name}:{n}:worker", where, f"without the key the worker passes {n}={c[0]!r}, the scheduler's default is {ast.unparse(dw[n])}")
            for n, d in dc.items():
                if n in dw and n != "fn":
                    ctx.ob("default", ast.dump(d) == ast.dump(dw[n]), f"{name}:{n}:client", f.where, f"{n} defaults to {ast.unparse(d)}, the scheduler's default is {ast.unparse(dw[n])}")
            for n in SENTINEL:
                if n in params(f):
                    ways = [(v, raw, st) for v, raw, st in sent.facts.get(n, ())]
                    plain = [v for v in sent.keys.get(("body", n), ()) if not any(v is w for w, _, _ in ways)]
                    ok = bool(plain) or any(not dropped(raw, v, st) for v, raw, st in ways)
                    ctx.ob("explicit-none", ok, f"{name}:{n}", f.where, f"an explicit None for {n} is not transmitted ({SENTINEL[n]})")
    # results
    for ms, pat, where, h in rs:
        for kind, pl, st in byroute[where].outs:
            code, data = response(pl)
            done = [x for x in st.ts[1] if x == "op"]
            if kind != "ok" or not done or code is not None:
                continue
            calls = {x.a[0].a[1] for x in subterms(data) if x.k == "call" and x.a[0].k == "attr" and x.a[0].a[0] is T("p", "scheduler")} if data is not None else set()
            none_ok = any(k == "is" and v and NONE in ts for k, ts, v in st.facts) or any(i.call.name == "delete_task" for i in byroute[where].insts if i.label == "op" and i.st.facts <= st.facts)
            ctx.ob("result", bool(calls) or none_ok, f"{pat}", where, f"the answer is {show(data, 6) if data is not None else None}, not the result of the operation")
    # token header
    rd = {header_of(x) for c in byroute.values() for kind, pl, st in c.outs for k, ts, v in st.facts for x in ts if header_of(x)}
    hf = p.method(q, "_headers")
    wr = set()
    cl = Client(p)
    if hf is not None:
        res, it = run(p, cl, hf, self_cls=q)
        ctx.absorb(it)
        for base, key, value, st in cl.writes:
            wr |= {k for k, v in expand(key, value) if from_attr(v, "token")}
        for kind, pl, st in res:
            if kind == "return" and hasattr(pl, "k"):
                wr |= {k for k, vs in entries(pl).items() if any(from_attr(v, "token") for v in vs)}
    ctx.ob("token", bool(rd) and {str(x).lower() for x in rd} == {str(x).lower() for x in wr}, "header", hf.where if hf else RF, f"the client sends the token as {sorted(map(str, wr))}, the worker reads {sorted(map(str, rd))}")
    ctx.floor("route", 20)
    ctx.floor("argument", 20)
    ctx.floor("default", 10)


def const_of(t):
    """(value,) of a constant, also through int(...) / bool(...)"""
    if t.k == "const":
        return (t.a[0],)
    if t.k == "call" and t.a[0].k == "ref" and t.a[0].a[0] in ("builtins.int", "builtins.bool", "builtins.str") and len(t.a[1]) == 1 and t.a[1][0].k == "const":
        return (t.a[1][0].a[0],)
    if t.k == "call" and t.a[0].k == "ref" and t.a[0].a[0] in ("builtins.bool", "builtins.int") and len(t.a[1]) == 1:
        return const_of(t.a[1][0])
    if t.k == "call" and t.a[0].k == "attr" and t.a[0].a[1] == "get" and len(t.a[1]) == 2 and t.a[1][1].k == "const":
        return (t.a[1][1].a[0],)
    return None


def same_default(c, d):
    return isinstance(d, ast.Constant) and type(d.value) is type(c) and d.value == c or isinstance(d, ast.Name) and c is None


def dropped(raw, v, st):
    """is this write known not to happen for None"""
    return any(k == "is" and not val and NONE in ts and (raw in ts or v in ts) for k, ts, val in st.facts) or any(k == "truth" and val and (ts[0] is raw or ts[0] is v) for k, ts, val in st.facts)


# ---------------------------------------------------------------- refusals

RERR = RM + "RemoteSchedulerError"
SAME = {"TaskLookupError": LOOKUP, "SchedulerNotRunningError": NOTRUN, "MaximumInstancesError": MAXINST, "ValueError": VALUE}
REFUSES = WRITES | {"get_task_infos", "preview_task_runs"}


def dterm(**kw):
    return T("dict", tuple((const(k), const(v)) for k, v in kw.items()))


def failing(seq):
    """exception name of the last scheduler operation or payload step that failed on the path"""
    for x in reversed(seq):
        if "!" in x:
            return x.split("!", 1)
    return None, None


def names_of(t):
    """is t the class name of a caught exception -> its class"""
    if t.k == "attr" and t.a[1] in ("__name__", "__qualname__"):
        b = t.a[0]
        if b.k == "attr" and b.a[1] == "__class__" and b.a[0].k == "excv" or b.k == "call" and b.a[0].k == "ref" and b.a[0].a[0] == "builtins.type" and b.a[1] and b.a[1][0].k == "excv":
            return next(x for x in subterms(b) if x.k == "excv").a[0]
        if b.k in ("ref", "cls"):
            return b.a[0]
    if t.k == "const" and isinstance(t.a[0], str):
        return t.a[0]
    return None


@prop("C52", "A refusal in the worker reaches the dashboard as that same refusal",
      """When a task operation, listing or preview is refused in the worker (unknown task, stopped scheduler, instance limit, invalid value, any other
      exception) or its payload cannot be used, the control app answers with an error status, 404 for an unknown task, and the exception's name, rather
      than failing. The client then raises TaskLookupError, SchedulerNotRunningError, MaximumInstancesError or ValueError where the worker did, and
      RemoteSchedulerError for every other failure, transport and undecodable answers included; get_task, get_task_info and preview_task_runs give None
      for an unknown task.""",
      ["inputs", "fault points"],
      "every route, every exception of the scheduler, every client method and every failure of the transport",
      "the dashboard's error handling is written for the local exceptions; a refusal that arrives as a 500 or a foreign exception breaks pages only when workers misbehave",
      [RF],
      [("create_remote_scheduler_app", RF), ("RemoteSchedulerClient", RF)],
      "handlers run over every exception of the scheduler call; client methods run abstractly over each error answer and each transport exception",
      "A custom transport's own exceptions are its own; get_scheduler_info and get_scheduler_instance_infos are not expected to refuse.")
def c52(ctx):
    p = ctx.proj
    ctx.rule("answered", "a refusal is answered with an error status and does not escape")
    ctx.rule("named", "the answer names the exception that was raised")
    ctx.rule("missing", "an unknown task is a 404 with TaskLookupError")
    ctx.rule("limit", "an instance limit carries the limit from the exception")
    ctx.rule("same", "the client raises the worker's exception, or RemoteSchedulerError")
    ctx.rule("none", "reads give None for an unknown task")
    ctx.rule("success", "the data of a successful answer is returned, and only that")
    ctx.rule("transport", "transport failures become RemoteSchedulerError")
    init = p.method(MAXINST, "__init__")
    ctx.need(init is not None, "MaximumInstancesError.__init__ not found")
    last = (init.node.args.posonlyargs + init.node.args.args + init.node.args.kwonlyargs)[-1].arg
    limits = set()
    wr = Rec(p, [], inline_all=True)

    def note(base, name, value, st, node, fr, old=wr.attr_write):
        if is_self(base) and value is T("p", last):
            limits.add(name)
        return old(base, name, value, st, node, fr)
    wr.attr_write = note
    run(p, wr, init, self_cls=MAXINST)
    for ms, path, where, h in worker_routes(ctx):
        nm = f"{'/'.join(sorted(ms))} {path}"
        cl = Worker(p, where, raises=(LOOKUP, NOTRUN, MAXINST, VALUE, OTHER), split=True)
        _, it = run(p, cl, APP, max_states=20000)
        ctx.absorb(it)
        ops = {i.call.name for i in cl.insts if i.label == "op"}
        if not ops & REFUSES and not (ops & {"get_task_info"}):
            continue
        for kind, pl, st in cl.outs:
            step, exc = failing(st.ts[1])
            code, data = response(pl if kind == "ok" else None)
            if step is not None and st.ts[1][-1] == f"{step}!{exc}" or kind == "raise":
                if step == "op" and not ops & REFUSES:
                    continue
                if step == "body" and exc == "" and kind == "ok":
                    continue
                if not token_ok(st):
                    continue
                err = f"{nm}:{step}:{exc}"
                ctx.ob("answered", kind == "ok" and code is not None and code.k == "const" and isinstance(code.a[0], int) and code.a[0] >= 400, err, where, f"{'escapes as ' + pl.cls if kind == 'raise' else 'is answered with ' + (show(code) if code is not None else '200')}", list(st.ts[1]))
                if kind != "ok" or data is None:
                    continue
                es = entries(data)
                cls = {names_of(t) for t in es.get("error", ())}
                if step == "op":
                    ctx.ob("named", bool(cls) and all(c and c.split(".")[-1] == exc for c in cls), err, where, f"the answer names {sorted(map(str, cls)) or 'nothing'}")
                    if exc == "TaskLookupError" and ops & WRITES and "{task_id" in path:
                        ctx.ob("missing", code is const(404), err, where, f"an unknown task is answered with {show(code)}")
                    if exc == "MaximumInstancesError":
                        ws = dict(es)
                        for base, key, value, s in cl.subs:
                            if key.k == "const" and base in set(subterms(data)):
                                ws.setdefault(key.a[0], []).append(value)
                        for i in cl.insts:
                            if i.label == "" and i.call.name == "update" and i.call.recv in set(subterms(data)):
                                for k, v in list(i.call.kw) + [(k, v) for a in i.call.args for k, vs in entries(a).items() for v in vs]:
                                    ws.setdefault(k, []).append(v)
                        ctx.ob("limit", any(limits & ({x.a[1] for x in subterms(v) if x.k == "attr"} | {x.a[1][1].a[0] for x in subterms(v) if is_getattr(x)}) for v in ws.get("max_instances", ())), err, where, f"max_instances is {[show(v) for v in ws.get('max_instances', ())]}")
                else:
                    ctx.ob("named", bool(cls) and None not in cls, err, where, "the answer names no exception")
            elif code is None and kind == "ok" and data is not None and ops & {"get_task_info", "preview_task_runs"} and "{task_id" in path:
                nn = any(k in ("is", "truth") and (not v if k == "is" else v) and any(x.k == "call" and x.a[0].k == "attr" and x.a[0].a[1] in ops for x in ts) for k, ts, v in st.facts)
                ctx.ob("missing", nn, nm, where, "an unknown task is answered as a success")
            elif code is not None and kind == "ok" and token_ok(st) and "op" in st.ts[1] and ops & {"get_task_info", "preview_task_runs"}:
                es = entries(data) if data is not None else {}
                ctx.ob("missing", code is const(404) and {(names_of(t) or "").split(".")[-1] or err_cls(t) for t in es.get("error", ())} == {"TaskLookupError"}, f"{nm}:none", where, f"an unknown task is answered with {show(code)} {[show(x) for x in es.get('error', ())]}")
    # client
    q = CLIENT
    ctx.need(q in p.classes, "RemoteSchedulerClient not found")
    answers = [(st, n, dterm(error=n, message="m", task_id="t", max_instances=3)) for st in (404, 409, 400) for n in SAME] + \
              [(st, n, dterm(error=n, message="m")) for st in (400, 401, 404, 500) for n in ("KeyError", "TypeError", "Unauthorized")] + [(400, "no name", dterm(message="m"))]
    few = ((404, "TaskLookupError"), (409, "SchedulerNotRunningError"), (409, "MaximumInstancesError"), (400, "ValueError"), (400, "KeyError"))
    for name, f in sorted(p.classes[q].methods.items()):
        if name.startswith("__") or name in ("_urllib_request", "_headers") or name not in OPS and name not in ALIAS and name != "_request":
            continue
        none_for_missing = name in ("get_task", "get_task_info", "preview_task_runs")
        for code, err, body in (answers if name == "_request" else [a for a in answers if (a[0], a[1]) in few]):
            cl, res, it = talk(p, f, q, code, body)
            ctx.absorb(it)
            sent = [i for i in cl.insts if i.label == "net"]
            if not ctx.ob("same", bool(sent), f"{name}:sent", f.where, "no request is sent"):
                break
            for kind, pl, st in res:
                if "net" not in st.ts[1]:
                    continue
                if err == "TaskLookupError" and none_for_missing:
                    ctx.ob("none", kind == "return" and pl is NONE, f"{name}:{code}", f.where, f"an unknown task gives {outcome(kind, pl)}")
                    continue
                want = SAME.get(err, RERR)
                ctx.ob("same", kind == "raise" and pl.cls == want, f"{name}:{code}:{err}", f.where, f"{err} in the worker ({code}) gives {outcome(kind, pl)} instead of {want.split('.')[-1]}")
            if err == "MaximumInstancesError" and name == "_request":
                ns = [[const_deep(a) for a in list(i.call.args) + [v for _, v in i.call.kw]] for i in cl.insts if i.label == "mk"]
                ctx.ob("same", bool(ns) and all(("t",) in n and (3,) in n for n in ns), f"{name}:limit", f.where, f"MaximumInstancesError is rebuilt from {ns}")
    f = p.method(q, "_request")
    if f is not None:
        for code in (200, 201, 204, 302, 399):
            cl, res, it = talk(p, f, q, code, dterm(data="D"))
            ctx.absorb(it)
            ctx.ob("success", bool(res) and all(kind == "return" and pl is const("D") for kind, pl, st in res), f"_request:{code}", f.where, f"an answer {code} gives {sorted({outcome(k, x) for k, x, s in res})}")
    # transport
    u = p.method(q, "_urllib_request")
    ctx.ob("transport", u is not None, "_urllib_request", RF, "not found")
    if u is not None:
        lib = lambda *ns: (lambda c: True)
        cl = Rec(p, [E("open", ["urlopen"], raises=("urllib.error.HTTPError", "urllib.error.URLError", "builtins.TimeoutError", "builtins.ConnectionResetError", "http.client.HTTPException", VALUE), split=True),
                     E("read", ["read"], raises=("builtins.TimeoutError", "builtins.ConnectionResetError", "http.client.HTTPException"), split=True),
                     E("decode", ["decode"], raises=("builtins.UnicodeDecodeError",), split=True),
                     E("loads", ["loads", "load"], when=lambda c: c.fn.k == "ref", raises=("json.decoder.JSONDecodeError",), split=True)], cap=2, small=400)
        res, it = run(p, cl, u, self_cls=q, max_states=20000)
        ctx.absorb(it)
        for kind, pl, st in res:
            bad = [x for x in st.ts[1] if "!" in x and x not in ("open!HTTPError", "open!URLError")]     # an HTTPError is a URLError
            if kind == "raise" and pl.cls == "builtins.AssertionError":
                continue
            if kind == "raise":
                ctx.ob("transport", pl.cls == RERR, "+".join(st.ts[1]), u.where, f"escapes as {pl.cls}", list(st.ts[1]))
            else:
                ctx.ob("transport", not bad and "read" in st.ts[1] and pl.k == "tuple" and len(pl.a[0]) == 2, "+".join(st.ts[1]), u.where, "the failure is answered as a response", list(st.ts[1]))
                # the status is the one of the exchange
                if pl.k == "tuple" and len(pl.a[0]) == 2:
                    s = pl.a[0][0]
                    ok = s.k == "attr" and s.a[1] in ("status", "code") or s.k == "call" and s.a[0].k == "attr" and s.a[0].a[1] == "getcode"
                    ctx.ob("transport", ok, "status:" + "+".join(st.ts[1]), u.where, f"the status is {show(s)}")
    ctx.floor("answered", 20)
    ctx.floor("same", 60)
    ctx.floor("transport", 5)


def is_getattr(x):
    return x.k == "call" and x.a[0].k == "ref" and x.a[0].a[0] == "builtins.getattr" and len(x.a[1]) > 1 and x.a[1][1].k == "const"


def err_cls(t):
    for x in subterms(t):
        if x.k == "new":
            return x.a[0].split(".")[-1]
    return "?"


def const_deep(t):
    c = const_of(t)
    return c


def outcome(kind, pl):
    return f"{kind} {pl.cls if kind == 'raise' else show(pl, 3)}"


def talk(p, f, q, code, body):
    """run a client method against a worker that answers (code, body)"""
    answer = T("tuple", (const(code), body))
    cl = Rec(p, [E("net", ["transport", "_urllib_request"], when=lambda c: is_self(c.recv) or c.recv is None, ret=lambda c, st: [(answer, st)]),
                 E("mk", ["MaximumInstancesError"])], cap=1, small=300, stop=("obj_to_ref", "_encode_trigger"))
    cl.max_depth = 30
    res, it = run(p, cl, f, self_cls=q, max_states=8000)
    return cl, res, it


# ---------------------------------------------------------------- the edit preview's task

RT = RM + "RemoteTask"
FIELD = {"fn_reference": "callable_reference", "trigger": "trigger_description"}      # attribute -> TaskInfo field
UPDATE = {"fn": "fn_reference"}                                                          # update key -> attribute
EDITABLE = ("name", "fn", "args", "kwargs", "executor", "coalesce", "max_instances", "mistrigger_grace_time")
COPIED = {"args": ("builtins.tuple", "builtins.list"), "kwargs": ("builtins.dict",)}


def own_class(t):
    return t.k == "attr" and t.a[1] == "__class__" and is_self(t.a[0]) or t.k == "call" and t.a[0].k == "ref" and t.a[0].a[0] == "builtins.type" and len(t.a[1]) == 1 and is_self(t.a[1][0])


def update_value(t, key):
    """t is the value given for that update"""
    if t.k == "call" and t.a[0].k == "attr" and t.a[0].a[1] in ("pop", "get") and t.a[0].a[0] is T("p", "updates") and t.a[1]:
        return t.a[1][0] is const(key)
    return t.k == "idx" and t.a[0] is T("p", "updates") and t.a[1] is const(key)


def update_keys(t):
    return {x.a[1][0].a[0] for x in subterms(t) if x.k == "call" and x.a[0].k == "attr" and x.a[0].a[1] in ("pop", "get") and x.a[0].a[0] is T("p", "updates") and x.a[1] and x.a[1][0].k == "const"} | \
           {x.a[1].a[0] for x in subterms(t) if x.k == "idx" and x.a[0] is T("p", "updates") and x.a[1].k == "const"}


def classes_of(t):
    if t.k == "ref":
        return {t.a[0].split(".")[-1]}
    if t.k == "tuple":
        return set().union(set(), *[classes_of(x) for x in t.a[0]])
    if t.k == "op" and t.a[0] == "BitOr":
        return classes_of(t.a[1]) | classes_of(t.a[2])
    return {"?"}


def typed(st, key, classes):
    return any(k == "truth" and v and ts[0].k == "call" and ts[0].a[0].k == "ref" and ts[0].a[0].a[0] == "builtins.isinstance" and update_value(ts[0].a[1][0], key) and classes_of(ts[0].a[1][1]) <= classes for k, ts, v in st.facts)


def positive(st, key):
    for k, ts, v in st.facts:
        if k == "lt" and v and ts[0] is const(0) and update_value(ts[1], key):
            return True
        if k == "lt" and not v and update_value(ts[0], key) and ts[1] is const(1):
            return True
    return False


def is_none(st, key):
    return any(k == "is" and v and NONE in ts and any(update_value(x, key) for x in ts) for k, ts, v in st.facts)


def truthy(st, key):
    return any(k == "truth" and v and update_value(ts[0], key) for k, ts, v in st.facts)


ALLOWED = {
    "name": (lambda st: typed(st, "name", {"str"}) and truthy(st, "name"), "a non-empty string"),
    "executor": (lambda st: typed(st, "executor", {"str"}), "a string"),
    "max_instances": (lambda st: typed(st, "max_instances", {"int"}) and positive(st, "max_instances"), "a positive integer"),
    "mistrigger_grace_time": (lambda st: is_none(st, "mistrigger_grace_time") or typed(st, "mistrigger_grace_time", {"int", "float"}) and positive(st, "mistrigger_grace_time"), "None or a positive number"),
    "kwargs": (lambda st: typed(st, "kwargs", {"Mapping", "dict"}), "a mapping"),
}


@prop("C53", "A remote task's edit preview shows the edit and touches nothing else",
      """An edit applied to model_copy() of a RemoteTask changes exactly the fields named, each to the value given for it, refuses values Task.update_task
      refuses by type or range as well as the id and unknown fields, and its snapshot() shows every edited field. The original task keeps its values, and
      every attribute of a fresh RemoteTask is that of its TaskInfo.""",
      ["inputs", "state/history"],
      "every editable field and value, every combination of fields",
      "the preview decides whether an edit is sent at all (an empty diff is not applied): a field the proxy drops can never be edited remotely",
      [RF, "asyncz/tasks/inspection.py"],
      [("RemoteTask", RF)],
      "attribute-write dataflow: each write's source key and the facts it happens under; key table of snapshot(); aliasing of the copied containers",
      "Whether a callable reference can be imported is only known in the worker.")
def c53(ctx):
    p = ctx.proj
    ctx.rule("field", "each update is written to its attribute, from its own value")
    ctx.rule("allowed", "a value is written only if the local task would take it")
    ctx.rule("refused", "the id and unknown fields are refused")
    ctx.rule("shown", "the snapshot shows every edited attribute")
    ctx.rule("mirror", "the attributes of a fresh proxy are those of its TaskInfo")
    ctx.rule("copy", "the copy is a proxy of its own, sharing no mutable value with the original")
    ctx.need(RT in p.classes, "RemoteTask not found")
    m = {n: p.method(RT, n) for n in ("__init__", "model_copy", "update_task", "snapshot")}
    for n, f in m.items():
        ctx.need(f is not None, f"RemoteTask.{n} not found")
    attrs = {UPDATE.get(k, k) for k in EDITABLE}

    class Rt(Rec):
        def __init__(self, p, **kw):
            super().__init__(p, [E("", ["model_copy", "pop", "popitem", "clear"])], cap=1, small=400, stop=("obj_to_ref", "get_callable_name"), **kw)
            self.writes = []

        def attr_write(self, base, name, value, st, node, fr):
            if is_self(base):
                self.writes.append((name, value, st, f"{fr.func.module.rel}:{node.lineno}"))
            return super().attr_write(base, name, value, st, node, fr)
    # update_task
    cl = Rt(p)
    cl.merge_by_ts = False
    f = m["update_task"]
    res, it = run(p, cl, f, self_cls=RT, max_states=60000)
    ctx.absorb(it)
    written = {}
    for name, value, st, where in cl.writes:
        keys = update_keys(value)
        k = next((k for k in EDITABLE if UPDATE.get(k, k) == name), None)
        ctx.ob("field", k is not None and keys == {k}, f"{name}", where, f"{name} is written from {sorted(keys) or show(value)}")
        written.setdefault(name, set()).add(where)
        if k in ALLOWED:
            pred, what = ALLOWED[k]
            ctx.ob("allowed", pred(st), f"{name}", where, f"{name} is written for a value that need not be {what}", [f"{a} {' ; '.join(show(x) for x in ts)} {v}" for a, ts, v in st.facts if k in update_keys(T("tuple", tuple(ts)))])
    for a in sorted(attrs):
        ctx.ob("field", a in written, f"{a}:written", f.where, f"{a} is never updated")
    upd = T("p", "updates")
    for i in cl.insts:
        if i.label == "" and i.call.name in ("pop", "popitem", "clear") and i.call.recv is upd:
            k = i.call.arg(0, "key")
            ctx.ob("refused", k is not None and k.k == "const" and k.a[0] in EDITABLE, f"swallowed:{show(k) if k is not None else i.call.name}", i.where, f"the update {show(k) if k is not None else ''} is taken out without being applied or refused")
    for kind, pl, st in res:
        if kind != "return":
            continue
        ctx.ob("refused", any(k == "truth" and not v and upd in set(subterms(ts[0])) and not update_keys(ts[0]) for k, ts, v in st.facts), "unknown", f.where, "an edit of the id or of an unknown field is accepted")
    # snapshot
    cl = Rt(p)
    f = m["snapshot"]
    res, it = run(p, cl, f, self_cls=RT)
    ctx.absorb(it)
    got = {}
    for i in cl.insts:
        if i.call.name == "model_copy":
            u = i.call.arg(0, "update")
            for k, vs in entries(u).items():
                got.setdefault(k, set()).update(vs)
            ctx.ob("shown", from_attr(i.call.recv, "_info") or i.call.recv.k == "attr", "base", i.where, f"the snapshot starts from {show(i.call.recv)}")
    for kind, pl, st in res:
        if kind == "return" and hasattr(pl, "k"):
            for x in subterms(pl):
                if x.k == "new" and x.a[0].endswith("TaskInfo"):
                    for k, v in x.a[2]:
                        got.setdefault(k, set()).add(v)
    for a in sorted(attrs):
        k = FIELD.get(a, a)
        ctx.ob("shown", bool(got.get(k)) and all(any(x.k == "attr" and is_self(x.a[0]) and x.a[1] == a for x in subterms(v)) for v in got[k]), a, f.where, f"snapshot field {k} is {[show(v) for v in got.get(k, ())] or 'not updated'}")
    # __init__
    cl = Rt(p)
    f = m["__init__"]
    res, it = run(p, cl, f, self_cls=RT)
    ctx.absorb(it)
    info = T("p", params(f)[0])
    have = {}
    for name, value, st, where in cl.writes:
        have[name] = (value, where)
    for a in sorted(set(have) - {"fn", "_info"} | attrs):
        v, where = have.get(a, (None, f.where))
        k = FIELD.get(a, a)
        ctx.ob("mirror", v is not None and any(x.k == "attr" and x.a[0] is info and x.a[1] == k for x in subterms(v)), a, where, f"{a} is {show(v) if v is not None else 'not set'}")
        if a in COPIED and v is not None:
            ctx.ob("copy", v.k in ("copyof", "newdict", "newlist") or v.k == "call" and v.a[0].k == "ref" and v.a[0].a[0] in COPIED[a] or v.k == "dict", f"{a}:init", where, f"{a} shares the container of the TaskInfo: {show(v)}")
    # model_copy
    cl = Rt(p)
    f = m["model_copy"]
    cl.noinline_pred = None
    res, it = run(p, cl, f, self_cls=RT)
    ctx.absorb(it)
    for kind, pl, st in res:
        ok = kind == "return" and pl.k == "new" and pl.a[0] == RT or kind == "return" and pl.k == "call" and own_class(pl.a[0])
        ctx.ob("copy", ok, "model_copy", f.where, f"model_copy gives {outcome(kind, pl)}")
        if ok:
            args = list(pl.a[1])
            ctx.ob("copy", any(x.k == "call" and x.a[0].k in ("attr", "func", "ref", "bound") and "snapshot" in show(x.a[0]) or x.k == "call" and x.a[0].k == "attr" and x.a[0].a[1] == "model_copy" for a in args for x in subterms(a)), "model_copy:source", f.where, f"the copy is built from {[show(a) for a in args]}, not the current values")
    ctx.floor("field", 12)
    ctx.floor("allowed", 5)
    ctx.floor("shown", 7)
    ctx.floor("mirror", 10)
