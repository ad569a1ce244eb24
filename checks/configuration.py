"""C24, C75: configuration of the scheduler, and the plugin aliases it is configured with."""
import ast

from checks.operations import spread_of
from checks.remote import params
from sa.report import prop

from ._common import *  # noqa: F401,F403

FILE = "asyncz/schedulers/base.py"
KINDS = {"executor": ("executors", "add_executor", "asyncz.executors.types.ExecutorType"), "store": ("stores", "add_store", "asyncz.stores.types.StoreType")}
# attribute of the scheduler -> option it is configured by
SETTINGS = {"identity": "identity", "heartbeat_stale_after": "heartbeat_stale_after", "shape": "shape", "timezone": "timezone", "lock_path": "lock_path", "store_retry_interval": "store_retry_interval",
            "startup_delay": "startup_delay", "task_defaults": "task_defaults", "logger_name": "logger_name", "loggers": "loggers_class", "event_loop": "event_loop", "isolated_event_loop": "isolated_event_loop"}
CONFIG = T("p", "CONFIG")
PLUGGED = T("p", "PLUGGED")


def option_of(t):
    """names of the options of CONFIG a term is made from"""
    out = set()
    for x in subterms(t):
        if x.k == "call" and x.a[0].k == "attr" and x.a[0].a[0] is CONFIG and x.a[1] and x.a[1][0].k == "const":
            out.add(x.a[1][0].a[0])
        elif x.k == "idx" and x.a[0] is CONFIG and x.a[1].k == "const":
            out.add(x.a[1].a[0])
    return out


def entry(t, section):
    """is the term ('key' / 'val') of the configured section"""
    if t is not None and t.k in ("key", "val", "elem", "idx") and section in option_of(t.a[0]):
        return "val" if t.k in ("val", "idx") else t.k
    return None


def contained(t, v, c):
    return contains(t, v) or t.k in ("dict", "newdict") and any(contains(x, v) for _, x in spread_of(t, c))


class Setup(Rec):
    def __init__(self, p):
        super().__init__(p, [E("add:executor", ["add_executor"]), E("add:store", ["add_store"]), E("plug", ["create_plugin_instance"], ret=lambda c, st: [PLUGGED]),
                             E(lambda c: "pop:" + str(c.arg(0).a[0]) if c.arg(0) is not None and c.arg(0).k == "const" else "", ["pop"], when=lambda c: c.recv is not None and c.recv is not CONFIG),
                             E("parent", ["_setup"]), W(lambda *a: "", list(SETTINGS)), E("", ["resolve_shape", "dump"])],
                         stop={"add_executor", "add_store", "create_plugin_instance", "resolve_shape", "dump", "maybe_ref", "ref_to_obj", "to_timezone_with_fallback"}, cap=4, small=300)
        self.built, self.sets, self.kept = [], [], []
        self.keep_break = True

    def call(self, c, st):
        if option_of(c.fn) & {"executors", "stores"} and c.fn.k not in ("func", "closure") and any(callee(x) in ("maybe_ref", "ref_to_obj", "resolve_load_plugin") for x in subterms(c.fn)) and not (c.fn.k == "attr" and c.name in ("pop", "get", "items")) and c.fn.k != "ref":
            self.built.append((c, st, f"{c.func.module.rel}:{c.node.lineno}"))
        return super().call(c, st)

    def on_loop(self, kind, it, st, node, fr):
        if isinstance(node, ast.For) and kind in ("iter", "exit", "break"):
            locks, s = st.ts or ((), ())
            o = next(iter(option_of(it) & {"executors", "stores"}), None)
            if o is None:
                return st
            mark = "@" + o
            if mark in s:
                i = s.index(mark)
                self.kept.append((s[i:], o, st, f"{fr.func.module.rel}:{node.lineno}"))
                s = s[:i]
            return st.w(ts=(locks, s + (mark,) if kind == "iter" else s))
        return st

    def attr_write(self, base, name, value, st, node, fr):
        if is_self(base) and name in SETTINGS:
            self.sets.append((name, value, st, f"{fr.func.module.rel}:{node.lineno}"))
        return super().attr_write(base, name, value, st, node, fr)


@prop("C24", "Configuration gives exactly the configured components and settings",
      """Configuring a scheduler registers every configured executor and store under its own alias: the given object, or one built from its 'type' or
      'class' with exactly the remaining options, while an entry that is neither is refused; the configuration passed in is left as it was. Each setting takes the
      value of the option of its name. Options given directly win over the global configuration, and a running scheduler refuses to be reconfigured.""".replace("\n      ", " "),
      ["inputs"],
      "every configuration mapping: any number of components, of every form, and any combination of settings",
      "components come in three forms for two kinds, settings combine freely; tests configure a few of them",
      ["asyncz/schedulers/base.py", "asyncz/schedulers/asyncio.py"], [("BaseScheduler.setup/_setup", FILE), ("AsyncIOScheduler._setup", "asyncz/schedulers/asyncio.py")],
      "path-sensitive abstract interpretation of setup and _setup with a symbolic configuration",
      "Each iteration over a configured section is judged by what it registers, under which alias and built from what; settings by the option their value is read from.")
def c24(ctx):
    p = ctx.proj
    ctx.rule("registered", "every configured component is added once, under its alias, or refused")
    ctx.rule("built", "built by its type or class from exactly the other options")
    ctx.rule("settings", "a setting takes the value of the option of its name")
    ctx.rule("merged", "direct options win over the global configuration")
    ctx.rule("untouched", "the caller's configuration entries are not modified")
    ctx.rule("running", "a running scheduler refuses to be reconfigured")
    for q in [S] + p.subclasses(S):
        f = p.method(q, "_setup")
        if f is None or q != S and f.cls.qual == S:
            continue
        cl = Setup(p)
        if q != S:
            cl.stop = cl.stop | {"_setup"}
        res, it = run(p, cl, f, self_cls=q, args={params(f)[0]: CONFIG}, max_states=9000)
        ctx.absorb(it)
        sections = {}
        up = [i for i in cl.insts if i.label == "parent"]
        for i in up:
            ctx.ob("registered", i.call.arg(0) is CONFIG, f"{q}:parent", i.where, f"hands {show(i.call.arg(0))} to the general set-up")
        if up:
            ctx.ob("registered", all(seq(st).count("parent") == 1 for k, pl, st in res if k == "return"), f"{q}:parent:once", f.where, "the general set-up is not always done")
        for i in cl.insts:
            c = i.call
            if not i.label.startswith("add:"):
                if i.label.startswith("pop:") and i.label[4:] in ("class", "type"):
                    ctx.ob("untouched", entry(c.recv, "executors") is None and entry(c.recv, "stores") is None, i.label, i.where, f"takes '{i.label[4:]}' out of the caller's own mapping {show(c.recv)}")
                continue
            kind = i.label[4:]
            sec = KINDS[kind][0]
            obj, alias = c.arg(0, kind), c.arg(1, "alias")
            ctx.ob("registered", alias is not None and entry(alias, sec) == "key", f"{kind}:alias", i.where, f"registered under {show(alias) if alias is not None else 'the default alias'}")
            own = entry(obj, sec) == "val"
            form = "instance" if own else "type" if obj is PLUGGED else "class" if obj is not None and any(callee(x) in ("maybe_ref", "ref_to_obj") for x in subterms(obj)) else None
            sections.setdefault(kind, set()).add(form)
            ctx.ob("registered", form is not None, f"{kind}:object", i.where, f"registers {show(obj)[:150]}")
            if own:
                inst = [v for k, ts, v in i.st.facts if k == "truth" and callee(ts[0]) == "isinstance" and ts[0].a[1][0] is obj and KINDS[kind][2].split(".")[-1] in show(ts[0].a[1][1])]
                ctx.ob("registered", inst == [True], f"{kind}:instance", i.where, "registers an object that may be no " + kind)
        for kind in KINDS if not up else ():
            ctx.ob("registered", {"instance", "type", "class"} <= sections.get(kind, set()), f"{kind}:forms", f.where, f"{kind}s given as {', '.join({'instance', 'type', 'class'} - sections.get(kind, set()))} are never registered")
        for s, sec, st, w in cl.kept:
            kind = "executor" if sec == "executors" else "store"
            n = sum(x == f"add:{kind}" for x in s)
            ctx.ob("registered", n == 1 and not [x for x in s if x.startswith("add:") and x != f"add:{kind}"], f"{kind}:once", w, f"a configured {kind} is registered {n} times" if n != 1 else "registered as another kind of component", list(s))
        for i in cl.insts:
            if i.label != "plug":
                continue
            c = i.call
            k, al, opts = c.arg(0, "_type"), c.arg(1, "alias"), c.arg(2, "constructor_args")
            kind = k.a[0] if k is not None and k.k == "const" else None
            sec = KINDS.get(kind, (None,))[0]
            ctx.ob("built", kind in KINDS and al is not None and option_of(al) <= {sec} and option_of(al), f"type:{kind}", i.where, f"builds {show(k)} {show(al)}", trace(i.st))
            ctx.ob("built", named(al, "type"), f"type:{kind}:name", i.where, f"the plugin's name is {show(al)}")
            ctx.ob("built", opts is not None and any(contained(opts, v, c) for v in allvals(al)) and stripped(opts, i.seq), f"type:{kind}:options", i.where, f"built with {show(opts) if opts is not None else 'nothing'}", trace(i.st))
        for c, st, w in cl.built:
            ctx.ob("built", named(c.fn, "class"), "class:name", w, f"the class is {show(c.fn)}")
            opts = [v for k, v in c.kw if k == "**"]
            ctx.ob("built", len(opts) == 1 and not c.args and len(c.kw) == 1 and any(contained(opts[0], v, c) for v in allvals(c.fn)) and stripped(opts[0], seq(st)), "class:options", w,
                   f"built with {show(c.args)} {show(c.kw)}", trace(st))
        got = {}
        for name, value, st, w in cl.sets:
            got.setdefault(name, []).append((value, w, st))
        loop = ("event_loop", "isolated_event_loop")
        want = {k: v for k, v in SETTINGS.items() if (k in loop) == bool(up) or q != S and not up}
        if "Native" in q:
            want.pop("event_loop", None)
        for name, opt in want.items():
            vs = got.get(name, [])
            ctx.ob("settings", any(opt in option_of(v) or opt in facts_opts(st) for v, w, st in vs), f"{q.split('.')[-1]}:{name}", f.where, f"{name} is not set from the option {opt}")
            for v, w, st in vs:
                os_ = option_of(v)
                ok = opt in os_ or not os_ or opt in facts_opts(st)
                ctx.ob("settings", ok, f"{name}:source", w, f"{name} is set from {', '.join(sorted(map(str, os_)))}")
    # precedence and refusal
    f = p.method(S, "setup")
    kwn = T("p", f.node.args.kwarg.arg) if f.node.args.kwarg else None
    cl = Rec(p, [E("apply", ["_setup"]), E("opt", ["update"], when=lambda c: kwn is not None and any(x is kwn for x in c.args) or any(k == "**" and v is kwn for k, v in c.kw))], stop={"_setup"}, cap=3)
    wrote = []
    orig = cl.sub_write

    def sub_write(b, key, value, st, node, fr):
        wrote.append((b, key, value, st, f"{fr.func.module.rel}:{node.lineno}"))
        st = cl.add(st, "w")
        return orig(b, key, value, st, node, fr)
    cl.sub_write = sub_write
    res, it = run(p, cl, f, self_cls=S, args={"prefix": const("asyncz.")}, max_states=6000)
    ctx.absorb(it)
    n = 0
    for i in cl.insts:
        if i.label != "apply":
            continue
        n += 1
        arg = i.call.arg(0)
        state = [v for k, ts, v in i.st.facts if k in ("eq", "is") and any(from_attr(x, "state") for x in ts) and any("STATE_STOPPED" in show(x) for x in ts)]
        ctx.ob("running", state == [True], "setup", i.where, "reconfigures without knowing that the scheduler is stopped")
        s = i.seq
        direct = arg is not None and arg.k == "dict" and [x for k, x in arg.a[0]][-1:] == [kwn]
        ctx.ob("merged", direct or "opt" in s and "w" not in s[s.index("opt"):], "options", i.where, "direct options do not win over the global configuration", list(s))
    ctx.ob("merged", n > 0, "setup", f.where, "setup never applies the configuration")
    for k, pl, st in res:
        if k == "return":
            ctx.ob("merged", sum(x == "apply" for x in seq(st)) == 1, "applied", f.where, "the configuration is not applied", trace(st))
    ctx.ob("merged", any(contains(v, T("p", "global_config")) for b, k, v, st, w in wrote) or n > 0 and any(contains(i.call.arg(0), T("p", "global_config")) for i in cl.insts if i.label == "apply"), "global", f.where, "the global configuration is not used")
    global_keys(ctx, p)
    f = p.method(S, "__init__")
    cl = Rec(p, [E("setup", ["setup"])], stop={"setup"})
    res, it = run(p, cl, f, self_cls=S)
    ctx.absorb(it)
    names = params(f)
    for i in cl.insts:
        c = i.call
        ctx.ob("settings", c.arg(0, "global_config") is T("p", names[0]) and [v for k, v in c.kw if k == "**"] == [T("p", f.node.args.kwarg.arg)], "constructor", i.where, "the constructor does not pass its configuration on")
    for k, pl, st in res:
        if k == "return":
            ctx.ob("settings", seq(st).count("setup") == 1, "constructor:applied", f.where, "the constructor does not configure the scheduler")
    ctx.floor("registered", 8)
    ctx.floor("built", 4)
    ctx.floor("settings", 10)


def global_keys(ctx, p):
    """interpret setup for a global configuration with known keys: prefix stripped, other keys left out, dotted keys nested"""
    f = p.method(S, "setup")
    V = [T("p", f"V{i}") for i in range(4)]
    for prefix, keys, want in (("asyncz.", ("asyncz.executors.one.type", "asyncz.timezone", "other.identity", "asyncz.executors.two"), {"executors": {"one": {"type": V[0]}, "two": V[3]}, "timezone": V[1]}),
                               ("my_", ("my_stores.a", "stores.b", "my_stores.c"), {"stores": {"a": V[0], "c": V[2]}}),
                               (None, ("timezone", "stores.a"), {"timezone": V[0], "stores": {"a": V[1]}})):
        given = T("dict", tuple((const(k), v) for k, v in zip(keys, V)))
        tag = lambda t: "pop:" + show(t)

        def popped(c, st):
            n, i = seq(st).count(tag(c.recv)) - 1, c.arg(0)
            ks = c.recv.a[0]
            return [ks[n]] if i is not None and i is const(0) and n < len(ks) else [T("unk", "pop")]
        cl = Rec(p, [E("apply", ["_setup"]), E("", "split", when=lambda c: c.recv is not None and c.recv.k == "const", ret=lambda c, st: [T("list", tuple(const(x) for x in c.recv.a[0].split(c.args[0].a[0])))]),
                     E(lambda c: tag(c.recv), "pop", when=lambda c: c.recv is not None and c.recv.k == "list", ret=popped)], stop={"_setup"}, cap=6)
        cl.known_dicts, cl.known_seqs = True, {given}

        def hook(lit, st, node, fr):
            if lit[0] == "truth" and lit[1][0].k == "list":
                return st if lit[2] is (seq(st).count(tag(lit[1][0])) < len(lit[1][0].a[0])) else None
            return st
        cl.assume_hook = hook
        vague = []

        def on_loop(kind, it, st, node, fr):
            if isinstance(node, ast.For):   # a loop the analysis could not unroll
                vague.extend([node] if kind == "iter" else [])
            return st
        cl.on_loop = on_loop
        ps = params(f)
        res, it = run(p, cl, f, self_cls=S, args={ps[0]: given, ps[1]: const(prefix)}, max_states=3000)
        ctx.absorb(it)

        def read(t, st, depth=0):
            if t.k not in ("dict", "newdict") or t is given:
                return t
            ps = it.written(t, st)
            if depth > 4 or any(k.k != "const" and k.k != "starstar" and k is not T("unk", "key") for k, _ in ps):
                return None
            return {k.a[0]: read(v, st, depth + 1) for k, v in ps if k.k == "const"}
        for i in cl.insts:
            if i.label == "apply" and i.call.arg(0) is not None:
                got = read(i.call.arg(0), i.st)
                known = isinstance(got, dict) and not vague
                ctx.ob("merged", not known or got == want, f"keys:{prefix}", i.where, f"of the keys {', '.join(keys)} with the prefix {prefix!r} it takes {got}", trace(i.st))


def facts_opts(st):
    return {o for k, ts, v in st.facts for t in ts for o in option_of(t)}


def named(t, key):
    """is the value read from the entry's own key"""
    if t is None:
        return False
    return any(x.k == "call" and x.a[0].k == "attr" and x.a[0].a[1] in ("pop", "get") and x.a[1] and x.a[1][0] is const(key) or x.k == "idx" and x.a[1] is const(key) for x in subterms(t))


def allvals(t):
    return [x for x in subterms(t) if x.k == "val" or x.k == "idx" and x.a[1].k != "const"]


def stripped(opts, s):
    """neither 'class' nor 'type' is among the options"""
    if {"pop:class", "pop:type"} <= set(s):
        return True
    txt = " ".join(str(x) for y in subterms(opts) if y.k == "comp" for x in y.a)
    return "'class'" in txt and "'type'" in txt


PLUGINS = {"trigger": ("triggers", "trigger_plugins", "trigger_classes", "asyncz.triggers.types.TriggerType"), "store": ("stores", "store_plugins", "store_classes", "asyncz.stores.types.StoreType"),
           "executor": ("executors", "executor_plugins", "executor_classes", "asyncz.executors.types.ExecutorType")}


@prop("C75", "Plugin aliases give only components of the right kind, with the given options",
      """A trigger, store or executor asked for by alias is built with exactly the given options from the class the alias stands for; a class that is not of
      the kind asked for is never instantiated, however often it is asked for, and an unknown alias is refused. Every built-in alias names an existing class of its kind,
      for triggers one that reports that alias. Adding a component under an alias in use is refused and leaves the present one in place.""".replace("\n      ", " "),
      ["inputs", "histories"],
      "every kind, alias, plugin table and sequence of requests",
      "the second request for an alias takes another path than the first; tests ask once, and import only some of the optional backends",
      ["asyncz/schedulers/base.py", "asyncz/schedulers/defaults.py"], [("BaseScheduler.create_plugin_instance", FILE), ("create_trigger", FILE), ("defaults", "asyncz/schedulers/defaults.py")],
      "path-sensitive abstract interpretation of the plugin loader per kind, and resolution of the alias tables against the class hierarchy",
      "A remembered class must have been checked on the path that remembered it; instances are traced to the class table of their kind.")
def c75(ctx):
    p = ctx.proj
    ctx.rule("builtin", "a built-in alias names an existing class of its kind")
    ctx.rule("checked", "only classes of the right kind are instantiated or remembered")
    ctx.rule("options", "instances are built from the alias's class with exactly the given options")
    ctx.rule("unknown", "an unknown alias is refused")
    ctx.rule("in-use", "an alias in use is refused")
    ctx.rule("trigger", "a trigger is the given one, or built for the alias")
    m = p.modules.get("asyncz.schedulers.defaults")
    for kind, (table, pl, cls, base) in PLUGINS.items():
        vals = m.assigns.get(table, []) if m else []
        d = vals[0] if len(vals) == 1 and isinstance(vals[0], ast.Dict) else None
        ctx.ob("builtin", d is not None, f"{kind}:table", "asyncz/schedulers/defaults.py", f"the table of {kind} aliases is not a dictionary display")
        for k, v in zip(d.keys, d.values) if d else ():
            w = f"asyncz/schedulers/defaults.py:{v.lineno}"
            ref = v.value if isinstance(v, ast.Constant) and isinstance(v.value, str) else ""
            q = ref.replace(":", ".")
            known = ":" in ref and q in p.classes
            ctx.ob("builtin", known and base in p.mro(q), f"{kind}:{getattr(k, 'value', '?')}", w, f"{ref} is no {kind} class")
            if known and kind == "trigger":
                al = class_const(p, q, "alias")
                ctx.ob("builtin", al == k.value, f"{kind}:{k.value}:alias", w, f"the trigger reports the alias {al!r}")
    f = p.method(S, "create_plugin_instance")
    n = 0
    for kind, (table, pl, cls, base) in PLUGINS.items():
        wrote, built = [], []
        ALIAS, ARGS = T("p", "ALIAS"), T("p", "ARGS")

        class Load(Rec):
            def call(self, c, st):
                if any(k == "**" for k, v in c.kw) and c.fn.k not in ("func", "closure"):
                    built.append((c, st))
                    self.record("new", "call", st, c.node, c.func, call=c, base=c.recv, stack=c.stack)
                    return [("ok", T("p", "BUILT"), self.add(st, "new"))]
                return super().call(c, st)

            def sub_write(self, b, key, value, st, node, fr):
                wrote.append((b, key, value, st, f"{fr.func.module.rel}:{node.lineno}"))
                return super().sub_write(b, key, value, st, node, fr)
        cl = Load(p, [E("load", ["resolve_load_plugin"])], stop={"resolve_load_plugin"})
        cl.sub_raises = lambda b, k, st: "builtins.KeyError" if from_attr(b, "trigger_classes", "store_classes", "executor_classes") and ("in", (k, b), True) not in st.facts else None
        pn = params(f)
        res, it = run(p, cl, f, self_cls=S, args={pn[0]: const(kind), pn[1]: ALIAS, pn[2]: ARGS})
        ctx.absorb(it)

        def right(t, st):
            """the class was verified on this path, or is remembered (verified before)"""
            if t.k in ("idx", "call") and from_attr(t, cls) and contains(t, ALIAS) and not any(callee(x) == "resolve_load_plugin" for x in subterms(t)):
                return True
            return any(k == "truth" and v and callee(ts[0]) == "issubclass" and ts[0].a[1][0] is t and ts[0].a[1][1] is T("ref", base) for k, ts, v in st.facts)
        for b, key, value, st, w in wrote:
            if from_attr(b, "trigger_classes", "store_classes", "executor_classes"):
                ctx.ob("checked", b.k == "attr" and b.a[1] == cls and key is ALIAS, f"{kind}:remembered:where", w, f"a {kind} class is remembered in {show(b)}[{show(key)}]")
                ctx.ob("checked", right(value, st), f"{kind}:remembered", w, f"a class that may be no {kind} is remembered", trace(st))
        for c, st in built:
            n += 1
            w = f"{c.func.module.rel}:{c.node.lineno}"
            ctx.ob("checked", right(c.fn, st), f"{kind}:instantiated", w, f"{show(c.fn)} is instantiated without being known to be a {kind}", trace(st))
            ctx.ob("options", [v for k, v in c.kw] == [ARGS] and not c.args, f"{kind}:arguments", w, f"built with {show(c.args)} {show(c.kw)}")
            src = [x for x in subterms(c.fn) if callee(x) == "resolve_load_plugin"]
            ctx.ob("options", from_attr(c.fn, cls) or src and all(from_attr(x, pl) and contains(x, ALIAS) for x in src), f"{kind}:class", w, f"the class is {show(c.fn)}")
        for k, plv, st in res:
            if k == "return":
                ctx.ob("options", plv is T("p", "BUILT") and seq(st).count("new") == 1, f"{kind}:result", f.where, f"returns {show(plv)}")
        unknown = [plv for k, plv, st in res if k == "raise" and any(x[0] == "in" and x[1][0] is ALIAS and from_attr(x[1][1], pl) and not x[2] for x in st.facts)]
        ctx.ob("unknown", bool(unknown) and all("LookupError" in x.cls or "KeyError" in x.cls for x in unknown), kind, f.where, "an unknown alias is not refused")
    ctx.floor("checked", 3)
    ctx.floor("options", 3)
    # add_*: aliases in use, kinds asked for
    for kind, (attr, meth, base) in KINDS.items():
        for q in [S] + p.subclasses(S):
            f = p.method(q, meth)
            if f is None or q != S and f.cls.qual == S:
                continue
            cl = Rec(p, [E("plug", ["create_plugin_instance"]), E("", ["start", "dispatch_event", "wakeup"])], stop={"create_plugin_instance", "dispatch_event", "wakeup"})
            wrote = []
            orig = cl.sub_write

            def sub_write(b, key, value, st, node, fr, orig=orig, wrote=wrote, cl=cl):
                wrote.append((b, key, value, cl.pre_write, f"{fr.func.module.rel}:{node.lineno}"))
                return orig(b, key, value, st, node, fr)
            cl.sub_write = sub_write
            res, it = run(p, cl, f, self_cls=q)
            ctx.absorb(it)
            pn = params(f)
            A, O = T("p", pn[1]), T("p", pn[0])
            mine = [x for x in wrote if from_attr(x[0], attr)]
            ctx.ob("in-use", bool(mine), f"{kind}:added", f.where, f"no {kind} is ever added")
            for b, key, value, st, w in mine:
                free = any(k == "in" and ts[0] is A and from_attr(ts[1], attr) and not v for k, ts, v in st.facts)
                ctx.ob("in-use", key is A and free, kind, w, f"the {kind} registered under {show(key)} may replace another", trace(st))
                ok = value is O and any(k == "truth" and v and callee(ts[0]) == "isinstance" and ts[0].a[1][0] is O and ts[0].a[1][1] is T("ref", base) for k, ts, v in st.facts) or callee(value) == "create_plugin_instance"
                ctx.ob("checked", ok, f"{kind}:added", w, f"{show(value)} is registered without being known to be a {kind}", trace(st))
            for i in cl.insts:
                if i.label != "plug":
                    continue
                c = i.call
                k = c.arg(0, "_type")
                kv = enum_value(p, k)
                ctx.ob("options", kv == kind and c.arg(1, "alias") is O and c.arg(2) is T("p", f.node.args.kwarg.arg), f"{meth}:plugin", i.where, f"asks for {show(c.args)}")
    f = p.method(S, "create_trigger")
    pn = params(f)
    TR, TA = T("p", pn[0]), T("p", pn[1])
    NEW = T("p", "NEW")
    cl = Rec(p, [E("plug", ["create_plugin_instance"], ret=lambda c, st: [NEW]), E("", ["setdefault"])], stop={"create_plugin_instance"})
    res, it = run(p, cl, f, self_cls=S)
    ctx.absorb(it)
    inst = lambda st, c: next((v for k, ts, v in st.facts if k == "truth" and callee(ts[0]) == "isinstance" and ts[0].a[1][0] is TR and c in show(ts[0].a[1][1])), None)  # noqa: E731
    for i in cl.insts:
        if i.label == "plug":
            c = i.call
            al = c.arg(1, "alias")
            isnone = any(k == "is" and set(ts) == {TR, NONE} and v for k, ts, v in i.st.facts)
            ctx.ob("trigger", enum_value(p, c.arg(0)) == "trigger" and (al is TR and inst(i.st, "str") is True or isnone and al is const("date")), "alias", i.where, f"asks for {show(c.args)}", trace(i.st))
            a = c.arg(2)
            ctx.ob("trigger", a is not None and (contains(a, TA) or any(contains(v, TA) for _, v in (spread_of(a, c) if a.k in ("dict", "newdict") else ()))), "arguments", i.where, f"builds it with {show(a) if a is not None else None}")
    for k, plv, st in res:
        if k == "return":
            ctx.ob("trigger", plv is NEW and seq(st).count("plug") == 1 or plv is TR and inst(st, "TriggerType") is True, "result", f.where, f"returns {show(plv)}", trace(st))
    ctx.ob("trigger", any(k == "raise" and plv.cls.endswith("TypeError") for k, plv, st in res), "refused", f.where, "something that is neither a trigger nor an alias is accepted")
    ctx.ob("trigger", any(k == "return" and plv is TR for k, plv, st in res), "given", f.where, "a trigger object is not used as it is")
    ctx.ob("options", n >= 3, "instances", FILE, "no plugin is ever instantiated")


def enum_value(p, t):
    if t is None:
        return None
    if t.k == "const":
        return t.a[0]
    if t.k == "ref":
        cq, _, nm = t.a[0].rpartition(".")
        if cq in p.classes:
            return class_const(p, cq, nm)
    return None


def class_const(p, q, name):
    """constant the class body (or that of a base) gives the attribute"""
    for b in p.mro(q):
        c = p.classes.get(b)
        for s in c.node.body if c else ():
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == name and isinstance(s.value, ast.Constant):
                return s.value.value
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets) and isinstance(s.value, ast.Constant):
                return s.value.value
    return None
