"""Shapes: representation boundaries, and the registry that names them."""
import ast

from checks._common import *  # noqa: F401,F403
from sa.project import dotted
from sa.report import prop

B = "asyncz.shapes.base.Shape"
ERR = "asyncz.shapes.errors."
SF = "asyncz/shapes/"
DEP = ERR + "ShapeDependencyError"
OPS = {"construct": "ShapeValidationError", "validate": "ShapeValidationError", "dump": "ShapeSerializationError", "load": "ShapeDeserializationError",
       "fields": "ShapeCapabilityError", "schema": "ShapeCapabilityError", "supports": None}
SAFE = ("has", "fields", "is_dataclass", "isclass", "issubclass", "isinstance")
FOREIGN = ("attr", "attrs", "msgspec", "pydantic", "pydantic_core")
BAD = ("builtins.TypeError", "builtins.ValueError", "builtins.KeyError", OTHER)


def root(t):
    while t.k in ("attr", "idx", "call", "val", "elem") and isinstance(t.a[0], T):
        t = t.a[0]
    return t


class Shaped(Rec):
    """calls into the model, its validator library and the plain dumper may raise anything"""
    def __init__(self, p, keep=None):
        super().__init__(p, [], inline_all=True, seq=False)
        self.merge_by_ts = True
        self.keep = keep
        self.foreign = 0
        self.kept = []       # (terms of a dict element, facts, node, func)

    def import_raises(self, node, st):
        mods = [node.module] if isinstance(node, ast.ImportFrom) else [a.name for a in node.names]
        return ("builtins.ImportError",) if any((m or "").split(".")[0] in FOREIGN for m in mods) else ()

    def model(self, t):
        """the model class handed in"""
        return t.k == "p" and t.a[0] == "model_type"

    def risky(self, c):
        f = c.fn
        if f.k in ("func", "closure") or c.name is None and f.k != "p":
            return False
        if self.model(f):
            return True
        if f.k == "ref":
            q = f.a[0]
            if q == "asyncz.shapes.base.dump_plain":
                return True
            if q in self.p.functions or q in self.p.classes or q.startswith("builtins."):
                return False
            return q == "typing.get_type_hints" or q.split(".")[0] in FOREIGN and (q.split(".")[-1] not in SAFE or q == "msgspec.structs.fields")
        if f.k == "attr":
            r = root(f)
            if r.k == "ref" and r.a[0].split(".")[0] in FOREIGN:
                return f.a[1] not in SAFE or r.a[0].split(".")[0] == "msgspec" and f.a[1] == "fields"
            return f.a[1].startswith("model_") or f.a[1] in ("validate_python", "dump_python", "convert", "asdict", "to_builtins")
        return False

    def call(self, c, st):
        if self.risky(c):
            self.foreign += 1
            return [("raise", x, st) for x in BAD] + [("ok", T("call", c.fn, c.args, c.kw), st)]
        return super().call(c, st)

    def on_elt(self, terms, st, node, fr):
        if isinstance(node, ast.DictComp):
            self.kept.append((terms, st.facts, node, fr.func))
        return st

    def sub_write(self, base, key, value, st, node, fr):
        if base.k == "newdict":
            self.kept.append(((key, value), st.facts, node, fr.func))
        return super().sub_write(base, key, value, st, node, fr)


def not_none(t, facts):
    """some part of the value is known not to be None"""
    parts = set(subterms(t))
    return any(k == "is" and not v and NONE in ts and any(x in parts for x in ts) for k, ts, v in facts)


def compact(t, facts, leaf):
    """a dumped value without None entries: why not, or None"""
    if t.k == "phi":
        return next((w for w in (compact(x, facts, leaf) for x in t.a[0]) if w), None)
    if t.k == "call":
        n = callee(t)
        if n in ("dump_plain", "model_dump", "dump") or any(k == "exclude_none" for k, _ in t.a[2]):
            return None if any(k == "exclude_none" and v is TRUE for k, v in t.a[2]) else "%s is called without exclude_none" % n
        if n in ("tuple", "list", "dict") and t.a[1]:
            return compact(t.a[1][0], facts, leaf)
        return "%s keeps entries that are None" % show(t)[:80]
    if t.k == "comp":
        return next((w for w in (compact(x[-1], facts, leaf) for x in t.a[1]) if w), None)
    if t.k == "p":
        if not leaf:
            return "the value is handed out as it is"
        kinds = [(ts[0], v) for k, ts, v in facts if k == "truth" and ts[0].k == "call" and callee(ts[0]) in ("isinstance", "hasattr")]
        if any(callee(x) == "isinstance" and v and "Mapping" not in show(x) and "list" not in show(x) for x, v in kinds):
            return None
        seen = " ".join(show(x) for x, v in kinds if not v)
        return None if "Mapping" in seen or "dict" in seen else "a mapping is handed out as it is"
    return None


@prop("C45", "Shapes translate every failure, keep instances, and drop None when asked",
      """Whatever a model class or its validator library raises, a Shape operation fails with its own error: validate and construct with
      ShapeValidationError, dump with ShapeSerializationError, load with ShapeDeserializationError, fields and schema with ShapeCapabilityError, and any of
      them with ShapeDependencyError when the optional library is missing, while supports() answers False. Constructing from an instance of the model returns that
      very instance, and dump(exclude_none=True) leaves no None entry in the mapping it makes, with any Shape.""",
      ["inputs", "faults"],
      "every built-in Shape, every operation, every exception the model can raise",
      "stores and the scheduler catch ShapeError only, so a raw validator error crosses the representation boundary; the tests exercise a valid model per Shape",
      [SF],
      [("dump_plain", SF + "base.py"), ("Shape classes", SF + "builtins.py")],
      "exception-flow analysis of every operation of every Shape class with calls into the model, validator library and imports raising; term analysis of construct and dump results",
      "Errors inside isinstance() against a parametrised generic, and models nested in values dumped by the library itself, are not covered.")
def c45(ctx):
    p = ctx.proj
    ctx.rule("C45.error", "only the operation's own Shape error escapes")
    ctx.rule("C45.supports", "a missing library makes supports() answer False")
    ctx.rule("C45.instance", "construct(model, instance of it) is that instance")
    ctx.rule("C45.none", "dump(exclude_none=True) drops the entries that are None")
    foreign = 0
    for q in [B] + p.subclasses(B):
        nm = q.split(".")[-1]
        for op, err in OPS.items():
            f = p.method(q, op)
            cl = Shaped(p)
            cl.merge_by_ts = op != "construct"
            res, it = run(p, cl, f, self_cls=q, args={"exclude_none": TRUE} if op == "dump" else None)
            ctx.absorb(it)
            foreign += cl.foreign
            allowed = {DEP, ERR + err} if err else set()
            bad = [(e, st) for k, e, st in res if k == "raise" and (getattr(e, "cls", None) or show(e)) not in allowed]
            ctx.ob("C45.error" if err else "C45.supports", not bad, "%s.%s" % (nm, op), f.where, "fails with %s only" % (err or "nothing") + ("; %s escapes" % exc_name(bad[0][0]) if bad else ""))
            if op == "construct":
                for k, v, st in res:
                    if k == "return":
                        other = any(kk == "truth" and not vv and ts[0].k == "call" and callee(ts[0]) == "isinstance" and len(ts[0].a[1]) == 2 and cl.model(ts[0].a[1][1]) for kk, ts, vv in st.facts)
                        same = v.k == "p" and v.a[0] == "values"
                        ctx.ob("C45.instance", same or other, "%s.construct" % nm, f.where, "an instance is returned as it is: %s" % show(v)[:120])
            if op == "dump":
                dumped(ctx, "%s.dump" % nm, f, cl, res, False)
    f = p.func("asyncz.shapes.base.dump_plain")
    cl = Shaped(p)
    res, it = run(p, cl, f, args={"exclude_none": TRUE})
    ctx.absorb(it)
    dumped(ctx, "dump_plain", f, cl, res, True)
    ctx.stat("calls into models and validator libraries", foreign)
    ctx.floor("C45.error", 30)
    ctx.floor("C45.instance", 6)
    ctx.floor("C45.none", 7)


def dumped(ctx, nm, f, cl, res, leaf):
    for k, v, st in res:
        if k == "return":
            why = compact(v, st.facts, leaf)
            ctx.ob("C45.none", why is None, nm, f.where, "entries that are None are left out" + (": %s" % why if why else ""))
    for terms, facts, node, fn in cl.kept:
        if len(terms) == 2:
            ctx.ob("C45.none", not_none(terms[1], facts), "%s:entry" % nm, "%s:%d" % (fn.module.rel, node.lineno), "an entry of the mapping is known not to be None: %s" % show(terms[1])[:100])


REG = "asyncz.shapes.registry.ShapeRegistry"
NAMES = ("pydantic", "msgspec", "attrs", "dataclass", "any")


class Registry(Rec):
    def __init__(self, p):
        super().__init__(p, [M(lambda op, k, v: "write", ["_registry"])], inline_all=True)
        self.assume_hook = self.seen
        self.sub_raises = lambda base, key, st: "builtins.KeyError" if table(base) else None


    def seen(self, lit, st, node, fr):
        k, ts, v = lit
        if k == "in" and not v and table(ts[1]) or k == "is" and v and NONE in ts and any(asked(x) for x in ts):
            return self.add(st, "free")
        return st


def table(t):
    return t.k == "attr" and t.a[1] == "_registry" or t.k == "ref" and t.a[0] == REG + "._registry"


def entry_of(t, key):
    """the registered class under a key"""
    if t.k == "idx" and table(t.a[0]):
        return t.a[1] is key
    return asked(t) and t.a[1][0] is key


def asked(t):
    """registry.get(...)"""
    f = t.a[0] if t.k == "call" else None
    return f is not None and len(t.a[1]) == 1 and (f.k == "attr" and f.a[1] == "get" and table(f.a[0]) or f.k == "ref" and f.a[0] == REG + "._registry.get")


def made(t, key):
    """a new instance of the class registered under a key"""
    return t.k == "call" and not t.a[1] and not t.a[2] and entry_of(t.a[0], key)


def said(st, names, x):
    """the truth value the path knows of a predicate call about x"""
    for k, ts, v in st.facts:
        if k == "truth" and ts[0].k == "call" and callee(ts[0]) in names and ts[0].a[1] and ts[0].a[1][0] is x:
            return v
    return None


@prop("C46", "Shape names resolve deterministically, with no silent fallback",
      """A name is registered once: a second registration without replace=True fails with ShapeRegistrationError and changes nothing, as does an empty
      name or something that is not a Shape class. Resolving gives a new instance of exactly the class registered under the name, the instance
      or an instance of the class that was passed, or the Pydantic Shape for None; anything else fails with a Shape error, and every built-in Shape is registered under its own name.""",
      ["inputs", "histories"],
      "every registration history and every value of the shape setting",
      "a durable record names the Shape that wrote it; if a name resolved to another Shape, or fell back to one, restored tasks would be read by the wrong validator",
      [SF],
      [("ShapeRegistry", SF + "registry.py"), ("built-in registrations", SF + "__init__.py")],
      "typestate of registry writes with path facts; term analysis of every resolution path; agreement of registered names with class attributes",
      "Concurrent registration from several threads is not covered.")
def c46(ctx):
    p = ctx.proj
    ctx.rule("C46.register", "a registration writes its own name once, only when it is valid and the name is free or replace is set")
    ctx.rule("C46.get", "get(name) is a new instance of the class registered under it, else ShapeNotFoundError")
    ctx.rule("C46.resolve", "each kind of shape setting resolves to what it names, anything else is an error")
    ctx.rule("C46.names", "the built-in Shapes are registered under their own names")
    name, shape, replace = T("p", "name"), T("p", "shape"), T("p", "replace")
    f = p.method(REG, "register")
    cl = Registry(p)
    res, it = run(p, cl, f, self_cls=REG)
    ctx.absorb(it)
    for k, v, st in res:
        n = st.ts[1].count("write")
        if k == "raise":
            ctx.ob("C46.register", n == 0 and exc_name(v) == "ShapeRegistrationError", "register:refused", f.where, "a refused registration changes nothing and is a ShapeRegistrationError: %s" % exc_name(v))
            continue
        ctx.ob("C46.register", n == 1 and v is shape, "register:done", f.where, "an accepted registration is written once and the class is returned")
    for i in cl.insts:
        free = "free" in i.seq or any(k == "truth" and v and ts[0] is replace for k, ts, v in i.st.facts)
        ok = i.op == "[]=" and i.key is name and i.value is shape
        ctx.ob("C46.register", ok, "register:write", i.where, "the class is stored under its name")
        ctx.ob("C46.register", free, "register:free", i.where, "the name is not taken, or replace is set")
        ctx.ob("C46.register", said(i.st, ("issubclass",), shape) is True, "register:class", i.where, "only a Shape class is registered")
        ctx.ob("C46.register", said(i.st, ("isinstance",), name) is True and any(k == "truth" and v and ts[0] is name or k in ("eq", "len") and not v and name in ts for k, ts, v in i.st.facts), "register:name", i.where, "the name is a non-empty string")
    f = p.method(REG, "get")
    cl = Registry(p)
    res, it = run(p, cl, f, self_cls=REG)
    ctx.absorb(it)
    for k, v, st in res:
        if k == "raise":
            ctx.ob("C46.get", exc_name(v) == "ShapeNotFoundError", "get:unknown", f.where, "an unknown name is a ShapeNotFoundError: %s" % exc_name(v))
        else:
            ctx.ob("C46.get", made(v, name), "get:known", f.where, "a new instance of the registered class: %s" % show(v)[:120])
    ctx.ob("C46.get", any(k == "raise" for k, v, st in res), "get:unknown", f.where, "an unknown name is an error")
    for q, recv in ((REG + ".resolve", REG), ("asyncz.shapes.registry.resolve_shape", None)):
        f = p.func(q)
        nm = q.split(".")[-1]
        for arg in (NONE, shape):
            cl = Registry(p)
            res, it = run(p, cl, f, self_cls=recv, args={"shape": arg})
            ctx.absorb(it)
            for k, v, st in res:
                if k == "raise":
                    ok = (getattr(v, "cls", "") or "").startswith(ERR)
                    ctx.ob("C46.resolve", ok, nm + ":error", f.where, "what cannot be resolved is a Shape error: %s" % exc_name(v))
                elif arg is NONE or any(kk == "is" and vv and NONE in ts and shape in ts for kk, ts, vv in st.facts):
                    ctx.ob("C46.resolve", made(v, const("pydantic")), nm + ":None", f.where, "None is the Pydantic Shape: %s" % show(v)[:120])
                else:
                    kind = "instance" if v is shape else "name" if made(v, shape) else "class" if v.k == "call" and v.a[0] is shape and not v.a[1] else None
                    facts = [(show(ts[0]), vv) for kk, ts, vv in st.facts if kk == "truth" and ts[0].k == "call" and ts[0].a[1] and ts[0].a[1][0] is shape]
                    yes = [x for x, vv in facts if vv]
                    ok = kind == "instance" and any("isinstance" in x and "Shape" in x for x in yes) or kind == "name" and any("isinstance" in x and "str" in x for x in yes) \
                        or kind == "class" and any("issubclass" in x for x in yes)
                    ctx.ob("C46.resolve", bool(ok), "%s:%s" % (nm, kind or "?"), f.where, "resolved to what was passed: %s" % show(v)[:120])
            ctx.ob("C46.resolve", any(k == "return" for k, v, st in res), "%s(%s)" % (nm, show(arg)), f.where, "resolves")
    seen = {}
    for m in p.modules.values():
        if not m.name.startswith("asyncz.shapes"):
            continue
        for n in m.tree.body:
            c = n.value if isinstance(n, ast.Expr) else None
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "register" and c.args and isinstance(c.args[0], ast.Constant):
                q = p.resolve(m, dotted(c.args[1]) or "") if len(c.args) > 1 else None
                own = p.class_attr(q, "name") if q in p.classes else None
                own = own[1] if isinstance(own, tuple) else own
                own = own.value if isinstance(own, ast.Constant) else own
                seen[c.args[0].value] = q
                ctx.ob("C46.names", own == c.args[0].value, "%s" % c.args[0].value, "%s:%d" % (m.rel, c.lineno), "registered under the name the class carries, %r" % (own,))
    if seen:
        for n in NAMES:
            ctx.ob("C46.names", n in seen, n, "asyncz/shapes/__init__.py:0", "the documented Shape is registered")
    ctx.floor("C46.register", 5)
    ctx.floor("C46.get", 2)
    ctx.floor("C46.resolve", 8)
    if not seen:
        ctx.ob("C46.names", True, "built-in", SF + "__init__.py:0", "no registration with a literal name: nothing to disagree")
