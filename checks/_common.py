"""Helpers shared by the property checks."""
from sa.rec import E, M, Rec, W, run  # noqa: F401
from sa.terms import FALSE, NONE, T, TRUE, const, contains, show, subterms  # noqa: F401

S = "asyncz.schedulers.base.BaseScheduler"
EV = "asyncz.events.constants."
EXC = "*Exception"       # some Exception, of any subclass
OTHER = "other.Error"     # an Exception that is none of the named subclasses
BEXC = "*BaseException"
MAXINST = "asyncz.exceptions.MaximumInstancesError"
CONFLICT = "asyncz.exceptions.ConflictIdError"
LOOKUP = "asyncz.exceptions.TaskLookupError"


def from_attr(t, *names):
    """does the value come out of an attribute with one of these names (container element, index, ...)"""
    return t is not None and any(x.k == "attr" and x.a[1] in names for x in subterms(t))


def container_of(t):
    """attribute name of the container that t is a member (value) of, looking through copies and views"""
    if t.k not in ("val", "idx", "elem"):
        return None
    b = t.a[0]
    for _ in range(6):
        if b.k == "attr":
            return b.a[1]
        if b.k == "call" and b.a[0].k == "ref" and b.a[0].a[0].startswith("builtins.") and b.a[1]:
            b = b.a[1][0]
        elif b.k == "call" and b.a[0].k == "attr" and b.a[0].a[1] in ("values", "items", "copy"):
            b = b.a[0].a[0]
        elif b.k in ("elem", "copyof", "val"):
            b = b.a[0]
        else:
            return None
    return None


def _component(t, params, lookup, attr):
    if t is None or t.k == "self":
        return False
    if t.k == "p" and t.a[0] in params:
        return True
    if t.k == "call" and t.a[0].k in ("attr", "func"):
        n = t.a[0].a[1] if t.a[0].k == "attr" else t.a[0].a[0].split(".")[-1]
        if n == lookup:
            return True
        if t.a[0].k == "attr" and n in ("get", "pop") and t.a[0].a[0].k == "attr" and t.a[0].a[0].a[1] == attr:
            return True
    if t.k == "phi":
        return all(_component(x, params, lookup, attr) for x in t.a[0])
    return container_of(t) == attr


def is_store(t):
    return _component(t, ("store", "_store"), "lookup_store", "stores")


def is_executor(t):
    return _component(t, ("executor", "_executor"), "lookup_executor", "executors")


def is_self(t):
    return t is not None and t.k in ("self", "super")


def code_name(t):
    """symbolic name of an event code term"""
    if t is None:
        return "?"
    if t.k == "ref":
        n = t.a[0].split(".")[-1]
        return "SCHEDULER_START" if n == "SCHEDULER_STARTED" else n
    if t.k == "const":
        return f"#{t.a[0]}"
    return "?"


def event_terms(t):
    """constructor terms an event value may be"""
    if t is None:
        return []
    if t.k == "phi":
        return [y for x in t.a[0] for y in event_terms(x)]
    if t.k == "new":
        return [t]
    return []


def new_kw(t, name, pos=None):
    for k, v in t.a[2]:
        if k == name:
            return v
    if pos is not None and pos < len(t.a[1]):
        return t.a[1][pos]
    return None


def event_code(t):
    names = {code_name(new_kw(x, "code", 0)) for x in event_terms(t)}
    return names.pop() if len(names) == 1 else "?"


def dispatch_label(c):
    return "ev:" + event_code(c.arg(0, "event"))


def DISPATCH():
    return E(dispatch_label, ["dispatch_event"])


def fact(st, kind, pred):
    """truth value recorded for a literal whose terms satisfy pred, or None"""
    for f in st.facts:
        if f[0] == kind and pred(f[1]):
            return f[2]
    return None


def state_facts(st):
    """{STATE_NAME: bool} known about <x>.state on this path"""
    out = {}
    for f in st.facts:
        if f[0] in ("eq", "is") and f[1][0].k == "attr" and f[1][0].a[1] == "state" and f[1][1].k == "ref":
            out[f[1][1].a[0].split(".")[-1]] = f[2]
    return out


def state_is(st, name):
    """True / False / None"""
    f = state_facts(st)
    if name in f:
        return f[name]
    if any(v for v in f.values()):
        return False
    names = {"STATE_STOPPED", "STATE_RUNNING", "STATE_PAUSED"}
    if name in names and all(f.get(n) is False for n in names - {name}):
        return True
    # written on this path
    for (b, a), v in st.heap.items():
        if a == "state" and v.k == "ref":
            return v.a[0].split(".")[-1] == name
    return None


def seq(st):
    return st.ts[1]


def locks(st):
    return st.ts[0]


def trace(st):
    return [" -> ".join(seq(st)) or "(no event)"]


def count(s, *labels):
    return sum(s.count(x) for x in labels)


def exc_name(e):
    return e.cls.split(".")[-1]


def kinds(res):
    return [(k, pl, st) for k, pl, st in res]


def live_view(t, *attrs):
    """is iterating t iterating the container itself (not a copy of it)"""
    if t is None:
        return False
    if t.k == "attr":
        return t.a[1] in attrs
    if t.k == "phi":
        return any(live_view(x, *attrs) for x in t.a[0])
    if t.k == "call" and t.a[0].k == "ref":
        n = t.a[0].a[0].split(".")[-1]
        return n in ("enumerate", "iter", "reversed", "zip", "map", "filter", "islice", "chain") and any(live_view(x, *attrs) for x in t.a[1])
    if t.k == "call" and t.a[0].k == "attr" and t.a[0].a[1] in ("items", "values", "keys"):
        return live_view(t.a[0].a[0], *attrs)
    if t.k == "comp" and t.a[0] == "gen":
        return any(live_view(x, *attrs) for x in t.a[2])
    return False


def mutated_in_place(p, attr):
    import ast
    from sa.rec import MUTATORS

    def is_attr(x):
        return isinstance(x, ast.Attribute) and x.attr == attr
    for m in p.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and is_attr(n.func.value):
                return True
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and is_attr(n.value):
                return True
            if isinstance(n, ast.AugAssign) and is_attr(n.target):
                return True
    return False


def callee(t):
    """last name of what a call term calls"""
    if t is None or t.k != "call":
        return None
    g = t.a[0]
    if g.k == "attr":
        return g.a[1]
    if g.k in ("func", "ref") and isinstance(g.a[0], str):
        return g.a[0].split(".")[-1]
    return None


class Unknown(Exception):
    pass


def fold(p, t):
    """Python constant a term stands for; Unknown when it is not one"""
    if t.k == "const":
        return t.a[0]
    if t.k == "ref":
        try:
            return p.const_of(t.a[0])
        except ValueError:
            raise Unknown(show(t)) from None
    if t.k in ("tuple", "list", "set"):
        vals = [fold(p, x) for x in t.a[0]]
        return frozenset(vals) if t.k == "set" else tuple(vals)
    if t.k == "op" and len(t.a) == 3:
        import operator as o
        f = {"BitOr": o.or_, "BitAnd": o.and_, "Add": o.add, "Sub": o.sub, "Mult": o.mul, "BitXor": o.xor}.get(t.a[0])
        if f:
            return f(fold(p, t.a[1]), fold(p, t.a[2]))
    if t.k == "call" and t.a[0].k == "ref" and t.a[0].a[0] in ("builtins.frozenset", "builtins.set", "builtins.tuple", "builtins.list") and len(t.a[1]) == 1:
        return fold(p, t.a[1][0])
    raise Unknown(show(t))


def folded(p, t, default=None):
    try:
        return fold(p, t)
    except Unknown:
        return default


def outer(p, f, seen=()):
    """the functions a private helper is a piece of: its callers in the module, when it is used by calls only; otherwise itself"""
    import ast
    if not f.name.startswith("_") or f.name.startswith("__") or f.qual in seen:
        return {f.qual: f}
    got = {}
    calls = uses = 0
    for g in p.functions.values():
        if g.module is not f.module:
            continue
        for n in ast.walk(g.node):
            if isinstance(n, ast.Call) and (isinstance(n.func, ast.Attribute) and n.func.attr == f.name or isinstance(n.func, ast.Name) and n.func.id == f.name):
                got[g.qual] = g
    for n in ast.walk(f.module.tree):
        if isinstance(n, ast.Call) and (isinstance(n.func, ast.Attribute) and n.func.attr == f.name or isinstance(n.func, ast.Name) and n.func.id == f.name):
            calls += 1
        if isinstance(n, ast.Attribute) and n.attr == f.name or isinstance(n, ast.Name) and n.id == f.name:
            uses += 1
    elsewhere = any(isinstance(n, ast.Attribute) and n.attr == f.name for m in p.modules.values() if m is not f.module for n in ast.walk(m.tree))
    got.pop(f.qual, None)
    if not got or calls != uses or elsewhere:
        return {f.qual: f}
    out = {}
    for g in got.values():
        out.update(outer(p, g, seen + (f.qual,)))
    return out


def bare(t):
    """a sequence, copies of it into a list or tuple seen through"""
    while t.k == "call" and callee(t) in ("list", "tuple") and len(t.a[1]) == 1 and t.a[0].k == "ref":
        t = t.a[1][0]
    return t
