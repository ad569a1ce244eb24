"""C47-C49, C68, C69: cron expressions, their values, the search over the fields and the way they are compared and written."""
import ast

from sa.interp import Frame, St
from sa.regex import Lang, Unsupported, common, differ
from sa.report import prop

from ._common import *

X, F, K = "asyncz.triggers.cron.expressions.", "asyncz.triggers.cron.fields.", "asyncz.triggers.cron.constants."
CRON = "asyncz.triggers.cron.trigger.CronTrigger"
ALL, RANGE, MONTH, WEEKDAY, POSITION, LAST = (X + n for n in ("AllExpression", "RangeExpression", "MonthRangeExpression", "WeekdayRangeExpression", "WeekdayPositionExpression",
                                                              "LastDayOfMonthExpression"))
NAMES = ("year", "month", "day", "week", "day_of_week", "hour", "minute", "second")
FIELD = {"year": "BaseField", "month": "MonthField", "day": "DayOfMonthField", "week": "WeekField", "day_of_week": "DayOfWeekField", "hour": "BaseField", "minute": "BaseField", "second": "BaseField"}
UNREAL = ("week", "day_of_week")
LIMITS = {"year": (1970, 9999), "month": (1, 12), "day": (1, 31), "week": (1, 53), "day_of_week": (0, 6), "hour": (0, 23), "minute": (0, 59), "second": (0, 59)}
DAYS = ("mon", "tue", "wed", "thu", "fri", "sat", "sun")
MONTHS = ("jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec")
POSITIONS = ("1st", "2nd", "3rd", "4th", "5th", "last")
# what the documentation describes, with the part each group has to hold
FORMS = {
    ALL: r"\*(?:/(?P<step>\d+))?",
    RANGE: r"(?P<first>\d+)(?:-(?P<last>\d+))?(?:/(?P<step>\d+))?",
    MONTH: r"(?i:(?P<first>[a-z]+)(?:-(?P<last>[a-z]+))?)",
    WEEKDAY: r"(?i:(?P<first>[a-z]+)(?:-(?P<last>[a-z]+))?)",
    POSITION: None,
    LAST: r"(?i:last)",
}
VALUE = "builtins.ValueError"


def cls_name(q):
    return q.split(".")[-1]


def me(q, attr):
    return T("attr", T("self", q), attr)


def rec(p, events=(), cap=3, **kw):
    cl = Rec(p, list(events), cap=cap, **kw)
    cl.exact_minmax = cl.known_dicts = True
    cl.loop_rounds = 30
    return cl


def int_ident():
    """conversions to int of what is one already"""
    return E("", ["int", "to_int"], ret=lambda c, st: [c.arg(0) if c.arg(0) is not None else c.arg(0, "value")])


# ------------------------------------------------------------------------------------------------ integer arithmetic
def canon(t):
    """integer expressions up to algebra: sums of products, remainders modulo their divisor, minima and maxima of sets"""
    if t.k == "const" and isinstance(t.a[0], int):
        return frozenset([((), t.a[0])]) if t.a[0] else frozenset()
    if t.k == "op" and len(t.a) == 3 and t.a[0] in ("Add", "Sub", "Mult"):
        a, b = canon(t.a[1]), canon(t.a[2])
        return add(a, b, -1 if t.a[0] == "Sub" else 1) if t.a[0] != "Mult" else mul(a, b)
    if t.k == "op1" and t.a[0] == "USub":
        return add(frozenset(), canon(t.a[1]), -1)
    if t.k == "op" and len(t.a) == 3 and t.a[0] == "Mod":
        s = canon(t.a[2])
        return atom(("mod", reduced(canon(t.a[1]), s), s))
    if t.k == "op" and len(t.a) == 3 and t.a[0] == "FloorDiv":
        return atom(("div", canon(t.a[1]), canon(t.a[2])))
    if t.k == "call" and callee(t) in ("min", "max") and len(t.a[1]) > 1 and not t.a[2]:
        return extreme(callee(t), [canon(a) for a in t.a[1]])
    return atom(t)


def atom(x):
    return frozenset([((x,), 1)])


def add(a, b, k=1):
    out = dict(a)
    for m, n in b:
        out[m] = out.get(m, 0) + k * n
    return frozenset((m, n) for m, n in out.items() if n)


def mul(a, b):
    out = {}
    for m, x in a:
        for n, y in b:
            k = tuple(sorted(m + n, key=repr))
            out[k] = out.get(k, 0) + x * y
    return frozenset((m, n) for m, n in out.items() if n)


def reduced(a, s):
    """a modulo s: multiples of s dropped"""
    if len(s) == 1:
        (m, k), = s
        if m and k == 1:
            return frozenset((n, c) for n, c in a if not all(x in n for x in m))
        if not m:
            return frozenset((n, c % k) for n, c in a if c % k)
    return a


def members(x, op):
    """elements of a minimum or maximum, or the value itself"""
    if len(x) == 1:
        (m, k), = x
        if k == 1 and len(m) == 1 and isinstance(m[0], tuple) and m[0][0] == op:
            return set(m[0][1])
    return {x}


def extreme(op, xs):
    s = set()
    for x in xs:
        s |= members(x, op)
    return next(iter(s)) if len(s) == 1 else atom((op, frozenset(s)))


ONE = frozenset([((), 1)])
ZERO = frozenset()


class Order:
    """what the branch facts of a path say about integers: differences known to be at least one"""
    def __init__(self, st):
        self.pos = set()
        for x in st.facts:
            if x[0] == "lt":
                d = add(canon(x[1][1]), canon(x[1][0]), -1)
                self.pos.add(d if x[2] else add(ONE, d, -1))
            elif x[0] == "eq" and x[2]:
                a, b = canon(x[1][0]), canon(x[1][1])
                self.pos |= {add(add(a, b, -1), ONE), add(add(b, a, -1), ONE)}

    def less(self, a, b):
        return add(b, a, -1) in self.pos

    def le(self, a, b):
        return a == b or self.less(a, b) or add(add(b, a, -1), ONE) in self.pos

    def simple(self, x):
        """minima and maxima without the elements the path has ruled out"""
        out = ZERO
        for m, k in x:
            v = frozenset([((), k)])
            for f in m:
                v = mul(v, self._atom(f))
            out = add(out, v)
        return out

    def _atom(self, f):
        if isinstance(f, tuple) and f[0] in ("min", "max"):
            xs = sorted({self.simple(e) for e in f[1]}, key=repr)
            le = self.le if f[0] == "min" else lambda a, b: self.le(b, a)
            return extreme(f[0], [e for i, e in enumerate(xs) if not any(le(o, e) and not (j > i and le(e, o)) for j, o in enumerate(xs) if j != i)])
        if isinstance(f, tuple):
            s = self.simple(f[2])
            return atom((f[0], reduced(self.simple(f[1]), s) if f[0] == "mod" else self.simple(f[1]), s))
        return atom(f)

    def simplified(self):
        self.pos = {self.simple(d) for d in self.pos}
        return self

    def above(self, v, limits):
        """v is known to exceed the least of the limits"""
        return any(self.less(e, low) for low in members(v, "max") | {v} for e in limits | {extreme("min", limits)})

    def within(self, v, limits):
        """v is known not to exceed any of the limits"""
        return all(reach(self, v, e, limits) for e in limits) or self.le(v, extreme("min", limits))


def cases(st, q):
    """(step given?, last given?) combinations a path is consistent with"""
    def may(attr, given):
        t = me(q, attr)
        for x in st.facts:
            if x[1][0] is t and x[0] == "truth":
                if x[2] is not given and not (attr == "last" and given and not x[2]):   # 0 is a possible last value, not a possible step
                    return False
            if x[1][0] is t and x[0] == "is" and x[1][1] is NONE and x[2] is given:
                return False
        return True
    return [(s, e) for s in (True, False) for e in (True, False) if may("step", s) and may("last", e)]


@prop("C48", "A cron expression yields its smallest matching value, or nothing",
      """From a date, `*`, a value, a range or a step yields the smallest value not below the field's current one that lies in the range and a
      whole number of steps after its first value, or nothing if there is none. The n-th (last) weekday of a month is that day if it exists and
      is not past; `last` is the month's last day. A field yields the least of what its expressions yield, and reads its own part of the date.""",
      ["inputs"],
      "every date, field, first and last value and step",
      "an off-by-one in a remainder or at a boundary shows only for some steps, months and dates",
      ["asyncz/triggers/cron/expressions.py", "asyncz/triggers/cron/fields.py"],
      [("get_next_value of every expression and field", "asyncz/triggers/cron/expressions.py"), ("get_value, get_min and get_max of every field", "asyncz/triggers/cron/fields.py")],
      "path-sensitive abstract interpretation with canonical integer arithmetic",
      """Every path's result is brought into a canonical form (sums of products, remainders modulo their divisor, minima and maxima as sets, simplified
      by the branch facts) and compared with the specified one; a path without result must carry the comparison that excludes every value.""",
      assumptions=["a step is positive (validated when the expression is built)", "calendar.monthrange, date.weekday and date.isocalendar behave as documented"])
def c48(ctx):
    p = ctx.proj
    ctx.rule("value", "the value of an expression")
    ctx.rule("none", "no value only if none matches")
    ctx.rule("position", "weekdays and last day of a month")
    ctx.rule("field", "least value of the expressions")
    ctx.rule("reads", "a field reads its own part of the date")
    for q in (ALL, RANGE):
        f = p.method(q, "get_next_value")
        d, fld = (T("p", a.arg) for a in f.node.args.args[1:3])
        cl = rec(p, [E("", n, ret=lambda c, st, n=n: [T("p", n.upper())], when=lambda c: c.recv is fld and c.arg(0, "dateval") is d) for n in ("get_value", "get_min", "get_max")], cap=2)
        res, it = run(p, cl, f, self_cls=q)
        ctx.absorb(it)
        cur, low, high, step = [canon(x) for x in (T("p", "GET_VALUE"), T("p", "GET_MIN"), T("p", "GET_MAX"), me(q, "step"))]
        seen = set()
        for k, pl, st in res:
            if k != "return":
                ctx.ob("value", False, f"{cls_name(q)}:raises", f.where, f"raises {exc_name(pl)}", trace(st))
                continue
            o = Order(st).simplified()
            for given_step, given_last in cases(st, q):
                if q == ALL and given_last:
                    continue
                first = low if q == ALL else extreme("max", [low, canon(me(q, "first"))])
                limits = {high} | ({canon(me(q, "last"))} if given_last else set())
                start = extreme("max", [cur, first])
                want = start
                if given_step:
                    want = add(start, atom(("mod", reduced(add(first, start, -1), step), step)))
                s = o.simple
                c = f"{cls_name(q)}:step={given_step},last={given_last}"
                if pl is NONE:
                    seen.add((given_step, given_last, "none"))
                    ctx.ob("none", o.above(s(want), {s(x) for x in limits}) or o.above(s(start), {s(x) for x in limits}), c, f.where, "yields nothing although a value may match", trace(st))
                else:
                    seen.add((given_step, given_last, "value"))
                    ctx.ob("value", s(canon(pl)) == s(want), c, f.where, f"yields {show(pl)}", trace(st))
                    ctx.ob("none", o.within(s(canon(pl)), {s(x) for x in limits}), c + ":limit", f.where, f"{show(pl)} may lie past the maximum", trace(st))
        want = {(a, b, k) for a in (True, False) for b in (True, False) if q == RANGE or not b for k in ("none", "value")}
        ctx.ob("value", want <= seen, f"{cls_name(q)}:cases", f.where, f"no path for {sorted(want - seen)}")
    # ---- weekday positions and the last day
    f = p.method(POSITION, "get_next_value")
    dn = f.node.args.args[1].arg
    FIRST, DAYSIN, DAY, NTH, WD = (T("p", n) for n in ("FIRST_WEEKDAY", "DAYS_IN_MONTH", "DAY", "NTH", "WEEKDAY"))
    month = E("month", "monthrange", ret=lambda c, st: [T("tuple", (FIRST, DAYSIN))])
    kinds_ = set()
    for nth in (*range(6),):
        cl = rec(p, [month], cap=2)
        cl.presets = {}
        d = T("p", dn)
        st0 = {"option_number": const(nth)}
        res, it = run_with(p, cl, f, POSITION, st0)
        ctx.absorb(it)
        for i in cl.insts:
            if i.label == "month":
                a = [x for x in i.call.args]
                ctx.ob("position", a == [T("attr", d, "year"), T("attr", d, "month")], "monthrange", i.where, "another month is looked at")
        hit0 = add(canon(me(POSITION, "weekday")), add(canon(FIRST), canon(const(1)), -1), -1)   # weekday - FIRST + 1
        day = canon(T("attr", d, "day"))
        for k, pl, st in res:
            if k != "return":
                ctx.ob("position", False, f"{POSITIONS[nth]}:raises", f.where, f"raises {exc_name(pl)}", trace(st))
                continue
            o = Order(st)
            early = o.le(hit0, ZERO)           # first weekday would fall before the month
            late = o.less(ZERO, hit0)
            mods = []
            for e in ((True, False) if not early and not late else (early,)):
                hit = add(hit0, canon(const(7))) if e else hit0
                if nth < 5:
                    mods.append(add(hit, canon(const(7 * nth))))
                else:
                    mods.append(add(hit, mul(canon(const(7)), atom(("div", add(canon(DAYSIN), hit, -1), canon(const(7)))))))
            # the same day by a remainder instead of a branch
            alt = add(ONE, atom(("mod", reduced(add(canon(me(POSITION, "weekday")), canon(FIRST), -1), canon(const(7))), canon(const(7)))))
            mods.append(add(alt, canon(const(7 * nth))) if nth < 5 else add(alt, mul(canon(const(7)), atom(("div", add(canon(DAYSIN), alt, -1), canon(const(7)))))))
            if pl is NONE:
                kinds_.add((nth, "none"))
                why = any(o.less(canon(DAYSIN), m) or o.less(m, day) for m in mods)
                ctx.ob("position", why, f"{POSITIONS[nth]}:none", f.where, "yields nothing although the day exists and is not past", trace(st))
            else:
                kinds_.add((nth, "value"))
                v = canon(pl)
                ctx.ob("position", v in mods and (len(mods) == 2 or early or late or v == mods[-1]), f"{POSITIONS[nth]}:value", f.where, f"yields {show(pl)}", trace(st))
                ctx.ob("position", o.le(day, v), f"{POSITIONS[nth]}:past", f.where, "a day that is past may be yielded", trace(st))
                ctx.ob("position", o.le(v, canon(DAYSIN)) or nth in (0, 5), f"{POSITIONS[nth]}:month", f.where, "a day after the end of the month may be yielded", trace(st))
    ctx.ob("position", {(n, "value") for n in range(6)} | {(n, "none") for n in range(6)} <= kinds_, "cases", f.where, "a position never yields a day, or always")
    f = p.method(LAST, "get_next_value")
    d = T("p", f.node.args.args[1].arg)
    cl = rec(p, [month], cap=2)
    res, it = run(p, cl, f, self_cls=LAST)
    ctx.absorb(it)
    for k, pl, st in res:
        ctx.ob("position", k == "return" and pl is DAYSIN, "last", f.where, "is not the last day of the month", trace(st))
    for i in cl.insts:
        ctx.ob("position", list(i.call.args) == [T("attr", d, "year"), T("attr", d, "month")], "last:month", i.where, "another month is looked at")
    # ---- fields
    q = F + "BaseField"
    f = p.method(q, "get_next_value")
    vals = [T("p", f"V{i}") for i in range(3)]
    exprs = [T("p", f"X{i}") for i in range(3)]
    for nones in range(8):
        have = [not nones >> i & 1 for i in range(3)]
        cl = rec(p, [E("", "get_next_value", ret=lambda c, st, have=have: [vals[exprs.index(c.recv)] if have[exprs.index(c.recv)] else NONE] if c.recv in exprs else [T("unk", "call")],
                       when=lambda c: c.recv in exprs)], cap=2)
        cl.assume_hook = lambda lit, st, node, fr: None if lit[0] == "is" and lit[1][1] is NONE and lit[2] and (lit[1][0] in vals or lit[1][0].k == "call" and callee(lit[1][0]) == "min") else st
        cl.known_seqs = {T("list", tuple(exprs)), T("tuple", tuple(exprs))}
        res, it = run_with(p, cl, f, q, {"expressions": T("list", tuple(exprs))})
        ctx.absorb(it)
        live = [v for v, h in zip(vals, have) if h]
        for k, pl, st in res:
            c = "BaseField:" + ",".join("value" if h else "none" for h in have)
            if k != "return":
                ctx.ob("field", False, c, f.where, f"raises {exc_name(pl)}", trace(st))
                continue
            if not live:
                ctx.ob("field", pl is NONE or least_of(pl) == {NONE}, c, f.where, f"yields {show(pl)} although nothing matches", trace(st))
                continue
            o = Order(st)
            parts = least_of(pl)
            ok = parts <= set(live) and all(any(reach(o, canon(x), canon(v), [canon(y) for y in live]) for x in parts) for v in live)
            ctx.ob("field", ok, c, f.where, f"yields {show(pl)}, which need not be the least value", trace(st))
    reads = {"BaseField": None, "MonthField": None, "DayOfMonthField": None, "WeekField": "isocalendar", "DayOfWeekField": "weekday"}
    for cn, via in reads.items():
        q = F + cn
        f = p.method(q, "get_value")
        d = T("p", f.node.args.args[1].arg)
        res, it = run(p, rec(p), f, self_cls=q)
        ctx.absorb(it)
        for k, pl, st in res:
            own = pl.k == "call" and callee(pl) == "getattr" and pl.a[1] == (d, me(q, "name")) or k == "return" and pl.k == "attr" and pl.a[0] is d
            if via == "isocalendar":
                call = next((x for x in subterms(pl) if x.k == "call" and callee(x) == "isocalendar"), None)
                own = call is not None and call.a[0].k == "attr" and call.a[0].a[0] is d and (pl.k in ("idx", "item", "sub") and pl.a[0] is call and pl.a[1] in (const(1), 1)
                                                                                               or pl.k == "attr" and pl.a[1] == "week" or pl is not call and show(pl).endswith("[1]"))
            elif via == "weekday":
                own = pl.k == "call" and callee(pl) == "weekday" and pl.a[0].k == "attr" and pl.a[0].a[0] is d and not pl.a[1]
            ctx.ob("reads", k == "return" and own, cn + ".get_value", f.where, f"reads {show(pl) if k == 'return' else exc_name(pl)}", trace(st))
        for m, at in (("get_min", 0), ("get_max", 1)):
            f = p.method(q, m)
            for name in [n for n, c in FIELD.items() if c == cn]:
                cl = rec(p, [E("month", "monthrange", ret=lambda c, st: [T("tuple", (FIRST, DAYSIN))])])
                res, it = run_with(p, cl, f, q, {"name": const(name)})
                ctx.absorb(it)
                d = T("p", f.node.args.args[1].arg)
                for k, pl, st in res:
                    ok = k == "return" and (pl is DAYSIN if (name, at) == ("day", 1) else pl is const(LIMITS[name][at]))
                    ctx.ob("reads", ok, f"{cn}.{m}:{name}", f.where, f"{m} of {name} is {show(pl) if k == 'return' else exc_name(pl)}", trace(st))
                for i in cl.insts:
                    ctx.ob("reads", list(i.call.args) == [T("attr", d, "year"), T("attr", d, "month")], f"{cn}.{m}:month", i.where, "another month is looked at")


def least_of(t):
    """the values a (nested) minimum ranges over"""
    if t.k == "call" and callee(t) == "min":
        args = t.a[1]
        if len(args) == 1 and args[0].k in ("list", "tuple"):
            args = args[0].a[0] or tuple(v for k, v in t.a[2] if k == "default")
        return set().union(*(least_of(x) for x in args)) if args else {t}
    return {t}


def reach(o, a, b, mid):
    """a <= b through known comparisons"""
    todo, seen = [a], {a}
    while todo:
        x = todo.pop()
        if o.le(x, b):
            return True
        for y in mid:
            if y not in seen and o.le(x, y):
                seen.add(y)
                todo.append(y)
    return False


def run_with(p, cl, f, q, attrs, args=None, max_states=None):
    """run a method of q whose attributes hold the given values"""
    init = cl.init

    def preset():
        st = init()
        heap = st.heap
        for n, v in attrs.items():
            heap = heap.set((T("self", q), n), v)
        return St(st.env, heap, st.facts, st.ts)
    cl.init = preset
    return run(p, cl, f, self_cls=q, args=args or {}, max_states=max_states)


def pattern_of(p, q):
    """(pattern, flags) of the class's regular expression"""
    c, node = p.class_attr(q, "regex")
    if isinstance(node, ast.Call) and node.args:
        flags = 0
        for a in node.args[1:] + [k.value for k in node.keywords]:
            for n in ast.walk(a):
                if isinstance(n, ast.Attribute) and n.attr in ("IGNORECASE", "I"):
                    flags |= 2
                elif isinstance(n, ast.Attribute) and n.attr in ("ASCII", "A"):
                    flags |= 256
        try:
            v = p.const(c.module, node.args[0])
        except ValueError:
            return None
        return (v, flags) if isinstance(v, str) else None
    return None


def compilers_of(p, cn):
    """expression classes a field class compiles with"""
    c, node = p.class_attr(F + cn, "compilers")
    out = set()
    if not isinstance(node, (ast.Tuple, ast.List)):
        return None
    for e in node.elts:
        q = p.resolve(c.module, e.id) if isinstance(e, ast.Name) else None
        if q is None:
            return None
        out.add(q)
    f = p.method(F + cn, "__init_subclass__")
    if cn != "BaseField" and f is not None:
        cl = rec(p, [W("w", "compilers")])
        res, it = run(p, cl, f, args={f.node.args.args[0].arg: T("ref", F + cn)})
        new = None
        for i in cl.insts:
            if i.value.k not in ("tuple", "list"):
                return None
            got = {x.a[0] for x in i.value.a[0] if x.k == "ref"} | (out if any(x.k == "rest" for x in i.value.a[0]) else set())
            new = got if new is None else new & got
        other = T("ref", F + "BaseField")
        if any("w" not in seq(st) and not any(x[0] in ("is", "eq") and x[2] and other in x[1] for x in st.facts) for k, pl, st in res) and new is not None:
            new &= out
        out = new if new is not None else out
    return out


@prop("C47", "Cron fields accept exactly the documented expressions and values",
      """Every part of a comma separated cron field is a `*`, a number or range with an optional step, or, where documented, month and weekday names,
      weekday positions or `last`; nothing else is accepted, not even behind a valid part. Names stand for their number in any letter case. Values
      outside the field's range, a range that ends before it starts and a step wider than its range are refused with an error.""",
      ["inputs"],
      "every text given for a cron field",
      "the accepted texts are an infinite language of which tests sample a few words",
      ["asyncz/triggers/cron/expressions.py", "asyncz/triggers/cron/fields.py", "asyncz/triggers/cron/constants.py"],
      [("regular expressions and constructors of the expressions", "asyncz/triggers/cron/expressions.py"), ("BaseField.compile_expression(s)", "asyncz/triggers/cron/fields.py")],
      "automata equivalence of the source's regular expressions and abstract interpretation",
      """The patterns in the source are turned into automata, with marks at the named groups, and compared with the documented language; constructors and
      validation are interpreted for every name and field, with branch facts compared as integer inequalities.""",
      assumptions=["patterns are compared over ASCII text without newlines"])
def c47(ctx):
    p = ctx.proj
    ctx.rule("language", "the accepted texts of each expression")
    ctx.rule("apart", "no text fits two kinds of expression of a field")
    ctx.rule("kinds", "expressions each field knows")
    ctx.rule("compile", "first fitting kind, validated, nothing else")
    ctx.rule("parts", "every part of a field is compiled")
    ctx.rule("names", "names stand for their number")
    ctx.rule("numbers", "first and last value of a range")
    ctx.rule("range", "values and steps outside the range are refused")
    # ---- how the patterns are applied
    q = F + "BaseField"
    f = p.method(q, "compile_expression")
    C = [T("p", f"KIND{i}") for i in range(3)]
    M_ = [T("p", f"MATCH{i}") for i in range(3)]
    G = [T("p", f"GROUPS{i}") for i in range(3)]
    TXT = T("p", f.node.args.args[1].arg)
    how = set()
    for hit in (None, 0, 1, 2):
        cl = rec(p, [E("match", ["match", "fullmatch", "search"], ret=lambda c, st, hit=hit: [M_[k] if k == hit else NONE for k in range(3) if contains(c.recv, C[k])] or [T("unk", "call")]),
                     E("", "groupdict", ret=lambda c, st: [G[M_.index(c.recv)]] if c.recv in M_ else [T("unk", "call")]),
                     E("validate", "validate_range", raises=[VALUE]), E("append", "append")], cap=6)
        cl.assume_hook = lambda lit, st, node, fr: None if lit[1][0] in M_ and (lit[0] == "truth" and not lit[2] or lit[0] == "is" and lit[1][1] is NONE and lit[2]) else st
        cl.known_seqs = {T("tuple", tuple(C))}
        res, it = run_with(p, cl, f, q, {"compilers": T("tuple", tuple(C))})
        ctx.absorb(it)
        for i in cl.insts:
            if i.label == "match":
                ok = list(i.call.args) == [TXT] and i.call.recv.k == "attr" and i.call.recv.a[1] == "regex"
                how.add(i.call.name)
                ctx.ob("compile", ok, "match", i.where, f"{show(i.call.recv)} is matched with {[show(a) for a in i.call.args]}")
            if i.label in ("append", "validate"):
                obj = i.call.arg(0) if i.label == "append" else i.call.recv
                ok = hit is not None and obj is not None and obj.k in ("call", "new") and contains(obj, C[hit]) and contains(obj, G[hit])
                ctx.ob("compile", ok, f"{i.label}:{hit}", i.where, f"{show(obj)} is not the fitting kind built from its groups", trace(i.st))
                if i.label == "validate":
                    ctx.ob("compile", i.call.arg(0, "field_name") is me(q, "name"), f"validate:{hit}:name", i.where, "is validated for another field")
                else:
                    ctx.ob("compile", i.call.recv is me(q, "expressions") or from_attr(i.call.recv, "expressions"), f"append:{hit}:to", i.where, "is not added to the field's expressions")
        n = 0
        for k, pl, st in res:
            s = [x for x in seq(st) if x != "match"]
            c = f"compile_expression:{hit}"
            if hit is None:
                ctx.ob("compile", k == "raise" and exc_name(pl) == "ValueError" and not s, c, f.where, "an unknown expression is not refused with a ValueError", trace(st))
                n += 1
            elif "validate!" in s:
                ctx.ob("compile", k == "raise" and exc_name(pl) == "ValueError" and "append" not in s, c + ":invalid", f.where, "an expression outside the range is accepted", trace(st))
            else:
                n += 1
                ctx.ob("compile", k == "return" and s == ["validate", "append"], c, f.where, f"a fitting expression: {s or 'nothing done'}", trace(st))
        ctx.ob("compile", n > 0, f"compile_expression:{hit}:any", f.where, "never comes to an end")
    # ---- languages
    full = how == {"fullmatch"}
    pats = {}
    for x in FORMS:
        got = pattern_of(p, x)
        c = p.classes.get(x)
        where = f"{c.module.rel}:{c.node.lineno}" if c else f.where
        if got is None or "search" in how:
            ctx.ob("language", False, cls_name(x), where, "its regular expression is not a constant")
            continue
        try:
            lang = Lang(got[0], got[1], full=full)
        except (Unsupported, Exception) as e:      # a malformed pattern fails at import time, an unusual one is not decided here
            ctx.ob("language", False, cls_name(x), where, f"cannot be analysed: {type(e).__name__} {e}")
            continue
        pats[x] = got
        if x == POSITION:
            want = [Lang(r"(?i:(?P<option_name>" + "|".join(POSITIONS) + r") +(?P<weekday_name>" + w + "))") for w in (r"\w+", r"[a-z]+", "|".join(DAYS))]
        elif x in (MONTH, WEEKDAY):
            names_ = "|".join(MONTHS if x == MONTH else DAYS)
            want = [Lang(FORMS[x]), Lang(rf"(?i:(?P<first>{names_})(?:-(?P<last>{names_}))?)"), Lang(FORMS[x].replace("[a-z]", r"[a-z]{3}").replace("}+", "}"))]
        else:
            want = [Lang(FORMS[x])]
        ds = [differ(w, lang) for w in want]
        d = None if None in ds else ds[0]
        ctx.ob("language", d is None, cls_name(x), where, f"{'accepts' if d and not d[1] else 'refuses or splits otherwise'} {d[0] if d else ''!r}")
    for cn in sorted(set(FIELD.values())):
        got = compilers_of(p, cn)
        want = {ALL, RANGE} | {"MonthField": {MONTH}, "DayOfMonthField": {POSITION, LAST}, "DayOfWeekField": {WEEKDAY}}.get(cn, set())
        c = p.classes[F + cn]
        ctx.ob("kinds", got == want, cn, f"{c.module.rel}:{c.node.lineno}", f"knows {sorted(map(cls_name, got or ()))}")
        ks = sorted(want & set(pats))
        for i, a in enumerate(ks):
            for b in ks[i + 1:]:
                w = common(Lang(*pats[a], full=full, marks=False), Lang(*pats[b], full=full, marks=False))
                ctx.ob("apart", w is None, f"{cn}:{cls_name(a)}/{cls_name(b)}", f"{c.module.rel}:{c.node.lineno}", f"{w!r} fits both")
    # ---- parts
    f = p.method(q, "compile_expressions")
    exprs = T("p", f.node.args.args[1].arg)
    parts = T("tuple", tuple(T("p", f"PART{i}") for i in range(3)))
    cl = rec(p, [E("", "split", ret=lambda c, st: [parts]), E(lambda c: "one:" + show(c.arg(0, "expr") or NONE), "compile_expression"), W("fresh", "expressions")], cap=8)
    cl.known_seqs = {parts}
    res, it = run(p, cl, f, self_cls=q)
    ctx.absorb(it)
    for k, pl, st in res:
        ctx.ob("parts", k == "return" and [x for x in seq(st) if x != "fresh"] == ["one:PART0", "one:PART1", "one:PART2"], "each", f.where, "a part is not compiled, or twice", trace(st))
    splits = [i for i in cl.insts if i.call is not None and i.call.name == "split"]
    for i in splits:
        src = [a for a in i.call.args if contains(a, exprs)] or [i.call.recv]
        ctx.ob("parts", src[0] is not None and contains(src[0], exprs) and any(x.k == "call" and callee(x) == "str" for x in subterms(src[0])), "text", i.where, f"splits {show(src[0])}")
    mod = p.modules.get("asyncz.triggers.cron.fields")
    sep = (mod.assigns.get("SEPARATOR") or [None])[0]
    if isinstance(sep, ast.Call) and sep.args and isinstance(sep.args[0], ast.Constant):
        d = differ(Lang(" *, *"), Lang(sep.args[0].value))
        d2 = differ(Lang(r"\s*,\s*"), Lang(sep.args[0].value))
        ctx.ob("parts", d is None or d2 is None, "separator", f"{mod.rel}:{sep.lineno}", f"parts are separated by {d[0] if d else ''!r}")
    f = p.method(q, "__init__")
    cl = rec(p, [E("all", "compile_expressions"), E("super", "__init__")])
    res, it = run(p, cl, f, self_cls=q)
    ctx.absorb(it)
    for k, pl, st in res:
        ctx.ob("parts", k != "return" or "all" in seq(st), "built", f.where, "a field is built without its expressions", trace(st))
    for i in cl.insts:
        if i.label == "all":
            v = i.call.arg(0, "exprs")
            ctx.ob("parts", v is not None and (v is T("p", "exprs") or v is me(q, "exprs")), "built:from", i.where, f"compiles {show(v)}")
        if i.label == "super":
            kw = dict(i.call.kw)
            ctx.ob("parts", all(kw.get(n) is T("p", n) for n in ("name", "exprs", "is_default")), "built:args", i.where, "name, text or default flag are not kept")
    # ---- names
    for x, table, base, what in ((MONTH, MONTHS, 1, "month"), (WEEKDAY, DAYS, 0, "weekday")):
        f = p.method(x, "__init__")
        for a, b in [(n, None) for n in table] + [(n, table[-1]) for n in table] + [("foo", None), (table[0], "foo"), ("", None)]:
            for case in (str.lower, str.upper, str.title):
                cl = rec(p, [E("super", "__init__")])
                res, it = run(p, cl, f, self_cls=x, args={"first": const(case(a)), "last": const(case(b)) if b is not None else NONE})
                ctx.absorb(it)
                bad = a not in table or b is not None and b not in table
                c = f"{what}:{case(a)}-{case(b) if b else ''}"
                if bad:
                    ctx.ob("names", bool(res) and all(k == "raise" and exc_name(pl) == "ValueError" for k, pl, st in res), c, f.where, "an unknown name is not refused with a ValueError")
                    continue
                ctx.ob("names", bool(res) and all(k == "return" and seq(st) == ("super",) for k, pl, st in res), c, f.where, f"a {what} name is refused")
                for i in cl.insts:
                    got = i.call.arg(0, "first"), i.call.arg(1, "last")
                    want = const(table.index(a) + base), const(table.index(b) + base) if b else NONE
                    ctx.ob("names", got[0] is want[0] and (got[1] if got[1] is not None else NONE) is want[1], c, i.where, f"stands for {show(got[0])}-{show(got[1])}")
    f = p.method(POSITION, "__init__")
    for a in POSITIONS + ("6th",):
        for b in DAYS + ("foo",):
            if a != "2nd" and b not in ("tue", "foo") and a != "6th":
                continue
            for case in (str.lower, str.upper):
                cl = rec(p, [E("super", "__init__"), W(lambda t, n, v: f"{n}={show(v)}", ["option_number", "weekday"])])
                res, it = run(p, cl, f, self_cls=POSITION, args={"option_name": const(case(a)), "weekday_name": const(case(b))})
                ctx.absorb(it)
                c = f"{case(a)} {case(b)}"
                if a not in POSITIONS or b not in DAYS:
                    ctx.ob("names", bool(res) and all(k == "raise" and exc_name(pl) == "ValueError" for k, pl, st in res), c, f.where, "an unknown position or weekday is not refused with a ValueError")
                else:
                    want = {f"option_number={POSITIONS.index(a)}", f"weekday={DAYS.index(b)}"}
                    ctx.ob("names", bool(res) and all(k == "return" and set(seq(st)) - {"super"} == want for k, pl, st in res), c, f.where, f"stands for {[seq(st) for _, _, st in res]}")
    # ---- numbers
    f = p.method(RANGE, "__init__")
    conv = E("", ["to_int", "int"], ret=lambda c, st: [const(int(c.arg(0).a[0])) if c.arg(0) is not None and c.arg(0).k == "const" and c.arg(0) is not NONE else c.arg(0)])
    for a, b, step in (("5", None, None), ("5", None, 2), ("3", "7", None), ("3", "7", 2), ("7", "3", None), ("7", "3", 2), ("0", "0", None), ("0", "0", 2), ("4", "4", None), ("9", "10", None), ("3", "0", None)):
        cl = rec(p, [conv, E("super", "__init__"), W(lambda t, n, v: f"{n}={show(v)}", ["first", "last"])])
        res, it = run_with(p, cl, f, RANGE, {"step": const(step)}, args={"first": const(a), "last": const(b)})
        ctx.absorb(it)
        c = f"{a}-{b}/{step}"
        if b is not None and int(a) > int(b):
            ctx.ob("numbers", bool(res) and all(k == "raise" and exc_name(pl) == "ValueError" for k, pl, st in res), c, f.where, "a range that ends before it starts is not refused with a ValueError")
        else:
            last = int(b) if b is not None else None if step else int(a)
            want = {f"first={int(a)}", f"last={last}"}
            ctx.ob("numbers", bool(res) and all(k == "return" and set(seq(st)) - {"super"} == want for k, pl, st in res), c, f.where, f"becomes {[seq(st) for _, _, st in res]}")
        for i in cl.insts:
            if i.label == "super":
                ctx.ob("numbers", dict(i.call.kw).get("step") is T("p", "step") or i.call.arg(0) is T("p", "step"), "step", i.where, "the step is not kept")
    f = p.method(ALL, "__init__")
    cl = rec(p, [E("", "to_int", ret=lambda c, st: [T("p", "STEP")], when=lambda c: c.arg(0, "value") is T("p", "step")), E("super", "__init__")])
    res, it = run(p, cl, f, self_cls=ALL)
    ctx.absorb(it)
    sup = [i for i in cl.insts if i.label == "super"]
    for i in sup:
        got = dict(i.call.kw).get("step")
        if got is None:
            got = next((v for n, d in i.call.kw if n == "**" for k, v in it.written(d, i.st) if k is const("step")), None)
        ctx.ob("numbers", got is T("p", "STEP"), "step:int", i.where, f"the step becomes {show(got) if got is not None else 'nothing'}")
    ctx.ob("numbers", bool(sup), "step:kept", f.where, "the step is dropped")
    c, node = p.class_attr(ALL, "step")
    gt = {k.arg: k.value for k in node.keywords} if isinstance(node, ast.Call) else {}
    ok = any(isinstance(gt.get(k), ast.Constant) and gt[k].value == v for k, v in (("gt", 0), ("ge", 1)))
    ctx.ob("numbers", ok, "step:positive", f"{c.module.rel}:{node.lineno}" if node is not None else f.where, "a step of zero is not refused")
    # ---- ranges
    for x in (ALL, RANGE):
        f = p.method(x, "validate_range")
        first, last, step = (canon(me(x, n)) for n in ("first", "last", "step"))
        for name, (lo, hi) in LIMITS.items():
            cl = rec(p)
            res, it = run(p, cl, f, self_cls=x, args={f.node.args.args[1].arg: const(name)})
            ctx.absorb(it)
            LO, HI = canon(const(lo)), canon(const(hi))
            seen = set()
            for k, pl, st in res:
                o = Order(st)
                for given_step, given_last in cases(st, x):
                    if x == ALL and given_last:
                        continue
                    top = last if given_last else HI
                    why = []
                    if x == RANGE:
                        why.append(o.less(first, LO))
                        if given_last:
                            why.append(o.less(HI, last))
                        if given_step:
                            why.append(o.less(add(top, first, -1), step))
                    if given_step:
                        why.append(o.less(canon(const(hi - lo)), step))
                    good = []
                    if x == RANGE:
                        good.append(o.le(LO, first))
                        if given_last:
                            good.append(o.le(last, HI))
                        if given_step:
                            good.append(o.le(step, add(top, first, -1)))
                    elif given_step:
                        good.append(o.le(step, canon(const(hi - lo))))
                    c = f"{cls_name(x)}:{name}:step={given_step},last={given_last}"
                    if k == "return":
                        seen.add((given_step, given_last))
                        ctx.ob("range", all(good), c, f.where, "a value or step outside the range is accepted", trace(st))
                    else:
                        ctx.ob("range", exc_name(pl) == "ValueError" and any(why), c + ":refused", f.where, f"a value inside the range is refused ({exc_name(pl)})", trace(st))
            ctx.ob("range", {(a, b) for a in (True, False) for b in (True, False) if x == RANGE or not b} <= seen, f"{cls_name(x)}:{name}:accepted", f.where, "some kind of value is never accepted")
    for x in (MONTH, WEEKDAY, POSITION, LAST):
        m = p.method(x, "validate_range")
        ctx.ob("range", m is not None and m.qual in (p.method(RANGE, "validate_range").qual, p.method(ALL, "validate_range").qual) and (x not in (MONTH, WEEKDAY) or m.qual == p.method(RANGE, "validate_range").qual),
               f"{cls_name(x)}:validate", m.where if m else "", "is validated in another way")


FLD = {n: T("p", f"FIELD_{n}") for n in NAMES}
VAL, MIN, MAX, NXT = ({n: T("p", f"{w}_{n}") for n in NAMES} for w in ("VALUE", "LEAST", "GREATEST", "NEXT"))
REAL = [n for n in NAMES if n not in UNREAL]


def field_events(date, extra=None):
    """the fields' operations, for the date in hand; asking about another date is not recognised"""
    by = {"get_value": VAL, "get_min": MIN, "get_max": MAX, **(extra or {})}

    def which(c):
        return next((n for n in NAMES if c.recv is FLD[n]), None)
    return [E("", n, ret=lambda c, st, n=n: [by[n][which(c)]] if which(c) and date(c.arg(0, "dateval")) else [T("unk", "other date")], when=lambda c: which(c) is not None) for n in by]


def run_fields(p, cl, f, args, max_states=None):
    """run a method of the trigger over eight known fields"""
    init = cl.init

    def preset():
        st = init()
        heap = st.heap.set((T("self", CRON), "fields"), T("tuple", tuple(FLD[n] for n in NAMES)))
        for n in NAMES:
            heap = heap.set((FLD[n], "name"), const(n)).set((FLD[n], "real"), const(n not in UNREAL))
        return St(st.env, heap, st.facts, st.ts)
    cl.init = preset
    return run(p, cl, f, self_cls=CRON, args=args, max_states=max_states)


@prop("C49", "A cron search skips no matching time and starts over below a change",
      """The search looks at the fields from year to second. A field whose next value is later than its current one is set to it (week and weekday:
      the day is moved on by one) and every smaller part restarts at its minimum; a field without a further value moves the next larger part on by
      one, carrying over from a part at its maximum; otherwise the next field is looked at. Larger parts keep their value.""",
      ["inputs", "histories"],
      "every date and every outcome of the fields at every step of the search",
      "a part that is not reset or a carry that is lost shows only at the ends of months, years or days that a test happens to cross",
      ["asyncz/triggers/cron/trigger.py"],
      [("CronTrigger.get_next_trigger_time", "asyncz/triggers/cron/trigger.py"), ("CronTrigger.set_field_value, increment_field_value", "asyncz/triggers/cron/trigger.py")],
      "abstract interpretation over the eight fields with symbolic values",
      """Both stepping functions are interpreted for every field, with symbolic values and every combination of parts at their maximum; the parts of the
      resulting date are compared one by one. The search loop is interpreted for every field and every order of current and next value.""",
      assumptions=["the fields' own values are right (C48)", "the local-time conversions keep the date's parts (C40)"])
def c49(ctx):
    p = ctx.proj
    ctx.rule("set", "a field is set to its next value")
    ctx.rule("move", "a field is moved on by one, with carry")
    ctx.rule("search", "the step taken for each outcome of a field")
    conv = E("", ["localize", "normalize", "to_timezone"], ret=lambda c, st: [c.arg(0, "dateval") or c.arg(0, "dt") or c.arg(0)])

    def parts(t, it, st):
        """parts a date is built from"""
        for x in subterms(t):
            if x.k in ("new", "call") and (callee(x) if x.k == "call" else x.a[0].split(".")[-1]) == "datetime":
                kw, pos = (x.a[2], x.a[1])
                out = {}
                for k, v in kw:
                    if k == "**":
                        out.update({str(n.a[0]): w for n, w in it.written(v, st)})
                    else:
                        out[k] = v
                out.update(zip(REAL, pos))
                return out
        return None
    # ---- set_field_value
    f = p.method(CRON, "set_field_value")
    ps = [a.arg for a in f.node.args.args[1:]]
    for i, name in enumerate(NAMES):
        if name in UNREAL:
            continue
        d, new = T("p", ps[0]), T("p", ps[2])
        cl = rec(p, [conv] + field_events(lambda x: x is d))
        res, it = run_fields(p, cl, f, {ps[1]: const(i)})
        ctx.absorb(it)
        want = {n: VAL[n] if NAMES.index(n) < i else MIN[n] if NAMES.index(n) > i else new for n in REAL}
        ok = bool(res)
        for k, pl, st in res:
            got = parts(pl, it, st) if k == "return" else None
            for n in REAL:
                g = got.get(n) if got else None
                ctx.ob("set", g is want[n], f"set {name}:{n}", f.where, f"{n} becomes {show(g) if g is not None else 'nothing'} instead of {show(want[n])}", trace(st))
        ctx.ob("set", ok, f"set {name}", f.where, "never returns")
    # ---- increment_field_value
    f = p.method(CRON, "increment_field_value")
    ps = [a.arg for a in f.node.args.args[1:]]
    d = T("p", ps[0])
    naive = T("p", "NAIVE")
    for i in range(-1, len(NAMES)):
        cl = rec(p, [conv, E("", "replace", ret=lambda c, st: [naive], when=lambda c: c.recv is d and dict(c.kw).get("tzinfo") is NONE)] + field_events(lambda x: x is d))
        res, it = run_fields(p, cl, f, {ps[1]: const(i)}, max_states=2000)
        ctx.absorb(it)
        ends = set()
        for k, pl, st in res:
            full = {n for n in REAL for x in st.facts if x[0] == "eq" and x[2] and {VAL[n], MAX[n]} == set(x[1])}
            open_ = {n for n in REAL for x in st.facts if x[0] == "eq" and not x[2] and {VAL[n], MAX[n]} == set(x[1])}
            o = Order(st)
            full |= {n for n in REAL if o.le(canon(MAX[n]), canon(VAL[n]))}
            open_ |= {n for n in REAL if o.less(canon(VAL[n]), canon(MAX[n]))}
            t = i
            while t >= 0 and (NAMES[t] in UNREAL or NAMES[t] in full):
                t -= 1
            c = f"from {NAMES[i] if i >= 0 else 'before year'} to {NAMES[t] if t >= 0 else 'the end'}"
            if k != "return" or pl.k not in ("tuple", "list") or len(pl.a[0]) != 2:
                ctx.ob("move", t < 0 and k == "raise", c, f.where, f"{'raises ' + exc_name(pl) if k != 'return' else 'returns ' + show(pl)}", trace(st))
                continue
            n_ = pl.a[0][1]
            if t < 0:
                ends.add("end")
                ctx.ob("move", n_.k == "const" and isinstance(n_.a[0], int) and n_.a[0] < 0, c, f.where, f"the search goes on with field {show(n_)} after the last year", trace(st))
                continue
            ends.add(t)
            ctx.ob("move", NAMES[t] in open_, c + ":room", f.where, f"{NAMES[t]} is moved on although it may be at its maximum", trace(st))
            ctx.ob("move", n_ is const(t), c + ":field", f.where, f"the search goes on with field {show(n_)}", trace(st))
            got = parts(pl.a[0][0], it, st)
            want = {n: canon(VAL[n]) if NAMES.index(n) < t else canon(MIN[n]) if NAMES.index(n) > t else add(canon(VAL[n]), ONE) for n in REAL}
            for n in REAL:
                g = got.get(n) if got else None
                ctx.ob("move", g is not None and canon(g) == want[n], f"{c}:{n}", f.where, f"{n} becomes {show(g) if g is not None else 'nothing'}", trace(st))
            date = pl.a[0][0]
            whole = date.k in ("new", "call") or date.k == "op" and canon(date) == add(canon(d), add(next((atom(x) for x in subterms(date) if x.k in ("new", "call")), ZERO), canon(naive), -1))
            ctx.ob("move", whole, c + ":date", f.where, f"the date becomes {show(date)}", trace(st))
        real = [j for j in range(i + 1) if NAMES[j] in REAL]
        ctx.ob("move", set(real) <= ends and (i < 0 or "end" in ends or any(k == "raise" for k, _, _ in res)), f"from {NAMES[i] if i >= 0 else 'before year'}", f.where, f"ends only at {sorted(map(str, ends))}")
    # ---- the search
    f = p.method(CRON, "get_next_trigger_time")
    tz, prev, now = (T("p", a.arg) for a in f.node.args.args[1:4])
    START, SET, INC, JUMP = (T("p", n) for n in ("START", "SET_DATE", "INC_DATE", "INC_FIELD"))

    def ask(c, st):
        return [NXT[next(n for n in NAMES if c.recv is FLD[n])]] if any(c.recv is x for x in FLD.values()) else [T("unk", "call")]
    evs = [E("", "datetime_ceil", ret=lambda c, st: [START]), E("", "astimezone", ret=lambda c, st: [c.recv]), E("", "replace", ret=lambda c, st: [c.recv]),
           E("", "get_value", ret=lambda c, st: [VAL[next(n for n in NAMES if c.recv is FLD[n])]] if any(c.recv is x for x in FLD.values()) else [T("unk", "call")]),
           E("ask", "get_next_value", ret=ask), E("set", "set_field_value", ret=lambda c, st: [SET]), E("inc", "increment_field_value", ret=lambda c, st: [T("tuple", (INC, JUMP))]),
           E("done", "apply_jitter", ret=lambda c, st: [c.arg(0)])]
    seen = set()
    for i, name in enumerate(NAMES):
        cl = rec(p, evs, cap=40)
        order = {n: None for n in NAMES}

        def hook(lit, st, node, fr, i=i):
            ts = lit[1]
            if ts and ts[0] in (prev, T("attr", T("self", CRON), "start_at"), T("attr", T("self", CRON), "end_at"), T("attr", T("self", CRON), "timezone")) and (
                    lit[0] == "truth" and lit[2] or lit[0] == "is" and ts[1] is NONE and not lit[2]):
                return None
            if lit[0] == "is" and ts[0] is now and ts[1] is NONE and lit[2]:
                return None
            if lit[0] == "is" and ts[0] is START:
                return None if lit[2] else st
            for n in NAMES[:i]:     # the fields before this one match
                if lit[0] == "is" and ts[0] is NXT[n] and ts[1] is NONE and lit[2] or lit[0] == "lt" and ts == (VAL[n], NXT[n]) and lit[2]:
                    return None
                if lit[0] == "lt" and ts == (NXT[n], VAL[n]) and lit[2]:
                    return None
                if lit[0] == "eq" and set(ts) == {NXT[n], VAL[n]} and not lit[2]:
                    return None
            # a value below the current one is never yielded
            if lit[0] == "lt" and len(ts) == 2 and ts in [(NXT[n], VAL[n]) for n in NAMES] and lit[2]:
                return None
            s = seq(st)
            if s.count("ask") > i + 2 or s.count("inc") + s.count("set") > 1:
                return None
            if ("inc" in s or "set" in s) and s[-1] == "ask" and s.count("ask") > i + 1:
                return None
            return st
        cl.assume_hook = hook
        res, it = run_fields(p, cl, f, {}, max_states=800)
        ctx.absorb(it)
        for x in cl.insts:
            s = [y for y in seq(x.st) if y in ("ask", "set", "inc", "done")]
            if x.label in ("set", "inc") and s.count("ask") == i + 1 and not s.count("set") + s.count("inc"):
                at = x.call.arg(1, "field_number")
                date = x.call.arg(0, "dateval")
                none = any(y[0] == "is" and y[1][0] is NXT[name] and y[1][1] is NONE and y[2] for y in x.st.facts)
                some = any(y[0] == "is" and y[1][0] is NXT[name] and y[1][1] is NONE and not y[2] for y in x.st.facts)
                o = Order(x.st)
                later = o.less(canon(VAL[name]), canon(NXT[name])) or any(y[0] == "eq" and set(y[1]) == {NXT[name], VAL[name]} and not y[2] for y in x.st.facts) and not none
                ctx.ob("search", date is START, f"{name}:{x.label}:date", x.where, f"steps from {show(date)}", trace(x.st))
                if none:
                    seen.add((i, "none"))
                    ctx.ob("search", x.label == "inc" and at is const(i - 1), f"{name}:none", x.where, f"without a further value {x.label} of field {show(at)}", trace(x.st))
                elif name in UNREAL:
                    seen.add((i, "later"))
                    ctx.ob("search", later and x.label == "inc" and at is const(i), f"{name}:later", x.where, f"for a later value {x.label} of field {show(at)}", trace(x.st))
                else:
                    seen.add((i, "later"))
                    ctx.ob("search", later and x.label == "set" and at is const(i) and x.call.arg(2, "new_value") is NXT[name], f"{name}:later", x.where,
                           f"for a later value {x.label} of field {show(at)} to {show(x.call.arg(2, 'new_value'))}", trace(x.st))
            if x.label == "ask":
                k = s.count("ask")
                if k <= i and not s.count("set") + s.count("inc"):
                    ctx.ob("search", x.call.recv is FLD[NAMES[k]], f"order:{k}", x.where, f"asks {show(x.call.recv)} as field {k}", trace(x.st))
                    ctx.ob("search", x.call.arg(0, "dateval") is START, f"date:{k}", x.where, f"asks about {show(x.call.arg(0, 'dateval'))}", trace(x.st))
                elif "set" in s and k == i + 1 and s.index("set") == i + 1:
                    seen.add((i, "on"))
                    ctx.ob("search", i + 1 < len(NAMES) and x.call.recv is FLD[NAMES[i + 1]] and x.call.arg(0, "dateval") is SET, f"{name}:on", x.where, f"goes on with {show(x.call.recv)} at {show(x.call.arg(0, 'dateval'))}",
                           trace(x.st))
                elif "inc" in s and k == i + 1:
                    ctx.ob("search", contains(x.call.recv, JUMP) and x.call.arg(0, "dateval") is INC, f"{name}:carry", x.where, f"goes on with {show(x.call.recv)} at {show(x.call.arg(0, 'dateval'))}", trace(x.st))
            if x.label == "done" and s.count("ask") == len(NAMES) and i == len(NAMES) - 1 and not s.count("inc"):
                seen.add("done")
                ctx.ob("search", x.call.arg(0) in (START, SET), "done", x.where, f"yields {show(x.call.arg(0))}", trace(x.st))
    want = {(i, k) for i in range(len(NAMES)) for k in ("none", "later")} | {(i, "on") for i, n in enumerate(NAMES) if n in REAL and i + 1 < len(NAMES)} | {"done"}
    ctx.ob("search", want <= seen, "cases", f.where, f"no step found for {sorted(map(str, want - seen))[:6]}")


def build(p, given, attrs=None):
    """interpret the trigger's constructor with the named fields given"""
    f = p.method(CRON, "__init__")
    args = {n: T("p", n) if n in given else NONE for n in NAMES}
    other = {n: NONE for n in ("start_at", "end_at", "timezone", "jitter")}
    LOC, PAIRS = T("p", "LOCALS"), T("tuple", tuple(T("tuple", (const(k), v)) for k, v in [("self", T("self", CRON)), *args.items(), *other.items()]))

    def label(c):
        vs = [c.arg(0, "name"), c.arg(1, "exprs"), c.arg(2, "is_default")]
        return f"{c.name}|" + "|".join(show(v) if v is not None else "-" for v in vs)
    cl = rec(p, [E("", "locals", ret=lambda c, st: [LOC]), E("", ["items"], when=lambda c: c.recv is LOC, ret=lambda c, st: [PAIRS]),
                 E("", "iter", ret=lambda c, st: [c.args[0]], when=lambda c: len(c.args) == 1 and c.args[0] in (PAIRS,)), E("", "super", when=lambda c: False),
                 E("", ["to_datetime", "to_timezone"]), E(label, sorted({*FIELD.values()}), when=lambda c: c.fn.k == "ref")], cap=20)
    cl.known_seqs = {PAIRS}
    cl.assume_hook = lambda lit, st, node, fr: None if lit[0] == "is" and lit[1][1] is NONE and lit[2] and lit[1][0] in args.values() else st
    res, it = run(p, cl, f, self_cls=CRON, args={**args, **other})
    return f, cl, res, it


@prop("C69", "Parts of a cron trigger that are left out",
      """A cron trigger has its eight parts in the order year to second, each read with the expressions of its own kind. A part that is not given
      stands for every value if a smaller part is given, and otherwise for its least value (week and weekday: every value); with nothing given all
      parts stand for every value. A five-part crontab text sets minute, hour, day, month and weekday; any other number of parts is refused.""",
      ["inputs"],
      "every selection of given parts",
      "the defaults depend on which of the eight parts are given together, of which tests sample a few",
      ["asyncz/triggers/cron/trigger.py", "asyncz/triggers/cron/constants.py"],
      [("CronTrigger.__init__", "asyncz/triggers/cron/trigger.py"), ("CronTrigger.from_crontab", "asyncz/triggers/cron/trigger.py")],
      "abstract interpretation with constant propagation over every selection of given parts",
      "The constructor is interpreted for every selection of given parts; the eight fields it builds (class, name, expression, default flag) are compared with the specified ones.",
      assumptions=["an expression is read as C47 says"])
def c69(ctx):
    p = ctx.proj
    ctx.rule("parts", "fields built for a selection of given parts")
    ctx.rule("crontab", "a crontab text")
    ctx.rule("zone", "the trigger's own time zone, start and end")
    for mask in range(256):
        given = [n for i, n in enumerate(NAMES) if mask >> i & 1]
        f, cl, res, it = build(p, given)
        ctx.absorb(it)
        lastn = max((NAMES.index(n) for n in given), default=None)
        want = []
        for i, n in enumerate(NAMES):
            v = n if n in given else "'*'" if lastn is None or i < lastn or n in ("week", "day_of_week", "year") else None
            if v is None:
                v = "0" if LIMITS[n][0] == 0 else "1"
            want.append(f"{FIELD[n]}|'{n}'|{v}|{n not in given}")
        c = "+".join(given) or "nothing"
        ends = [(k, pl, st) for k, pl, st in res if k == "return"]
        ctx.ob("parts", bool(ends), c, f.where, "cannot be built")
        for k, pl, st in ends:
            got = [x for x in seq(st) if "|" in x]
            bad = [f"{g} instead of {w}" for g, w in zip(got + ["nothing"] * 8, want) if g != w]
            ctx.ob("parts", got == want, c, f.where, "; ".join(bad[:2]) or "more than eight fields", trace(st))
    f = p.method(CRON, "from_crontab")
    ps = [a.arg for a in f.node.args.args]
    parts = T("p", "PARTS")
    text, tz = T("p", ps[1]), T("p", ps[2])
    cl = rec(p, [E("split", "split", ret=lambda c, st: [parts], when=lambda c: c.recv is text)])
    res, it = run(p, cl, f, args={ps[0]: T("ref", CRON)})
    ctx.absorb(it)
    n = 0
    for k, pl, st in res:
        five = [x[2] for x in st.facts if x[0] == "eq" and any(y.k == "call" and callee(y) == "len" and contains(y, parts) for y in x[1]) and const(5) in x[1]]
        if k == "return":
            n += 1
            ctx.ob("crontab", five == [True], "five", f.where, "a text without five parts is accepted", trace(st))
            kw = dict(pl.a[2]) if pl.k in ("new", "call") else {}
            for i, name in enumerate(("minute", "hour", "day", "month", "day_of_week")):
                v = kw.get(name)
                ctx.ob("crontab", v is not None and contains(v, parts) and v.k == "idx" and v.a[1] is const(i), name, f.where, f"{name} is {show(v) if v is not None else 'not set'}", trace(st))
            ctx.ob("crontab", set(kw) <= {"minute", "hour", "day", "month", "day_of_week", "timezone"} and kw.get("timezone") is tz, "timezone", f.where, f"sets {sorted(kw)}", trace(st))
        else:
            ctx.ob("crontab", exc_name(pl) == "ValueError" and (five == [False] or five == []), "refused", f.where, f"a text with five parts raises {exc_name(pl)}", trace(st))
    ctx.ob("crontab", n > 0, "accepted", f.where, "no crontab text is accepted")
    for i in cl.insts:
        if i.label == "split":
            ctx.ob("crontab", not i.call.args or i.call.args == (NONE,), "spaces", i.where, "parts are not separated by any white space")
    # ---- zone, start and end
    f = p.method(CRON, "__init__")
    START, END, ZONE = T("p", "start_at"), T("p", "end_at"), T("p", "timezone")
    conv = {}

    def to_dt(c, st):
        return [T("dt", c.arg(0), c.arg(1))]
    cl = rec(p, [E("", "to_timezone", ret=lambda c, st: [T("zone", c.arg(0))]), E("", "to_datetime", ret=to_dt), E("", sorted({*FIELD.values()})), W("w", ["timezone", "start_at", "end_at", "jitter"])], cap=6)
    args = {n: NONE for n in NAMES}
    cl.known_seqs = {T("tuple", ())}
    res, it = run(p, cl, f, self_cls=CRON, args=args, max_states=400)
    ctx.absorb(it)
    for i in cl.insts:
        if i.label != "w" or i.key not in ("start_at", "end_at", "jitter"):
            continue
        src = T("p", i.key)
        v = i.value
        own = i.st.heap.get((T("self", CRON), "timezone"))
        ok = v is src if i.key == "jitter" else v.k == "dt" and v.a[0] is src and (own is None or v.a[1] in (own, T("attr", T("self", CRON), "timezone")))
        ctx.ob("zone", ok, i.key, i.where, f"{i.key} becomes {show(v)}", trace(i.st))
    zs = [i for i in cl.insts if i.label == "w" and i.key == "timezone"]
    def aware(st, t):
        return truth_known(st, T("attr", t, "tzinfo"))
    for i in zs:
        v = i.value
        given = truth_known(i.st, ZONE)
        c = "timezone"
        if given is True:
            ctx.ob("zone", v is T("zone", ZONE), c + ":given", i.where, f"the zone given becomes {show(v)}", trace(i.st))
        elif v is NONE:
            ctx.ob("zone", aware(i.st, START) is not True and aware(i.st, END) is not True, c + ":none", i.where, "an aware start or end does not set the zone", trace(i.st))
        else:
            ok = v is T("attr", START, "tzinfo") or v is T("attr", END, "tzinfo") and aware(i.st, START) is not True
            ctx.ob("zone", ok, c + ":taken", i.where, f"the zone becomes {show(v)}", trace(i.st))
    ctx.ob("zone", any(i.value is T("zone", ZONE) for i in zs), "timezone:any", f.where, "the zone given is never used")


def truth_known(st, t):
    for x in st.facts:
        if x[0] == "truth" and x[1][0] is t:
            return x[2]
        if x[0] == "is" and x[1][0] is t and x[1][1] is NONE:
            return not x[2]
    return None


@prop("C68", "Cron expressions: equality and written form",
      """Two cron expressions (fields) are equal exactly if they are of the same kind and agree in every part their values depend on, and comparing with
      anything else is false, never an error. Written out, an expression names the same values it was built from, so the text can be read back: the same
      numbers, month and weekday names, positions, range end and step. A field joins its expressions by commas.""",
      ["inputs"],
      "every pair of expressions and every first, last and step",
      "a part left out of a comparison or a name taken from the wrong place of a table shows only for particular values",
      ["asyncz/triggers/cron/expressions.py", "asyncz/triggers/cron/fields.py"],
      [("__eq__, __str__ and __repr__ of expressions and fields", "asyncz/triggers/cron/expressions.py")],
      "path-sensitive abstract interpretation; constants propagated through the name tables",
      "Each comparison is checked path by path for the attributes it relates; each written form is interpreted for every name of the tables and compared with the text the constructor reads back.")
def c68(ctx):
    p = ctx.proj
    ctx.rule("equal", "what an equality compares")
    ctx.rule("text", "the written form reads back")
    ctx.rule("repr", "the repr names the values")
    other = None
    PARTS = {ALL: ("step",), RANGE: ("first", "last", "step"), MONTH: ("first", "last"), WEEKDAY: ("first", "last"), POSITION: ("option_number", "weekday"), LAST: (), F + "BaseField": ("name", "expressions")}
    for q, parts in PARTS.items():
        f = p.method(q, "__eq__")
        me_, other = T("self", q), T("p", f.node.args.args[1].arg)
        cl = rec(p)
        res, it = run(p, cl, f, self_cls=q)
        ctx.absorb(it)
        n, c = 0, cls_name(q)
        for k, pl, st in verdicts(res, it, f):
            if k != "return":
                ctx.ob("equal", False, c + ":raises", f.where, f"raises {exc_name(pl)}", trace(st))
                continue
            if pl.k == "ref" and pl.a[0].endswith("NotImplemented"):
                continue
            lits = set(st.facts)
            inst = [x[2] for x in st.facts if x[0] == "truth" and x[1][0].k == "call" and callee(x[1][0]) == "isinstance" and x[1][0].a[1][0] is other]
            inst += [x[2] for x in st.facts if x[0] in ("is", "eq") and all(y.k == "call" and callee(y) == "type" or y.k == "attr" and y.a[1] == "__class__" for y in x[1])]
            for x in st.facts:
                for y in x[1]:
                    for z in subterms(y) if isinstance(y, T) else ():
                        if z.k == "attr" and z.a[0] is other and z.a[1] != "__class__":
                            ctx.ob("equal", inst == [True], c + ":foreign", f.where, f"reads {z.a[1]} of an object of any kind", trace(st))
            pairs, odd = {}, []
            for x in lits:
                if x[0] in ("eq", "is") and len(x[1]) == 2 and any(contains(y, other) for y in x[1]) and not all(y.k == "call" or y.k == "attr" and y.a[1] == "__class__" for y in x[1]):
                    for a, b in tuple_pairs(*x[1]):
                        names = {y.a[1] for y in (a, b) if y.k == "attr"}
                        owners = {y.a[0] for y in (a, b) if y.k == "attr"}
                        if len(names) == 1 and owners == {me_, other}:
                            pairs[names.pop()] = x[2]
                        else:
                            odd.append(f"{show(a)} with {show(b)}")
            ctx.ob("equal", not odd, c + ":same", f.where, f"compares {'; '.join(odd)}", trace(st))
            if pl is TRUE:
                n += 1
                left = [a for a in parts if pairs.get(a) is not True]
                ctx.ob("equal", inst == [True], c + ":kind", f.where, "objects of another kind may be equal", trace(st))
                ctx.ob("equal", not left, c + ":parts", f.where, f"equal although {', '.join(left)} may differ", trace(st))
            elif pl is FALSE:
                ctx.ob("equal", False in inst or any(pairs.get(a) is False for a in (*parts, "step")), c + ":unequal", f.where, "unequal although of the same kind with the same parts", trace(st))
        ctx.ob("equal", n > 0, cls_name(q) + ":true", f.where, "never equal")

    # ---- written forms
    def adder():
        adds = {}

        def added(c):
            v = c.args[0]
            if c.name == "extend":
                v = list(v.a[0]) if v.k in ("list", "tuple") else [T("unknown")]
            key = f"{c.name} {show(c.recv)} {show(c.args[0])}"
            adds[key] = (c.recv, v if isinstance(v, list) else [v])
            return key
        return adds, E(added, ["append", "extend"], when=lambda c: c.recv is not None and c.recv.k in ("list", "newlist") and len(c.args) == 1)

    def text(q, attrs, meth):
        f = p.method(q, meth)
        adds, ev = adder()
        cl = rec(p, [ev], cap=20)
        res, it = run_with(p, cl, f, q, {k: const(v) for k, v in attrs.items()})
        ctx.absorb(it)
        tx = Text(p, it, q, adds)
        return f, [(k, tx(pl, st) if k == "return" else exc_name(pl), st) for k, pl, st in res]

    def expect(rule, q, attrs, meth, want, what):
        f, got = text(q, attrs, meth)
        bad = [t for k, t, _ in got if k != "return" or t is not None and t not in want]
        ctx.ob(rule, bool(got) and not bad, f"{cls_name(q)}.{meth}:{what}", f.where, f"{what} is written {bad}")
    for step in (None, 2, 15):
        s = f"/{step}" if step else ""
        expect("text", ALL, {"step": step}, "__str__", ["*" + s], f"*{s}")
        expect("repr", ALL, {"step": step}, "__repr__", [f"AllExpression({step})"] + ([] if step else ["AllExpression()"]), f"*{s}")
        for first, last in ((3, 3), (0, 0), (1, 9), (0, 5), (4, None), (0, None)):
            if last is None and not step:
                continue
            t = f"{first}" if last in (None, first) else f"{first}-{last}"
            if last == first and step:
                continue
            expect("text", RANGE, {"first": first, "last": last, "step": step}, "__str__", [t + s], t + s)
            want = f"RangeExpression({first}" + (f", {last}" if last not in (first,) or step else "") + (f", {step}" if step else "") + ")"
            expect("repr", RANGE, {"first": first, "last": last, "step": step}, "__repr__", [want], t + s)
    for q, table, base in ((MONTH, MONTHS, 1), (WEEKDAY, DAYS, 0)):
        n = cls_name(q)
        for i, a in enumerate(table):
            for b in (None, i, len(table) - 1, 0):
                last = None if b is None else b + base
                same = b is None or b == i
                want = a if same else f"{a}-{table[b]}"
                at = {"first": i + base, "last": last, "step": None}
                expect("text", q, at, "__str__", [want], want)
                expect("repr", q, at, "__repr__", [f"{n}('{a}')" if same else f"{n}('{a}', '{table[b]}')"], want)
    for i, a in enumerate(POSITIONS):
        for j, b in enumerate(DAYS):
            if j == 3 or i == 5 or j == i:
                expect("text", POSITION, {"option_number": i, "weekday": j, "step": None}, "__str__", [f"{a} {b}"], f"{a} {b}")
                expect("repr", POSITION, {"option_number": i, "weekday": j, "step": None}, "__repr__", [f"WeekdayPositionExpression('{a}', '{b}')"], f"{a} {b}")
    expect("text", LAST, {}, "__str__", ["last"], "last")
    expect("repr", LAST, {}, "__repr__", ["LastDayOfMonthExpression()"], "last")
    q = F + "BaseField"
    f = p.method(q, "__str__")
    EX = T("tuple", tuple(T("p", f"E{i}") for i in range(3)))
    adds, ev = adder()
    cl = rec(p, [ev, E("", "str", ret=lambda c, st: [T("p", "STR" + show(c.arg(0)))])], cap=20)
    cl.known_seqs = {EX}
    res, it = run_with(p, cl, f, q, {"expressions": EX})
    ctx.absorb(it)
    tx = Text(p, it, q, adds)
    for k, pl, st in res:
        got = tx.joined(pl, st) if k == "return" and pl.k == "call" and callee(pl) == "join" and pl.a[0].k == "attr" and pl.a[0].a[0].k == "const" else None
        sep = pl.a[0].a[0].a[0] if got is not None else None
        ok = sep is not None and sep.strip() == "," and (show(got).count("STRE") == 3 and [x for x in subterms(got) if x.k == "p" and x.a[0].startswith("STR")].__len__() == 3 or got.k == "call" and callee(got) == "map" and got.a[1][1] is EX)
        ctx.ob("text", ok, "BaseField.__str__", f.where, f"is written {show(pl) if k == 'return' else exc_name(pl)}", trace(st))


def verdicts(res, it, f):
    """the results of a predicate with its returned value decided as a truth value"""
    for k, pl, st in res:
        if k == "return" and pl.k != "const" and not (pl.k == "ref" and pl.a[0].endswith("NotImplemented")):
            for s2, ok in it.truth(pl, st, f.node, Frame(f, (f.qual,))):
                yield k, TRUE if ok else FALSE, s2
        else:
            yield k, pl, st


def tuple_pairs(a, b):
    if a.k == b.k == "tuple" and len(a.a[0]) == len(b.a[0]):
        return list(zip(a.a[0], b.a[0]))
    return [(a, b)]


class Text:
    """the text a term stands for, None where it is not made of constants only"""

    def __init__(self, p, it, q, adds):
        self.p, self.it, self.q, self.adds = p, it, q, adds

    def items(self, t, st):
        if t.k in ("list", "tuple", "newlist"):
            out = list(t.a[0]) if t.k != "newlist" else []
            for x in seq(st):
                if x in self.adds and self.adds[x][0] is t:
                    out += self.adds[x][1]
            return out
        if t.k == "bin" and t.a[0] == "+":
            a, b = self.items(t.a[1], st), self.items(t.a[2], st)
            return None if a is None or b is None else a + b
        return None

    def joined(self, t, st):
        """what a join joins"""
        got = self.items(t.a[1][0], st)
        return t.a[1][0] if got is None else T("list", tuple(got))

    def __call__(self, t, st):
        if t.k == "const":
            return str(t.a[0])
        if t.k == "attr" and t.a[1] in ("__name__", "__qualname__"):
            c = t.a[0]
            if c.k == "attr" and c.a[1] == "__class__" or c.k == "call" and callee(c) == "type" and len(c.a[1]) == 1:
                who = c.a[0] if c.k == "attr" else c.a[1][0]
                return cls_name(self.q) if who.k == "self" else None
            return c.a[0].split(".")[-1] if c.k == "ref" else None
        if t.k == "idx" and t.a[0].k == "ref" and t.a[1].k == "const":
            v = self.p.const_of(t.a[0].a[0])
            try:
                return str(v[t.a[1].a[0]])
            except (TypeError, IndexError, KeyError, ValueError):
                return None
        parts, sep = None, ""
        if t.k in ("fstr", "strcat"):
            parts = t.a[0] if len(t.a) == 1 and isinstance(t.a[0], tuple) else t.a
        elif t.k == "bin" and t.a[0] == "+":
            parts = t.a[1:]
        elif t.k == "call" and callee(t) == "str" and len(t.a[1]) == 1:
            parts = t.a[1]
        elif t.k == "call" and callee(t) == "repr" and len(t.a[1]) == 1 and t.a[1][0].k == "const":
            return repr(t.a[1][0].a[0])
        elif t.k == "call" and callee(t) == "join" and t.a[0].k == "attr" and t.a[0].a[0].k == "const" and len(t.a[1]) == 1:
            parts, sep = self.items(t.a[1][0], st), t.a[0].a[0].a[0]
        if parts is None:
            return None
        got = [self(x, st) if isinstance(x, T) else str(x) for x in parts]
        return None if None in got else sep.join(got)
