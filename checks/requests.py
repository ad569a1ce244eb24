"""Numbers taken from dashboard requests: their bounds, and the pages cut with them."""
import ast

from checks.controllers import D, controllers, short
from checks.remote import params
from sa.interp import Frame

from checks._common import *  # noqa: F401,F403
from sa.report import prop

INF = float("inf")
DF = "asyncz/contrib/dashboard/controllers/"


def asked(t):
    """the value comes from the request"""
    return any(x.k == "p" and x.a[0] == "request" for x in subterms(t))


def entry(t, facts):
    """the entry of a dictionary that a loop over it is at, when the path knows the key"""
    if t.k == "val" and t.a[0].k == "dict":
        for k, ts, v in facts:
            if k == "eq" and v and any(x.k == "key" and x.a[0] is t.a[0] for x in ts):
                for key, val in t.a[0].a[0]:
                    if key in ts:
                        return val
    return t


def bounds(t, facts=(), depth=0):
    """(lowest, highest) value of a number term"""
    t = entry(t, facts)
    if depth > 12:
        return -INF, INF
    if t.k == "const":
        return (t.a[0], t.a[0]) if isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool) else (-INF, INF)
    lo, hi = -INF, INF
    if t.k == "range":
        lo, hi = t.a[:2]
    elif t.k == "phi":
        bs = [bounds(x, facts, depth + 1) for x in t.a[0]]
        lo, hi = min(b[0] for b in bs), max(b[1] for b in bs)
    elif t.k == "call":
        n = callee(t)
        args = t.a[1][0].a[0] if len(t.a[1]) == 1 and t.a[1][0].k in ("tuple", "list") else t.a[1]
        if n in ("min", "max") and len(args) > 1:
            f = min if n == "min" else max
            bs = [bounds(x, facts, depth + 1) for x in args]
            lo, hi = f(b[0] for b in bs), f(b[1] for b in bs)
        elif n == "int" and len(args) == 1:
            lo, hi = bounds(args[0], facts, depth + 1)
        elif n == "len":
            lo = 0
        elif n in ("ceil", "floor", "abs") and len(args) == 1:
            lo, hi = bounds(args[0], facts, depth + 1)
    elif t.k == "idx" and t.a[0].k == "call" and callee(t.a[0]) == "sorted" and t.a[0].a[1] and t.a[0].a[1][0].k in ("tuple", "list") and t.a[1].k == "const" and isinstance(t.a[1].a[0], int):
        args = t.a[0].a[1][0].a[0]
        bs = [bounds(x, facts, depth + 1) for x in args]
        if -len(args) <= t.a[1].a[0] < len(args) and not t.a[0].a[2]:
            lo, hi = sorted(b[0] for b in bs)[t.a[1].a[0]], sorted(b[1] for b in bs)[t.a[1].a[0]]
    elif t.k == "count":
        lo = 0
    elif t.k == "op" and t.a[0] in ("Add", "Sub") and len(t.a) == 3:
        (a, b), (c, d) = bounds(t.a[1], facts, depth + 1), bounds(t.a[2], facts, depth + 1)
        lo, hi = (a + c, b + d) if t.a[0] == "Add" else (a - d, b - c)
    for k, ts, v in facts:
        if k == "lt" and len(ts) == 2:
            if ts[0] is t and ts[1].k == "const" and isinstance(ts[1].a[0], int):
                if v:
                    hi = min(hi, ts[1].a[0] - 1)
                else:
                    lo = max(lo, ts[1].a[0])
            elif ts[1] is t and ts[0].k == "const" and isinstance(ts[0].a[0], int):
                if v:
                    lo = max(lo, ts[0].a[0] + 1)
                else:
                    hi = min(hi, ts[0].a[0])
    return (lo, hi) if lo == lo and hi == hi else (-INF, INF)


def number(t, facts, inside=False):
    """known to be a number already, so that int() of it cannot fail"""
    t = entry(t, facts)
    if t.k == "range":
        return True
    if t.k == "phi":
        return all(number(x, facts) for x in t.a[0])
    if t.k == "const":
        return isinstance(t.a[0], (int, float)) or isinstance(t.a[0], str) and t.a[0].isdigit()
    if t.k == "unk" and inside:
        return True
    if t.k == "call" and callee(t) in ("min", "max"):
        return all(number(x, facts, True) for x in t.a[1]) and any(number(x, facts) for x in t.a[1])
    if t.k in ("op", "op1"):
        return all(number(x, facts, True) for x in t.a[1:] if hasattr(x, "k"))
    return t.k == "call" and callee(t) in ("int", "len", "ceil", "floor")


class Ask(Rec):
    def __init__(self, p):
        super().__init__(p, [
            E("int", ["int", "float"], when=lambda c: bool(c.args) and asked(c.args[0]), raises=lambda c, st: self.bad(c, st)),
            E("query", ["query"], ret=lambda c, st: [self.default_term(c)]),
            E("preview", ["preview_task_runs"]),
            E("infos", ["get_task_infos"]),
            E("context", ["get_context_data", "update", "render_template"]),
        ], cap=1, seq=False, small=400, stop=("get_context_data", "render_template", "serialize", "latest_for_task"), noinline_pred=lambda f: not f.module.name.startswith(D + "controllers"))

        self.merge_by_ts = True
        self.max_depth = 40
        self.numeric = {q for q, f in p.functions.items() if q.startswith(D) and any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("int", "float") for n in ast.walk(f.node))
                        and len(list(ast.walk(f.node))) < 160 and f.cls is None and "request" not in params(f)}
        self.nested = False

    def call(self, c, st):
        q = c.fn.a[0] if c.fn.k in ("func", "ref") else None
        if q in self.numeric and not self.nested and not any(k == "**" for k, _ in c.kw):
            fn, recv = c.interp.target(T("func", q, None))
            if fn is not None:
                return self.clamp(c, fn, recv, st)
        return super().call(c, st)

    def clamp(self, c, fn, recv, st):
        """a small number-parsing function is analysed path by path; its result is kept as a range"""
        fr = Frame(c.func, c.stack)
        self.nested, self.merge_by_ts = True, False
        try:
            rs = c.interp.inline_call(fn, recv, c.args, c.kw, st, fr, c.node)
        finally:
            self.nested, self.merge_by_ts = False, True
        out = [("raise", e, x) for e, x in fr.sink]
        for v, x in rs:
            b = bounds(v, x.facts)
            out.append(("ok", T("range", *b, T("call", c.fn, c.args, c.kw)) if number(v, x.facts) else v, x.w(facts=st.facts)))
        return list(dict.fromkeys(out))

    @staticmethod
    def bad(c, st):
        x = c.args[0]
        if number(x, st.facts):
            return ()
        none = x.k == "call" and callee(x) == "get" and len(x.a[1]) == 1 and not any(k == "truth" and v and ts[0] is x or k == "is" and not v and x in ts for k, ts, v in st.facts)
        return ("builtins.ValueError",) + (("builtins.TypeError",) if none else ())


def poly(t):
    """{monomial: coefficient} of sums, differences and products"""
    if t.k == "const" and isinstance(t.a[0], int):
        return {(): t.a[0]} if t.a[0] else {}
    if t.k == "op" and t.a[0] in ("Add", "Sub", "Mult") and len(t.a) == 3:
        a, b = poly(t.a[1]), poly(t.a[2])
        out = {}
        if t.a[0] == "Mult":
            for m, x in a.items():
                for n, y in b.items():
                    k = tuple(sorted(m + n, key=id))
                    out[k] = out.get(k, 0) + x * y
        else:
            out = dict(a)
            for n, y in b.items():
                out[n] = out.get(n, 0) + (y if t.a[0] == "Add" else -y)
        return {k: v for k, v in out.items() if v}
    return {(t,): 1}


def ceil_div(t):
    """(total, size) of ceil(total / size), however it is written"""
    if t.k == "op" and t.a[0] == "FloorDiv":
        size = t.a[2]
        num = poly(t.a[1])
        rest = dict(num)
        if rest.pop((size,), 0) == 1 and rest.pop((), 0) == -1 and len(rest) == 1 and set(rest.values()) == {1}:
            return next(iter(rest))[0], size
    if t.k == "call" and callee(t) == "ceil" and t.a[1] and t.a[1][0].k == "op" and t.a[1][0].a[0] == "Div":
        return t.a[1][0].a[1], t.a[1][0].a[2]
    if t.k == "op1" and t.a[0] == "USub" and t.a[1].k == "op" and t.a[1].a[0] == "FloorDiv":
        n = t.a[1].a[1]
        if n.k == "op1" and n.a[0] == "USub":
            return n.a[1], t.a[1].a[2]
    return None


def slices(t):
    """(whole, start, end) of every slice in a term"""
    out = []
    for x in subterms(t):
        if x.k == "idx" and x.a[1].k == "slice":
            out.append((x.a[0],) + tuple(x.a[1].a[0][:2]))
        elif x.k == "idx" and x.a[1].k == "call" and callee(x.a[1]) == "slice" and x.a[1].a[1]:
            a = x.a[1].a[1]
            out.append((x.a[0],) + ((const(0), a[0]) if len(a) == 1 else a[:2]))
        elif x.k == "call" and callee(x) == "islice" and len(x.a[1]) >= 2:
            a = x.a[1]
            out.append((a[0],) + ((const(0), a[1]) if len(a) == 2 else (a[1], a[2])))
    return out


def leaves(t):
    """the arguments of nested min() and max() calls and merged values, without the constant 1"""
    if t.k == "phi":
        return {y for x in t.a[0] for y in leaves(x)}
    if t.k == "call" and callee(t) in ("min", "max"):
        args = t.a[1][0].a[0] if len(t.a[1]) == 1 and t.a[1][0].k in ("tuple", "list") else t.a[1]
        return {y for x in args for y in leaves(x)}
    return set() if t is const(1) else {t}


def wrong_count(t):
    """a division that is not the number of pages; None when right, or of a form not understood"""
    if ceil_div(t) is not None:
        return None
    form = poly(t)
    div = [m[0] for m in form if len(m) == 1 and m[0].k == "op" and m[0].a[0] == "FloorDiv"]
    if len(div) != 1 or form[(div[0],)] != 1 or set(form) - {(div[0],), ()}:
        return None
    num, size = poly(div[0].a[1]), div[0].a[2]
    plus, by = form.get((), 0), num.get((size,), 0)
    return None if (plus, by, num.get((), 0)) in ((0, 1, -1), (1, 0, -1)) else show(t)[:200]


@prop("C64", "Numbers in dashboard requests are bounded, and never fail the request",
      """Whatever a request's query string holds, the dashboard asks its storages for 1 to 1000 entries, previews 1 to 50 runs per task, shows at most 500 timeline rows
      and at most 200 tasks per page, and a value that is not a number falls back to a default. The pages of the task list tile it: page n
      starts where page n-1 ended and the last page ends with the list.""",
      ["inputs"],
      "every GET controller and every query string",
      "an unbounded limit lets one request copy a whole storage under its lock, a bad number must not be a 500, and an overlap or gap between pages hides tasks; tests try two or three values",
      [DF],
      [("_helpers", DF + "_helpers.py"), ("timeline", DF + "timeline.py")],
      "interval analysis of the limit and count terms of every storage query and preview reachable from a GET handler; exception flow of number conversions; polynomial normal form of the slice bounds",
      "Requests handled by application code outside the dashboard are not covered.")
def c64(ctx):
    p = ctx.proj
    ctx.rule("C64.limit", "the limit of every storage query lies in 1..1000, the count of every run preview in 1..50")
    ctx.rule("C64.number", "no conversion of request data to a number can fail the request")
    ctx.rule("C64.rows", "the timeline shows at most 500 rows")
    ctx.rule("C64.page", "a task page holds at most 200 tasks and the pages tile the list")
    seen = 0
    for cls, ms in sorted(controllers(p).items()):
        m = ms.get("get")
        if m is None:
            continue
        cl = Ask(p)
        res, it = run(p, cl, m, self_cls=cls, max_states=20000)
        ctx.absorb(it)
        nm = short(cls)
        for i in cl.insts:
            if i.label in ("query", "preview"):
                seen += 1
                key, top = ("limit", 1000) if i.label == "query" else ("count", 50)
                v = i.call.arg(1 if i.label == "preview" else 99, key)
                if v is None:
                    ctx.ob("C64.limit", True, "%s:%s" % (nm, i.call.name), i.where, "the default %s" % key)
                    continue
                lo, hi = bounds(v, i.st.facts)
                ctx.ob("C64.limit", 1 <= lo and hi <= top, "%s:%s" % (nm, i.call.name), i.where, "%s is %s, in %s..%s" % (key, show(v)[:100], lo, hi))
        bad = [(k, e) for k, e, st in res if k == "raise" and exc_name(e) in ("ValueError", "TypeError", "OverflowError")]
        ctx.ob("C64.number", not bad, nm, m.where, "a bad number does not fail the request" + (": %s" % show(bad[0][1]) if bad and hasattr(bad[0][1], "k") else ""))
        cut = []
        for i in cl.insts:
            if i.label != "context" or not any(j.label == "infos" for j in cl.insts):
                continue
            for t in list(i.call.args) + [v for _, v in i.call.kw]:
                for d in subterms(t):
                    if d.k != "dict":
                        continue
                    e = {k.a[0]: v for k, v in d.a[0] if k.k == "const"}
                    if "Timeline" in cls and "rows" in e:
                        v = e["rows"]
                        sl = v.a[1].a[0] if v.k == "idx" and v.a[1].k == "slice" else None
                        ok = sl is not None and (sl[0] is NONE or bounds(sl[0], i.st.facts) == (0, 0)) and 0 <= bounds(sl[1], i.st.facts)[0] and bounds(sl[1], i.st.facts)[1] <= 500
                        ctx.ob("C64.rows", ok, nm, i.where, "rows is %s" % show(v)[:160])
                if nm in ("TasklistController", "TaskTablePartialController"):
                    cut += [(i, s) for s in slices(t) if any(x.k == "call" and callee(x) == "get_task_infos" for x in subterms(s[0]))]
        if nm in ("TasklistController", "TaskTablePartialController"):
            ctx.ob("C64.page", bool(cut), nm, m.where, "the listed tasks are cut to a page")
            for i, s in cut:
                pages(ctx, nm, i, s)
    ctx.stat("queries and previews", seen)
    ctx.floor("C64.limit", 8)
    ctx.floor("C64.number", 10)
    ctx.floor("C64.rows", 1)
    ctx.floor("C64.page", 2)


def pages(ctx, nm, i, s):
    """a slice of the listed tasks: [(P-1)*size, (P-1)*size + size) with P = min(requested, pages)"""
    whole, start, end = s
    start = const(0) if start is NONE else start
    if end is NONE:
        ctx.ob("C64.page", False, nm, i.where, "the page has no end: %s" % show(end)[:100])
        return
    a, b = poly(start), poly(end)
    diff = dict(b)
    for m, n in a.items():
        diff[m] = diff.get(m, 0) - n
    diff = {m: n for m, n in diff.items() if n}
    size = next(iter(diff))[0] if len(diff) == 1 and set(diff.values()) == {1} and len(next(iter(diff))) == 1 else None
    ok = size is not None and bounds(size, i.st.facts)[0] >= 1 and bounds(size, i.st.facts)[1] <= 200
    ctx.ob("C64.page", ok, nm + ":size", i.where, "a page holds 1 to 200 tasks; end - start is %s" % " + ".join("%s*%s" % (n, "*".join(show(x) for x in m)) for m, n in diff.items())[:200])
    if size is None:
        return
    page = [next(x for x in m if x is not size) for m, n in a.items() if len(m) == 2 and n == 1 and size in m and set(m) != {size}]
    ok = len(page) == 1 and a.get((size,)) == -1 and len(a) == 2
    ctx.ob("C64.page", ok, nm + ":start", i.where, "page P starts at (P-1)*size: %s" % show(start)[:200])
    if not ok:
        return
    ls = leaves(page[0])
    asked_ = {x for x in ls if asked(x) and not any(y.k == "call" and callee(y) == "len" for y in subterms(x))}
    counts = ls - asked_
    low = bounds(page[0], i.st.facts)[0] >= 1 or all(bounds(x, i.st.facts)[0] >= 1 for x in asked_ if x.k != "const")
    ctx.ob("C64.page", bool(asked_) and low, nm + ":page", i.where, "P is the requested page, at least 1: %s" % show(page[0])[:200])
    bad = [w for w in map(wrong_count, counts) if w]
    ctx.ob("C64.page", not bad, nm + ":count", i.where, "the number of pages is the size of the list over the page size, rounded up" + ("; not %s" % bad[0] if bad else ""))
