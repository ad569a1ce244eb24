"""Dashboard administration: login gate, middleware stack, security headers, forwarded prefix, session."""
import ast

from checks._common import *  # noqa: F401,F403
from checks.controllers import flat, short
from sa.report import prop

A = "asyncz.contrib.dashboard.admin."
AP = A.replace(".", "/")
RESPONSES = ("RedirectResponse", "PlainText", "Response", "HTMLResponse", "JSONResponse", "Redirect")


def cls_of(ctx, name):
    """the class of that name below the admin package"""
    got = [q for q in ctx.proj.classes if q.startswith(A) and short(q) == name]
    ctx.need(len(got) == 1, f"{name} not found")
    return got[0]


def news(t, depth=0):
    """constructor terms a value may be"""
    if t is None:
        return []
    if t.k == "new":
        return [t]
    if t.k == "phi":
        return [y for x in t.a[0] for y in news(x)]
    return []


class Asgi(Rec):
    """calls of the wrapped application, of the authenticator, of send and of a built response; responses by site"""
    def __init__(self, p, events=(), auth_raises=(EXC,)):
        super().__init__(p, list(events), cap=2, inline_all=True)
        self.auth_raises = auth_raises
        self.dyn = self.value

    def value(self, c):
        fn = c.fn
        if fn.k == "attr" and fn.a[0].k == "self" and fn.a[1] in ("app", "authenticate"):
            return (fn.a[1], self.auth_raises if fn.a[1] == "authenticate" else ())
        if fn is T("p", "send"):
            return ("send", ())
        if len(c.args) == 3 and news(fn):
            return ("respond", ())
        return None


def kwarg(t, name, pos=None):
    if t.k == "new" or t.k == "call":
        for k, v in t.a[2]:
            if k == name:
                return v
        if pos is not None and len(t.a[1]) > pos:
            return t.a[1][pos]
    return None


def lits(st, kind, val=True):
    return [ts for k, ts, v in st.facts if k == kind and v == val]


def from_scope(t, *keys):
    """does the value come from scope[key] / scope.get(key)"""
    for x in subterms(t):
        if x.k == "idx" and x.a[0] is T("p", "scope") and x.a[1].k == "const" and x.a[1].a[0] in keys:
            return True
        if x.k == "call" and x.a[0].k == "attr" and x.a[0].a[1] == "get" and x.a[1] and x.a[1][0].k == "const" and x.a[1][0].a[0] in keys:
            return True
    return False


def is_allow(t):
    """an element of the configured allowlist"""
    return t.k == "elem" and t.a[0].k == "attr" and t.a[0].a[1] == "allowlist"


def allowing(kind, ts):
    """does this literal say: the requested path is an allowlist entry or lies below one"""
    if kind == "eq" and len(ts) == 2:
        return next((b for a, b in (ts, ts[::-1]) if is_allow(a)), None)
    if kind == "in" and len(ts) == 2 and ts[1].k == "attr" and ts[1].a[1] == "allowlist":
        return ts[0]
    if kind == "truth" and ts[0].k == "call" and ts[0].a[0].k == "attr" and ts[0].a[0].a[1] == "startswith" and len(ts[0].a[1]) == 1:
        a = ts[0].a[1][0]
        if a.k == "op" and a.a[0] == "Add" and is_allow(a.a[1]) and a.a[2] is const("/") or a.k == "fstr" and len(a.a[0]) == 2 and is_allow(a.a[0][0]) and a.a[0][1] is const("/"):
            return ts[0].a[0].a[0]
    return None


def norm_path(t, st, mount):
    """the path of the request, relative to the mount point"""
    if t.k == "phi":
        return all(norm_path(x, st, mount) for x in t.a[0])
    if t is const("/") or t is const("") or t is const("//"):
        return True
    if t.k == "op" and t.a[0] == "Add":
        return all(norm_path(x, st, mount) for x in t.a[1:3])
    if t.k == "fstr":
        return all(norm_path(x, st, mount) for x in t.a[0])
    if t.k == "idx" and t.a[1].k == "slice":
        lo, hi, step = t.a[1].a[0]
        cut = lo.k == "call" and from_scope(lo, "root_path") and not from_scope(lo, "path")
        if cut and t.a[0].k == "const":        # the "/" put in for a missing path
            return True
        known = any(x.k == "call" and x.a[0].k == "attr" and x.a[0].a[1] == "startswith" and x.a[0].a[0] is t.a[0] and from_scope(x.a[1][0], "root_path") for (x, *_) in lits(st, "truth"))
        return cut and known and norm_path(t.a[0], st, mount)
    if t.k == "call" and t.a[0].k == "attr" and t.a[0].a[1] == "removeprefix":
        return (t.a[1][0] is const("") or from_scope(t.a[1][0], "root_path")) and norm_path(t.a[0].a[0], st, mount)
    return from_scope(t, "path") and (t.k == "idx" or t.k == "call" and t.a[0].k == "attr" and t.a[0].a[1] == "get")


class Gate(Asgi):
    """also learns, per comprehension, under which conditions its element is true"""
    def __init__(self, p, events=()):
        super().__init__(p, events)
        self.elts = {}

    def on_elt(self, terms, st, node, fr):
        self.elts.setdefault((fr.func.module.rel, node.lineno, node.col_offset), set()).add((terms, st))
        return st


@prop("C55", "The dashboard's login gate lets nothing through without a user",
      """With the login gate in place an HTTP request reaches the dashboard only if its path, relative to the mount point, is an allowlist entry or
      lies below one, or the backend returned a user for this request, which is then attached to it. Every other request, also one whose authentication
      raised, never reaches the application and is sent to the login page under the mount point: HTMX requests by 401 with HX-Redirect, others by 303.""",
      ["inputs"],
      "every path, mount point, allowlist, header set and outcome of the backend",
      "a prefix match without the slash, a swapped condition or a swallowed exception opens the whole dashboard; tests ask for two or three paths",
      [AP + "middleware/auth_gate.py"],
      [("AuthGateMiddleware.__call__", AP + "middleware/auth_gate.py")],
      "path enumeration of the middleware: every call of the application must be dominated by an admission fact, every other path ends in one rejection",
      "What the backend accepts as a user is the backend's decision; only HTTP scopes are gated (websockets do not exist in the dashboard).")
def c55(ctx):
    p = ctx.proj
    q = cls_of(ctx, "AuthGateMiddleware")
    f = p.method(q, "__call__")
    ctx.rule("admit", "the application is called only for non-HTTP scopes, allowlisted paths, or an authenticated user")
    ctx.rule("user", "the authenticated user is attached to the request that is handed on")
    ctx.rule("reject", "a request that is not admitted is answered once, by the redirect that fits it, to the login page")
    cl = Gate(p, [W("user", ["user"])])
    res, it = run(p, cl, f, self_cls=q, max_states=6000)
    ctx.absorb(it)
    for i in cl.insts:
        if i.label != "app":
            continue
        why, user = None, None
        for kind, ts, val in i.st.facts:
            if kind == "eq" and not val and const("http") in ts and any(from_scope(x, "type") for x in ts):
                why = "not http"
            elif kind == "in" and not val and from_scope(ts[0], "type"):
                why = "not http"
            elif val:
                path = allowing(kind, ts)
                t = ts[0]
                if path is not None:
                    why = "allowlist"
                    ctx.ob("admit", norm_path(path, i.st, None), "allowlist:path", i.where, f"what is compared with the allowlist is {show(path)}, not the path below the mount point")
                elif kind == "truth" and t.k == "call" and t.a[0].k == "ref" and t.a[0].a[0] == "builtins.any" and t.a[1] and t.a[1][0].k == "comp":
                    ok = any_allows(ctx, cl, t.a[1][0], i)
                    why = "allowlist" if ok else why
                elif is_auth(t) and kind == "truth":
                    why, user = why or "user", t
            elif kind == "is" and is_auth(ts[0]) and NONE in ts:      # `is not None`
                user = ts[0]
                why = why or "user"
        ctx.ob("admit", why is not None, f"app:{why or 'unconditional'}", i.where, "the application is reached without an admission", [f"{k} {' ; '.join(show(x) for x in ts)} {v}" for k, ts, v in i.st.facts])
        if why == "user":
            w = [x for x in cl.insts if x.label == "user" and x.value is user]
            ctx.ob("user", "user" in i.seq and bool(w), "app:user", i.where, "the authenticated user is not attached to the request", list(i.seq))
            ctx.ob("user", not i.call.args or any(x is T("p", "scope") for x in subterms(i.call.args[0])), "app:scope", i.where, "the application is called with another scope")
    for kind, pl, st in res:
        s = st.ts[1]
        if kind == "raise":
            ctx.ob("admit", "app" not in s or "authenticate!" not in s, "raise", f.where, "a failed authentication still reaches the application", list(s))
            continue
        ctx.ob("reject", s.count("app") + s.count("respond") + s.count("send") == 1 or "send" in s and "app" not in s, "one answer", f.where, f"a request is answered {s.count('app') + s.count('respond')} times", list(s))
    for i in cl.insts:
        if i.label != "respond":
            continue
        hx = [v for k, ts, v in i.st.facts if k == "eq" and const("true") in ts and any("hx-request" in show(x, 12).lower() for x in ts)]
        for r in news(i.call.fn):
            code = kwarg(r, "status_code", 1)
            hd = kwarg(r, "headers", 2)
            target = None
            if code is const(401) or hd is not None:
                d = dict((k.a[0].lower(), v) for k, v in hd.a[0] if k.k == "const" and isinstance(k.a[0], str)) if hd is not None and hd.k == "dict" else {}
                target = d.get("hx-redirect")
                ctx.ob("reject", code is const(401) and target is not None, "htmx", i.where, f"an HTMX request is rejected with {show(code) if code is not None else None} and no HX-Redirect")
                ctx.ob("reject", True in hx, "htmx:when", i.where, "a request not known to be HTMX is answered for HTMX")
            else:
                target = kwarg(r, "url", 0)
                ctx.ob("reject", short(r.a[0]) == "RedirectResponse" and code in (const(303), const(302)), "redirect", i.where, f"rejected with {short(r.a[0])} {show(code) if code is not None else None}")
                ctx.ob("reject", True not in hx, "redirect:when", i.where, "an HTMX request is answered by a page redirect")
            ps = parts(target)
            ctx.ob("reject", login_target(ps, i.st), "login page", i.where, f"sent to {show(target) if target is not None else None} instead of mount point + login path")
            ctx.ob("reject", not raw_path(ps), "next quoted", i.where, f"the requested path is put unquoted into {show(target, 8) if target is not None else None}")
    ctx.floor("admit", 3)
    ctx.floor("reject", 5)


def is_auth(t):
    if t.k == "await":
        t = t.a[0]
    return t.k == "call" and t.a[0].k == "attr" and t.a[0].a[1] == "authenticate"


def any_allows(ctx, cl, comp, i):
    """an `any(... for p in allowlist)`: every way its element can be true must be an allowlist match"""
    seen = False
    for at, ways in cl.elts.items():
        for terms, st in ways:
            if not any(comp_has(comp, t) for t in terms):
                continue
            seen = True
            for t in terms:
                if t is const(False):
                    continue
                got = [allowing("truth", (t,))] if t.k == "call" else []
                if t.k == "cmp":
                    got = [allowing("eq", (t.a[1], t.a[2]))] if t.a[0] == "==" else []
                if t is const(True):
                    got = [allowing(k, ts) for k, ts, v in st.facts if v]
                got = [g for g in got if g is not None]
                ctx.ob("admit", bool(got), "allowlist:any", i.where, f"an entry admits the request by {show(t)}")
                for g in got:
                    ctx.ob("admit", norm_path(g, st, None), "allowlist:path", i.where, f"what is compared with the allowlist is {show(g)}, not the path below the mount point")
    return seen


def comp_has(comp, t):
    return any(x is t for e in comp.a[1] for x in ((e,) if isinstance(e, T) else e)) or any(x is t for x in subterms(comp))


def parts(t):
    """pieces of a concatenated string, in order"""
    if t is None:
        return []
    if t.k == "op" and t.a[0] == "Add":
        return parts(t.a[1]) + parts(t.a[2])
    if t.k == "fstr":
        return [y for x in t.a[0] for y in parts(x)]
    return [t]


def login_target(ps, st):
    ps = [x for x in ps if x is not const("")]
    if len(ps) >= 1 and ps[0].k == "attr" and ps[0].a[1] == "login_path":       # known not to be mounted below a prefix
        return any(from_scope(ts[0], "root_path") and not from_scope(ts[0], "path") for ts in lits(st, "truth", False))
    return len(ps) >= 2 and from_scope(ps[0], "root_path") and ps[1].k == "attr" and ps[1].a[1] == "login_path"


def raw_path(ps):
    def is_path(x):
        return x.k == "idx" and from_scope(x, "path") or x.k == "call" and x.a[0].k == "attr" and x.a[0].a[1] == "get" and from_scope(x, "path")
    return any(is_path(x) or x.k == "idx" and is_path(x.a[0]) for x in ps)


class Headers(Asgi):
    """follows the wrapped send: the closure handed to the application is called with a response message"""
    def __init__(self, p, loops=False):
        super().__init__(p, [E(self.added, ["append", "insert", "setdefault", "add"], when=lambda c: len(c.args) >= 1 and c.fn.k == "attr" and "session" not in show(c.recv))])
        self.dyn = lambda c: ("forward", ()) if c.fn is T("p", "send") else None
        self.by_name.setdefault("app", []).append(E("app", ["app"], when=lambda c: c.fn.k == "attr" and c.fn.a[0].k == "self", ret=self.wrapped))
        self.iter_rel = loops
        self.iter_events = frozenset(["append", "insert", "setdefault", "add"])
        self.skips, self.kept, self.heads = [], [], []

    def added(self, c):
        t = c.args[-1]
        if c.name in ("setdefault", "add") and len(c.args) == 2:
            t = T("tuple", c.args)
        nm = t.a[0][0] if t.k == "tuple" and t.a[0] else None
        return "" if nm is None else "hdr:hsts" if flat_b(nm) == "strict-transport-security" else "hdr:default" if default_pair(t) else "hdr:?"

    def wrapped(self, c, st):
        snd = c.arg(2, "send")
        if snd is None or snd is T("p", "send"):
            return [(self.default_term(c), self.add(st, "plain"))]
        out = []
        for kind, v, x in self.invoke(c, snd, [T("p", "message")], st):
            out.append((NONE, x if kind == "ok" else self.add(x, "!raised")))
        return out

    def sub_write(self, base, key, value, st, node, fr):
        if key is const("headers") and contains(base, T("p", "message")):
            self.heads.append((value, st, fr.func, node))
            return self.add(st, "headers")
        return super().sub_write(base, key, value, st, node, fr)

    def on_elt(self, terms, st, node, fr):
        for t in terms:
            if default_pair(t):
                self.kept.append((t, st, node, fr.func))
        return st

    def on_skip(self, it, st, node, fr):
        self.skips.append((it, st, node, fr.func))
        return st


def flat_b(t):
    v = t.a[0] if t.k == "const" else None
    return v.decode("latin-1").lower() if isinstance(v, bytes) else v.lower() if isinstance(v, str) else None


def default_pair(t):
    """an element of the configured headers"""
    return any(x.k == "elem" and x.a[0].k == "attr" and x.a[0].a[1] == "headers" for x in subterms(t))


def name_test(st, want):
    """facts `name (not) in the response's own header names` for a name of which want() holds; own names must be compared in lower case"""
    return [(ts, v) for k, ts, v in st.facts if k == "in" and want(ts[0]) and any("headers" in show(x, 12) for x in subterms(ts[1]))]


@prop("C57", "Every dashboard response carries the security headers, HSTS only over https",
      """Every HTTP response that passes the security middleware leaves with each configured header it did not already set, keeps all headers it had,
      and carries Strict-Transport-Security only if the request came over https. Every message is forwarded exactly once, other scopes are untouched.
      The default set forbids framing, content sniffing and foreign scripts.""",
      ["inputs"],
      "every response (pages, redirects, errors, static files), every set of headers the application already set, both schemes",
      "a response kind that is not sampled (a 401, a 404, a file) loses the headers silently; browsers do not complain",
      [AP + "middleware/security_headers.py"],
      [("SecurityHeadersMiddleware.__call__", AP + "middleware/security_headers.py"), ("DEFAULT_SECURITY_HEADERS", AP + "middleware/security_headers.py")],
      "the wrapped send is analysed as the application calls it: every path of a response message, per header iteration, with the membership facts that guard an addition",
      "What a browser makes of the headers is outside; the default values are read from the source.")
def c57(ctx):
    p = ctx.proj
    q = cls_of(ctx, "SecurityHeadersMiddleware")
    f = p.method(q, "__call__")
    ctx.rule("forward", "a message is forwarded exactly once; a non-HTTP scope passes unchanged")
    ctx.rule("all-headers", "a configured header is added unless the response has it, and only then")
    ctx.rule("kept", "the headers of the response are kept")
    ctx.rule("hsts", "Strict-Transport-Security is added exactly when the scheme is https and the response has none")
    ctx.rule("defaults", "the default headers contain the protections the documentation names")
    cl = Headers(p)
    res, it = run(p, cl, f, self_cls=q, max_states=6000)
    ctx.absorb(it)
    start = lambda st: next((v for k, ts, v in st.facts if k == "eq" and const("http.response.start") in ts), None)
    http = lambda st: next((v for k, ts, v in st.facts if k == "eq" and const("http") in ts), None)
    for kind, pl, st in res:
        s = st.ts[1]
        ctx.ob("forward", kind != "raise" and s.count("app") == 1, "app", f.where, "the application is not called exactly once", list(s))
        if http(st) is False:
            ctx.ob("forward", "plain" in s, "other scopes", f.where, "a scope that is not HTTP is wrapped", list(s))
            continue
        ctx.ob("forward", "plain" not in s, "wrapped", f.where, "an HTTP response passes without the headers", list(s))
        ctx.ob("forward", s.count("forward") == 1, "message", f.where, f"a message is forwarded {s.count('forward')} times", list(s))
        if start(st) is False:
            ctx.ob("forward", not any(x.startswith(("hdr:", "headers")) for x in s), "body", f.where, "a message without headers is changed", list(s))
        elif start(st):
            ctx.ob("kept", "headers" in s, "set", f.where, "the response leaves without the extended headers", list(s))
            ctx.ob("kept", "headers" in s and "forward" in s and s.index("headers") < s.index("forward"), "before", f.where, "the headers are set after the message was forwarded", list(s))
            https = any(v for k, ts, v in st.facts if k == "eq" and const("https") in ts and any(from_scope(x, "scheme") for x in ts))
            has = [v for ts, v in name_test(st, lambda t: flat_b(t) == "strict-transport-security")]
            added = "hdr:hsts" in s
            ctx.ob("hsts", not added or https and False in has, "only", f.where, "HSTS is added without https, or twice", list(s))
            ctx.ob("hsts", added or not https or True in has, "present", f.where, "an https response leaves without HSTS", list(s))
    for value, st, fn, node in cl.heads:
        w = f"{fn.module.rel}:{node.lineno}"
        ok = any(contains(x, T("p", "message")) for x in subterms(value))
        ctx.ob("kept", ok, "own headers", w, f"the response's own headers are replaced by {show(value)}")
    loops = 0
    cl2 = Headers(p, loops=True)
    cl2.keep_break = True
    ends, it2 = run(p, cl2, f, self_cls=q, max_states=6000)
    ctx.absorb(it2)
    for kind, pl, st in ends:
        ctx.ob("all-headers", "@iter" not in st.ts[1], "to the end", f.where, "the loop over the configured headers is left early", list(st.ts[1]))
    for itb, st, node, fn in cl2.iters:
        itb = bare(itb)
        if not (itb.k == "attr" and itb.a[1] == "headers"):
            continue
        loops += 1
        done = [x for x in st.ts[1] if x == "hdr:default"]
        known = [v for ts, v in name_test(st, default_pair)]
        ctx.ob("all-headers", len(done) == 1 and False in known or not done and True in known, "each", f"{fn.module.rel}:{node.lineno}", "a configured header is added although present, or left out although absent", list(st.ts[1]))
    for t, st, node, fn in cl.kept:
        loops += 1
        ctx.ob("all-headers", False in [v for ts, v in name_test(st, default_pair)], "each", f"{fn.module.rel}:{node.lineno}", "a configured header is added without asking whether the response has it")
    for itb, st, node, fn in cl.skips:
        itb = bare(itb)
        if itb.k == "attr" and itb.a[1] == "headers":
            ctx.ob("all-headers", True in [v for ts, v in name_test(st, default_pair)], "each", f"{fn.module.rel}:{node.lineno}", "a configured header is left out although the response lacks it")
    for ts in {ts for i in cl.insts for ts, v in name_test(i.st, lambda t: True)}:
        ctx.ob("all-headers", "lower(" in show(ts[1], 14) or "lower(" in show(ts[0], 14), "case", f.where, f"header names are compared case-sensitively: {show(ts[1], 10)}")
    ctx.ob("all-headers", loops > 0, "loop", f.where, "no iteration over the configured headers")
    m = p.modules[q.rpartition(".")[0]]
    table = {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Tuple) and len(n.elts) == 2 and all(isinstance(x, ast.Constant) and isinstance(x.value, (bytes, str)) for x in n.elts):
            k, v = (x.value if isinstance(x.value, str) else x.value.decode() for x in n.elts)
            table[k.lower()] = v.lower()
    for name, ok in (("x-content-type-options", lambda v: v == "nosniff"), ("x-frame-options", lambda v: v in ("deny", "sameorigin")),
                     ("content-security-policy", csp_ok), ("referrer-policy", lambda v: v in ("no-referrer", "same-origin", "strict-origin", "strict-origin-when-cross-origin"))):
        ctx.ob("defaults", name in table and ok(table[name]), name, f"{m.rel}:1", f"{name} is {table.get(name)!r}")
    ctx.floor("forward", 3)
    ctx.floor("hsts", 2)


def csp_ok(v):
    d = {x.split()[0]: x.split()[1:] for x in v.split(";") if x.split()}
    scripts = d.get("script-src", d.get("default-src", ["*"]))
    return "'self'" in scripts and not {"*", "'unsafe-inline'", "'unsafe-eval'", "https:", "http:", "data:"} & set(scripts) and d.get("frame-ancestors") in (["'none'"], ["'self'"]) and d.get("object-src") in (["'none'"], ["'self'"], None) and d.get("base-uri") in (["'self'"], ["'none'"])


TRUST = "trusted_hosts"


def client_value(t):
    """the peer address of the connection"""
    return from_scope(t, "client") and not any(from_scope(t, k) for k in ("headers",))


def trusting(kind, ts, val):
    """does this literal say: the peer is trusted (None: no statement)"""
    if kind == "in" and val and len(ts) == 2:
        if ts[0] is const("*") and from_attr(ts[1], TRUST):
            return True
        if from_attr(ts[1], TRUST) and (client_value(ts[0])):
            return True
    if kind == "eq" and val and len(ts) == 2:
        for a, b in (ts, ts[::-1]):
            if a.k == "elem" and from_attr(a, TRUST) and (b is const("*") or client_value(b)):
                return True
    return False


class Proxy(Asgi):
    def __init__(self, p):
        self.max_depth = 40
        super().__init__(p, [E("net", ["ip_network", "ip_address", "IPv4Network", "ip_interface"], raises=("builtins.ValueError",))])
        self.writes, self.elts = [], {}

    def sub_write(self, base, key, value, st, node, fr):
        if key.k == "const" and key.a[0] in ("app_root_path", "root_path", "path", "raw_path") and (from_p(base, "scope")):
            self.writes.append((base, key.a[0], value, st, f"{fr.func.module.rel}:{node.lineno}"))
            return self.add(st, "set:" + key.a[0])
        return st

    def on_dict(self, pairs, st, node, fr):
        if any(k.k == "starstar" and from_p(v, "scope") for k, v in pairs):
            for k, v in pairs:
                if k.k != "starstar":
                    st = self.sub_write(T("dict", tuple(pairs)), k, v, st, node, fr)
        return st

    def on_elt(self, terms, st, node, fr):
        for t in terms:
            self.elts.setdefault((fr.func.module.rel, node.lineno, node.col_offset), set()).add((t, st))
        return st


def from_p(t, name):
    return any(x is T("p", name) for x in subterms(t))


def slash_start(t, st, depth=0):
    """the string is known to begin with a slash"""
    if t is None or depth > 8:
        return False
    if t.k == "const":
        return isinstance(t.a[0], str) and t.a[0].startswith("/")
    if any(x.k == "call" and x.a[0].k == "attr" and x.a[0].a[1] == "startswith" and x.a[0].a[0] is t and x.a[1] and x.a[1][0] is const("/") for (x, *_) in lits(st, "truth")):
        return True
    if t.k == "op" and t.a[0] == "Add":
        return slash_start(t.a[1], st, depth + 1)
    if t.k == "fstr" and t.a[0]:
        return slash_start(t.a[0][0], st, depth + 1)
    if t.k == "phi":
        return all(slash_start(x, st, depth + 1) for x in t.a[0])
    if t.k == "call" and t.a[0].k == "attr" and t.a[0].a[1] in ("rstrip", "removesuffix"):
        return slash_start(t.a[0].a[0], st, depth + 1)
    return False


def no_slash_end(t, st, depth=0):
    """the string does not end with a slash, or is just one"""
    if t is None or depth > 8:
        return False
    if t.k == "const":
        return t.a[0] == "/" or isinstance(t.a[0], str) and not t.a[0].endswith("/")
    if t.k == "phi":
        return all(no_slash_end(x, st, depth + 1) for x in t.a[0])
    if t.k == "call" and t.a[0].k == "attr" and t.a[0].a[1] == "rstrip":
        return t.a[1] and t.a[1][0] is const("/") and bool([1 for (x, *_) in lits(st, "truth") if x is t])
    return False


@prop("C66", "A forwarded prefix is believed only from a trusted peer, and only for URLs",
      """X-Forwarded-Prefix changes the external root path of a request only when the connection's peer address is in trusted_hosts, lies in a network
      listed there, or trusted_hosts contains '*'; an unknown peer or an entry that is no network is not trusted. An honoured prefix begins with one
      slash, does not end with one, and precedes an existing one; routing (path, root_path) and the server's own scope object are never changed.""",
      ["inputs"],
      "every peer address, header value and list of trusted hosts",
      "one wrong default lets any client rewrite every link and redirect of the dashboard; tests try the loopback address and one stranger",
      [AP + "middleware/forward_root_path.py"],
      [("ForwardedPrefixMiddleware.__call__", AP + "middleware/forward_root_path.py"), ("ForwardedPrefixMiddleware._is_trusted", AP + "middleware/forward_root_path.py")],
      "path enumeration with the trust decision inlined: each write of the root path must be dominated by a trust fact about the peer; string shape by abstract prefix/suffix",
      "ipaddress itself is trusted; several prefix headers on one request are not judged.")
def c66(ctx):
    p = ctx.proj
    q = cls_of(ctx, "ForwardedPrefixMiddleware")
    f = p.method(q, "__call__")
    ctx.rule("trusted", "the external root path is written only with a trust fact about the peer address")
    ctx.rule("honoured", "a usable prefix from a trusted peer is applied")
    ctx.rule("shape", "the prefix begins with a slash, does not end with one, and comes first")
    ctx.rule("routing", "path and root_path stay, and the scope is copied before it is changed")
    ctx.rule("forward", "the application is called exactly once")
    # the decision of the middleware, as facts on the path
    cl = Proxy(p)
    res, it = run(p, cl, f, self_cls=q, max_states=8000)
    ctx.absorb(it)
    decide = trust_summary(ctx, p, q)
    ctx.ob("trusted", bool(cl.writes), "written", f.where, "no write of the external root path found")
    for base, key, value, st, w in cl.writes:
        if key != "app_root_path":
            ctx.ob("routing", False, key, w, f"{key} is changed")
            continue
        ctx.ob("routing", base is not T("p", "scope"), "copied", w, "the server's own scope is changed")
        why = any(trusting(k, ts, v) for k, ts, v in st.facts) or net_fact(st) or any(k == "truth" and v and asked(p, q, ts[0], decide) for k, ts, v in st.facts) or any_fact(cl, st)
        ctx.ob("trusted", why, "app_root_path", w, "the prefix is believed without a trust fact about the peer", [f"{k} {' ; '.join(show(x) for x in ts)} {v}" for k, ts, v in st.facts])
        ctx.ob("shape", slash_start(value, st), "start", w, f"the root path {show(value)} need not begin with a slash")
        ctx.ob("shape", no_slash_end(value, st), "end", w, f"the root path {show(value)} may end with a slash")
        if value is const("/"):
            continue
        ps = [x for x in flatten(value) if x.k != "const"]
        ctx.ob("shape", bool(ps) and header_value(ps[0]), "order", w, f"the forwarded prefix does not come first in {show(value)}")
        old = [v for k, ts, v in st.facts if k == "truth" and from_scope(ts[0], "app_root_path", "root_path")]
        ctx.ob("shape", True not in old or any(from_scope(x, "app_root_path", "root_path") for x in ps), "existing", w, f"an existing root path is lost in {show(value)}")
    for kind, pl, st in res:
        s = st.ts[1]
        if kind == "raise":
            ctx.ob("forward", False, "raise", f.where, "a header makes the middleware fail", list(s))
            continue
        ctx.ob("forward", s.count("app") == 1, "app", f.where, f"the application is called {s.count('app')} times", list(s))
        ok = any(trusting(k, ts, v) for k, ts, v in st.facts) or any(k == "truth" and v and asked(p, q, ts[0], decide) for k, ts, v in st.facts)
        given = [v for k, ts, v in st.facts if k == "truth" and header_value(ts[0]) and not (ts[0].k == "call" and ts[0].a[0].k == "attr" and ts[0].a[0].a[1] == "startswith")]
        root = any(k == "eq" and v and const("/") in ts for k, ts, v in st.facts)
        if ok and given and all(given) and not root and http_like(st):
            ctx.ob("honoured", "set:app_root_path" in s, "trusted", f.where, "a prefix from a trusted peer is not applied", [f"{k} {' ; '.join(show(x) for x in ts)} {v}" for k, ts, v in st.facts])
    ctx.floor("trusted", 2)
    ctx.floor("honoured", 1)


def http_like(st):
    return not any(k == "in" and not v and from_scope(ts[0], "type") for k, ts, v in st.facts)


def header_value(t):
    return any("headers" in show(x, 3) for x in subterms(t) if x.k in ("call", "comp", "idx")) and from_scope(t, "headers")


def flatten(t):
    if t.k == "op" and t.a[0] == "Add":
        return flatten(t.a[1]) + flatten(t.a[2])
    if t.k == "fstr":
        return [y for x in t.a[0] for y in flatten(x)]
    if t.k == "call" and t.a[0].k == "attr" and t.a[0].a[1] in ("rstrip", "strip", "lstrip", "removesuffix") and not header_only(t.a[0].a[0]):
        return flatten(t.a[0].a[0])
    return [t]


def header_only(t):
    return t.k not in ("op", "fstr")


def net_fact(st):
    """ip in ip_network(entry) for an entry of the trusted hosts"""
    return any(k == "in" and v and ts[1].k in ("call", "new") and "ip_network" in show(ts[1], 2) and from_attr(ts[1], TRUST) and client_value(ts[0]) for k, ts, v in st.facts)


def any_fact(cl, st):
    for k, ts, v in st.facts:
        if k == "truth" and v and ts[0].k == "call" and ts[0].a[0].k == "ref" and ts[0].a[0].a[0] == "builtins.any":
            ways = [w for at in cl.elts.values() for w in at if any(x is w[0] for x in subterms(ts[0]))]
            if ways and all(elt_trust(t, s2) for t, s2 in ways):
                return True
    return False


def elt_trust(t, st):
    if t is const(False):
        return True
    if t.k == "cmp":
        kind = {"In": "in", "Eq": "eq", "in": "in", "==": "eq", "eq": "eq"}.get(t.a[0])
        return kind is not None and (trusting(kind, (t.a[1], t.a[2]), True) or kind == "in" and net_fact(type(st)(st.env, st.heap, frozenset([("in", (t.a[1], t.a[2]), True)]), st.ts)))
    return False


def asked(p, q, t, decide):
    """a call of the (not inlined) decision method, itself judged by trust_summary"""
    return t.k == "call" and t.a[0].k == "func" and t.a[0].a[0] in decide and any(x is T("p", "scope") for x in t.a[1])


def is_answer(t):
    return t is not None and (t in (const(True), const(False)) or t.k in ("cmp", "not") or t.k == "call" and t.a[0].k == "ref" and t.a[0].a[0] in ("builtins.any", "builtins.all", "builtins.bool"))


def trust_summary(ctx, p, q):
    """methods of the class that answer True only for a trusted peer"""
    ok = set()
    for name, m in p.classes[q].methods.items():
        if name in ("__init__", "__call__") or "scope" not in [a.arg for a in m.node.args.args]:
            continue
        cl = Proxy(p)
        res, it = run(p, cl, m, self_cls=q, max_states=3000)
        ctx.absorb(it)
        good, yes = True, 0
        if not any(is_answer(pl) for kind, pl, _ in res if kind == "return"):
            continue
        for kind, pl, st in res:
            if kind == "raise":
                ctx.ob("trusted", False, f"{name}:raise", m.where, "the decision about the peer fails on a malformed address or entry", list(st.ts[1]))
                continue
            if pl is const(False) or pl is NONE:
                continue
            yes += 1
            why = any(trusting(k, ts, v) for k, ts, v in st.facts) or net_fact(st) or any_fact(cl, st)
            if pl is not const(True) and not why:
                why = elt_trust(pl, st) or pl.k == "call" and pl.a[0].k == "ref" and pl.a[0].a[0] == "builtins.any" and any_fact(cl, type(st)(st.env, st.heap, frozenset([("truth", (pl,), True)]), st.ts))
            good = ctx.ob("trusted", why, f"{name}:True", m.where, f"the peer is trusted ({show(pl)}) without being listed", [f"{k} {' ; '.join(show(x) for x in ts)} {v}" for k, ts, v in st.facts]) and good
        if yes:
            ok.add(m.qual)
    return ok


class Session(Rec):
    def __init__(self, p):
        super().__init__(p, [E("verify", ["verify"], when=lambda c: c.recv is not None and c.recv.k == "self"),
                             M(lambda op, k, v: "session:" + op, ["session"]),
                             E("redirect", ["RedirectResponse"]), E("page", ["get_template_response"]), E("", ["default_context"])],
                         cap=2, inline_all=True, noinline_pred=lambda f: f.name in ("default_context", "reverse"))


def is_verify(t):
    return t.k == "call" and t.a[0].k == "attr" and t.a[0].a[1] == "verify"


def form_field(t, name):
    return any(x.k in ("call", "idx") and (x.k == "idx" and x.a[1] is const(name) or x.k == "call" and x.a[0].k == "attr" and x.a[0].a[1] in ("get", "getlist") and x.a[1] and x.a[1][0] is const(name)) for x in subterms(t))


def given_by_client(t):
    return any(x.k == "attr" and x.a[1] in ("query_params", "headers", "cookies", "path_params") or x.k == "call" and x.a[0].k == "attr" and x.a[0].a[1] == "form" for x in subterms(t))


def on_site(t, st):
    """a redirect target that cannot leave the site"""
    if t.k == "phi":
        return all(on_site(x, st) for x in t.a[0])
    if t.k == "op" and t.a[0] == "Add" or t.k == "fstr":
        ps = [x for x in parts(t) if x is not const("")]
        if ps and ps[0] is const("/") and len(ps) > 1 and given_by_client(ps[1]):
            return ps[1].k == "call" and ps[1].a[0].k == "attr" and ps[1].a[0].a[1] in ("lstrip", "strip") and bool(ps[1].a[1]) and "/" in str(ps[1].a[1][0].a[0])
        return not ps or on_site(ps[0], st)
    if not given_by_client(t):
        return True
    def about(x):
        return x is t or x.k == "call" and x.a[0].k == "attr" and x.a[0].a[1] in ("strip", "lstrip") and x.a[0].a[0] is t
    one = two = host = False
    for k, ts, v in st.facts:
        x = ts[0]
        if k == "truth" and x.k == "call" and x.a[0].k == "attr" and x.a[0].a[1] == "startswith" and about(x.a[0].a[0]) and x.a[1]:
            a = x.a[1][0]
            one = one or v and a is const("/")
            two = two or not v and (a is const("//") or a.k == "tuple" and const("//") in a.a[0])
        if k == "eq" and v and any(y.k == "idx" and about(y.a[0]) for y in ts) and const("/") in ts:
            one = True
        if k == "eq" and not v and any(y.k == "idx" and about(y.a[0]) for y in ts) and (const("//") in ts or const("/") in ts):
            two = True
        if k == "truth" and not v and x.k == "attr" and x.a[1] == "netloc" and any(about(y) for y in subterms(x)):
            host = True
        if k == "in" and v and about(x) and not given_by_client(ts[1]):
            return True
    return one and (two or host)


@prop("C67", "A dashboard session exists only after a successful login, and ends with logout",
      """The username-and-password backend stores a user in the session only when its verify function accepted the submitted username and password,
      under the key from which requests are authenticated; a refused login stores nothing and shows the form again. Without that entry no user is
      reported, logout removes it, and after a login the browser is sent to a page of the same site whatever 'next' says.""",
      ["inputs"],
      "every form, every answer of verify, every value of next, every session",
      "a session written before the check, or an open redirect after it, passes every test that logs in with good credentials",
      [AP + "backends.py"],
      [("SimpleUsernamePasswordBackend.login", AP + "backends.py"), ("SimpleUsernamePasswordBackend.authenticate", AP + "backends.py"), ("SimpleUsernamePasswordBackend.logout", AP + "backends.py")],
      "path enumeration of the three methods: each session write is dominated by the truth of verify(form), each redirect target by same-site facts",
      "The session cookie's signing is the framework's; verify is the user's function.")
def c67(ctx):
    p = ctx.proj
    q = cls_of(ctx, "SimpleUsernamePasswordBackend")
    ctx.rule("login", "the session is written only after verify accepted the submitted credentials")
    ctx.rule("refused", "a refused login stores nothing and does not redirect")
    ctx.rule("authenticate", "a user is reported only from a session entry")
    ctx.rule("logout", "logout removes the entry on every path")
    ctx.rule("same-key", "all three use the same session key")
    ctx.rule("same-site", "the redirect after a login stays on the site")
    key = T("attr", T("self", q), "session_key")
    keyed = lambda t: t is not None and t.k == "attr" and t.a[0].k == "self" and t.a[1] == "session_key"
    f = p.method(q, "login")
    cl = Session(p)
    res, it = run(p, cl, f, self_cls=q, max_states=6000)
    ctx.absorb(it)
    accepted = lambda st: next((ts[0] for k, ts, v in st.facts if (k == "truth" and v and is_verify(ts[0])) or (k == "is" and not v and is_verify(ts[0]) and NONE in ts)), None)
    for i in cl.insts:
        if i.label.startswith("session:") and i.op not in ("pop", "clear", "get", "del"):
            u = accepted(i.st)
            ctx.ob("login", u is not None, "session", i.where, "the session is written although verify is not known to have accepted the credentials", [f"{k} {' ; '.join(show(x) for x in ts)} {v}" for k, ts, v in i.st.facts])
            ctx.ob("same-key", keyed(i.key) or any(keyed(x) for x in subterms(i.key or NONE)), "login", i.where, f"the entry is stored under {show(i.key) if i.key is not None else None}")
            if u is not None:
                v = i.value
                ok = v is not None and any(x is u for x in subterms(v))
                ctx.ob("login", ok, "user", i.where, f"what is stored is not the verified user: {show(v) if v is not None else None}")
                names = {k.a[0] for x in subterms(v) if x.k == "dict" for k, _ in x.a[0] if k.k == "const"} if v is not None else set()
                ctx.ob("login", {"id", "name"} <= names or not names, "fields", i.where, f"the entry lacks the fields a user is rebuilt from: {sorted(map(str, names))}")
        if i.label == "verify":
            a = i.call.args
            fits = lambda t, n, o: form_field(t, n) and not form_field(t, o) or t is const("")
            ctx.ob("login", len(a) == 2 and fits(a[0], "username", "password") and fits(a[1], "password", "username"), "credentials", i.where, f"verify is asked about {[show(x) for x in a]}")
        if i.label == "redirect":
            t = i.call.arg(0, "url")
            ctx.ob("same-site", t is not None and on_site(t, i.st), "next", i.where, f"the browser is sent wherever the client says: {show(t) if t is not None else None}")
            ctx.ob("refused", accepted(i.st) is not None, "redirect", i.where, "a login that was not accepted is redirected like one that was")
    ctx.ob("login", any(i.label == "verify" and len(i.call.args) == 2 and form_field(i.call.args[0], "username") and form_field(i.call.args[1], "password") for i in cl.insts), "asked", f.where, "verify is never asked about the submitted credentials")
    for kind, pl, st in res:
        s = st.ts[1]
        if kind == "raise":
            continue
        if "verify" in s and accepted(st) is None:
            ctx.ob("refused", not any(x.startswith("session:") for x in s) and "page" in s, "form", f.where, "a refused login changes the session or shows no form", list(s))
        elif "verify" in s:
            ctx.ob("login", any(x.startswith("session:") for x in s) and "redirect" in s, "accepted", f.where, "an accepted login leaves no session entry", list(s))
        else:
            ctx.ob("login", not any(x.startswith("session:") for x in s), "form only", f.where, "showing the form changes the session", list(s))
    ctx.floor("login", 4)
    f = p.method(q, "authenticate")
    cl = Session(p)
    res, it = run(p, cl, f, self_cls=q)
    ctx.absorb(it)
    entry = lambda t: any(x.k == "attr" and x.a[1] == "session" for x in subterms(t)) and any(keyed(x) for x in subterms(t))
    users = 0
    for kind, pl, st in res:
        if kind != "return" or pl is NONE:
            continue
        users += 1
        facts = any(k == "truth" and v and entry(ts[0]) or k == "is" and not v and entry(ts[0]) and NONE in ts or k == "in" and v and keyed(ts[0]) for k, ts, v in st.facts)
        ctx.ob("authenticate", facts and entry(pl), "user", f.where, f"a user is reported without a session entry: {show(pl)}")
    ctx.ob("authenticate", users > 0, "reported", f.where, "no user is ever reported")
    f = p.method(q, "logout")
    cl = Session(p)
    res, it = run(p, cl, f, self_cls=q)
    ctx.absorb(it)
    for kind, pl, st in res:
        ctx.ob("logout", any(x in ("session:pop", "session:del", "session:clear") for x in st.ts[1]) or any(k == "in" and not v and keyed(ts[0]) for k, ts, v in st.facts), "removed", f.where, "logout leaves the entry", list(st.ts[1]))
    for i in cl.insts:
        if i.label in ("session:pop", "session:del"):
            ctx.ob("same-key", keyed(i.key), "logout", i.where, f"the entry removed is {show(i.key) if i.key is not None else None}")
            ctx.ob("logout", i.op == "del" or i.call is None or len(i.call.args) > 1 or any(k == "in" and v and keyed(ts[0]) for k, ts, v in i.st.facts), "absent", i.where, "logging out twice fails")
    ctx.floor("logout", 2)


def layer(t):
    """which middleware a stack entry is"""
    t2 = t
    for x in subterms(t):
        if x.k == "ref" and short(x.a[0]).endswith("Middleware") and short(x.a[0]) != "DefineMiddleware":
            return {"ForwardedPrefixMiddleware": "forward", "CORSMiddleware": "cors", "SecurityHeadersMiddleware": "headers", "AuthGateMiddleware": "gate", "SessionMiddleware": "session"}.get(short(x.a[0]), short(x.a[0]))
    if t2.k == "attr":
        return {"session_middleware": "session", "cors_middleware": "cors", "auth_gate_middleware": "gate"}.get(t2.a[1], t2.a[1])
    return show(t2, 3)


class Stack(Rec):
    """middleware stack of the composed application: what is put in front of what, per configuration"""
    def __init__(self, p, listed):
        self.listed = listed
        evs = [E(self.put, ["append", "insert", "extend"], when=lambda c: c.fn.k == "attr" and bool(c.args)), E("app", ["Lilya", "ChildLilya"], when=lambda c: any(k == "middleware" for k, _ in c.kw)),
               E(self.page, ["Path", "RoutePath"], when=lambda c: flat(c.arg(0, "path")) is not None)]
        super().__init__(p, evs, cap=3, inline_all=True, noinline_pred=lambda f: f.name in ("create_dashboard_app",))
        self.merge_by_ts = False

    def page(self, c):
        return "page:" + flat(c.arg(0, "path"))

    def put(self, c):
        t = c.args[-1]
        if c.name == "insert":
            return "put0:" + layer(t) if c.args[0] is const(0) else "put?:" + layer(t)
        if c.name == "extend":
            return "put*:" + ",".join(layer(x) for x in t.a[0]) if t.k in ("list", "tuple") and any(is_layer(x) for x in t.a[0]) else ""
        return "put:" + layer(t) if is_layer(t) else ""


def is_layer(t):
    return t.k == "new" and short(t.a[0]) == "DefineMiddleware" or t.k == "attr" and t.a[1].endswith("middleware") or t.k == "call" and t.a[0].k in ("func", "attr") and show(t.a[0]).endswith("middleware")


def stack_of(i):
    """entries of the middleware argument, outermost first, or None when unknown"""
    t = next(v for k, v in i.call.kw if k == "middleware")
    if t.k in ("list", "tuple"):
        out = []
        for x in t.a[0]:
            if x.k in ("rest", "star"):
                return None
            out.append(layer(x))
        base = out
    elif t.k in ("newlist", "call", "copyof"):
        base = []
    else:
        return None
    for s in i.seq:
        kind, _, nm = s.partition(":")
        if kind == "put":
            base.append(nm)
        elif kind == "put0":
            base.insert(0, nm)
        elif kind == "put*":
            base += nm.split(",")
        elif kind == "put?":
            return None
    return base


def flag(st, name):
    return next((v for k, ts, v in st.facts if k == "truth" and ts[0].k == "attr" and ts[0].a[0].k == "self" and ts[0].a[1] == name), None)


@prop("C56", "AsynczAdmin composes the dashboard so that its protections apply to all of it",
      """For every configuration the composed application has the security headers and, with enable_login, the login gate of the configured backend in
      front of every dashboard route, the session outside the gate and the headers outside both. The gate's allowlist is the configured one plus the
      static files below the prefix, and no entry of it admits everything; sign-in pages exist exactly with enable_login, which requires a backend.""",
      ["configurations"],
      "every combination of the constructor's switches, with and without prefix",
      "the order of five optional layers has dozens of combinations; a gate placed before the session, or an empty allowlist entry, opens or locks the dashboard only in some",
      [AP + "core.py"],
      [("AsynczAdmin.get_asgi_app", AP + "core.py"), ("AsynczAdmin.auth_gate_middleware", AP + "core.py"), ("AsynczAdmin.__init__", AP + "core.py")],
      "path enumeration over the configuration switches; the stack is the ordered list of additions that reaches the application's middleware argument",
      "That the first entry is the outermost layer is the framework's rule. include_session=False with a session backend is the user's choice.")
def c56(ctx):
    p = ctx.proj
    q = cls_of(ctx, "AsynczAdmin")
    ctx.rule("layers", "each layer is present exactly when its switch is on")
    ctx.rule("order", "forwarded prefix, then headers and session, then the gate, then the dashboard")
    ctx.rule("gate", "the gate asks the configured backend and uses the configured login path")
    ctx.rule("allowlist", "no allowlist entry admits everything; additions are static files below the prefix")
    ctx.rule("pages", "sign-in pages exist exactly with the gate and call the backend's login and logout")
    ctx.rule("backend", "the gate cannot be enabled without a backend")
    f = p.method(q, "get_asgi_app")
    cl = Stack(p, [])
    res, it = run(p, cl, f, self_cls=q, max_states=6000)
    ctx.absorb(it)
    n = 0
    for i in cl.insts:
        if i.label != "app":
            continue
        n += 1
        st = stack_of(i)
        if st is None:
            ctx.ob("layers", False, "stack", i.where, f"the order of the layers cannot be determined: {list(i.seq)}")
            continue
        on = {k: flag(i.st, s) for k, s in (("forward", "enable_forward_middleware"), ("cors", "include_cors"), ("session", "include_session"), ("gate", "enable_login"))}
        ctx.ob("layers", st.count("headers") == 1, "headers", i.where, f"the security headers are missing from {st}", [f"{k}={v}" for k, v in on.items()])
        for k, v in on.items():
            if v is None:
                ctx.ob("layers", False, k, i.where, f"the {k} layer does not depend on its switch: {st}")
            else:
                ctx.ob("layers", st.count(k) == int(v), k, i.where, f"{k} {'missing' if v else 'present although switched off'}: {st}", [f"{a}={b}" for a, b in on.items()])
        at = {x: st.index(x) for x in st}
        for a, b in (("session", "gate"), ("headers", "gate"), ("forward", "gate"), ("cors", "gate"), ("forward", "session")):
            if a in at and b in at:
                ctx.ob("order", at[a] < at[b], f"{a}<{b}", i.where, f"{b} is in front of {a}: {st}")
        if "gate" in at:
            ctx.ob("order", at["gate"] == len(st) - 1 or all(x in ("forward", "cors", "headers", "session", "gate") for x in st), "last", i.where, f"unknown layers: {st}")
        pages = {s[5:] for s in i.seq if s.startswith("page:")}
        if on["gate"] is not None:
            ctx.ob("pages", bool(pages) == on["gate"], "sign-in", i.where, f"sign-in pages {sorted(pages) or 'missing'} with enable_login={on['gate']}")
            ctx.ob("pages", not on["gate"] or {"/login", "/logout"} <= pages, "both", i.where, f"sign-in pages are {sorted(pages)}")
        routes = next((v for k, v in i.call.kw if k == "routes"), None)
        ctx.ob("layers", routes is not None and (contains_attr(routes, "child_app") or routes.k == "newlist"), "dashboard", i.where, "the dashboard is not part of the composed application")
    ctx.ob("layers", n > 0, "composed", f.where, "no composed application found")
    # how the gate is built
    gates, pages = [], []
    for m in p.classes[q].methods.values():
        if m.name == "__init__":
            continue
        c2 = Pages(p)
        r2, it2 = run(p, c2, m, self_cls=q, max_states=3000)
        ctx.absorb(it2)
        gates += [i for i in c2.insts if i.label == "def" and i.call.args and layer(i.call.args[0]) in ("gate", "forward")]
        pages += list(c2.asks.items())
    for i in gates:
        kw = dict(i.call.kw)
        if layer(i.call.args[0]) == "forward":
            t = kw.get("trusted_hosts")
            ctx.ob("gate", t is not None and from_attr(t, "trusted_forwarded_hosts"), "trusted hosts", i.where, f"the trusted hosts are {show(t) if t is not None else 'the default'}, not the configured ones")
            continue
        a = kw.get("authenticate")
        ctx.ob("gate", a is not None and show(a).endswith("authenticate") and from_attr(a, "backend"), "authenticate", i.where, f"the gate asks {show(a) if a is not None else None}")
        lp = kw.get("login_path")
        ctx.ob("gate", lp is not None and from_attr(lp, "login_path"), "login_path", i.where, f"the gate's login path is {show(lp) if lp is not None else 'the default'}")
        al = kw.get("allowlist")
        ctx.ob("allowlist", al is not None and contains_attr(al, "allowlist"), "configured", i.where, f"the gate's allowlist is {show(al) if al is not None else 'the default'}")
        for x in entries_of(al):
            last = parts(x)[-1] if parts(x) else x
            tail = last.a[0] if last.k == "const" and isinstance(last.a[0], str) else ""
            ctx.ob("allowlist", tail.rstrip("/").rsplit("/", 1)[-1] in ("static", "assets"), "added", i.where, f"{show(x)} is admitted without a user")
    ctx.ob("gate", any(layer(i.call.args[0]) == "gate" for i in gates), "built", f.where, "the gate is never built")
    for (path, w), got in pages:
        if path in ("/login", "/logout"):
            ctx.ob("pages", got == {(path[1:],)}, path, w, f"{path} is answered by the backend's {sorted(got)}")
    # defaults
    init = p.method(q, "__init__")
    for holder in (init, p.method(cls_of(ctx, "AuthGateMiddleware"), "__init__")):
        args = holder.node.args
        pairs = list(zip((args.posonlyargs + args.args)[::-1], args.defaults[::-1])) + [(a, d) for a, d in zip(args.kwonlyargs, args.kw_defaults) if d is not None]
        for a, d in pairs:
            if a.arg == "allowlist" and isinstance(d, (ast.Tuple, ast.List)):
                for e in d.elts:
                    v = e.value if isinstance(e, ast.Constant) else None
                    ctx.ob("allowlist", isinstance(v, str) and v.strip("/") in ("login", "logout", "static", "assets"), f"default:{v}", holder.where, f"{v!r} is admitted without a user by default")
    c3 = Rec(p, [E("compose", ["assemble_dashboard_router", "create_dashboard_app"])], cap=1, inline_all=True, noinline_pred=lambda g: g.name in ("create_dashboard_app",))
    r3, it3 = run(p, c3, init, self_cls=q, max_states=3000)
    ctx.absorb(it3)
    refused = 0
    for kind, pl, st in r3:
        tr = {ts[0].a[0]: v for k, ts, v in st.facts if k == "truth" and ts[0].k == "p"}
        no_b = tr.get("backend") is False or any(k == "is" and v and ts[0] is T("p", "backend") and NONE in ts for k, ts, v in st.facts)
        if tr.get("enable_login") and no_b:
            refused += 1
            ctx.ob("backend", kind == "raise", "required", init.where, "login can be enabled without a backend")
        elif kind == "return":
            ctx.ob("backend", tr.get("enable_login") is False or tr.get("backend") is True or any(k == "is" and not v and ts[0] is T("p", "backend") for k, ts, v in st.facts), "known", init.where, "an instance is built without asking for the backend")
    ctx.ob("backend", refused > 0, "refused", init.where, "a missing backend is never refused")
    ctx.floor("layers", 5)
    ctx.floor("order", 3)


def contains_attr(t, name):
    return any(x.k == "attr" and x.a[1] == name for x in subterms(t))


def entries_of(t):
    """literal entries of a (partly spread) tuple"""
    if t is None:
        return []
    if t.k == "phi":
        return [y for x in t.a[0] for y in entries_of(x)]
    if t.k in ("tuple", "list", "set"):
        return [y for x in t.a[0] for y in (entries_of(x.a[0]) if x.k in ("rest", "star") else [x])]
    if t.k == "op" and t.a[0] == "Add":
        return entries_of(t.a[1]) + entries_of(t.a[2])
    return []


class Pages(Rec):
    """what the handler of each sign-in page asks of the backend"""
    def __init__(self, p):
        super().__init__(p, [E("def", ["DefineMiddleware"]), E("page", ["Path", "RoutePath"], ret=self.serve), E("ask:login", ["login"], when=backend_call), E("ask:logout", ["logout"], when=backend_call)],
                         cap=1, inline_all=True, noinline_pred=lambda g: g.name in ("create_dashboard_app",))
        self.asks = {}

    def serve(self, c, st):
        path, h = flat(c.arg(0, "path")), c.arg(1, "handler")
        if path is not None and h is not None:
            got = set()
            if h.k == "closure":
                for kind, v, x in self.invoke(c, h, [T("p", "request")], st.w(ts=((), ()))):
                    got.add(tuple(y[4:] for y in x.ts[1] if y.startswith("ask:")))
            elif h.k == "attr" and from_attr(h, "backend"):
                got.add((h.a[1],))
            elif h.k == "func":
                got.add((h.a[0].split(".")[-1],))
            self.asks.setdefault((path, f"{c.module.rel}:{c.node.lineno}"), set()).update(got)
        return None


def backend_call(c):
    return c.recv is not None and from_attr(c.recv, "backend")
