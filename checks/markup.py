"""Dashboard output: nothing a task, a log line or a request says becomes markup."""
import ast
import os
import re

from checks._common import *  # noqa: F401,F403
from checks.controllers import flat, short
from sa.report import prop

D = "asyncz.contrib.dashboard."
DP = D.replace(".", "/")
HTML = re.compile(r"<\s*/?[a-zA-Z!]")
SAFE_CALLS = ("escape", "html.escape", "markupsafe.escape", "urlencode", "quote", "quote_plus", "len", "int", "round", "sum", "float")
TOKEN = re.compile(r"{#.*?#}|{%-?(.*?)-?%}|{{-?(.*?)-?}}", re.S)
URLISH = re.compile(r"(?:^|\.)(?:\w*_url|\w*_suffix|\w*_prefix|href|favicon|url|src|next)$")
URL_ATTR = {"href", "src", "action", "formaction", "hx-get", "hx-post", "hx-put", "hx-patch", "hx-delete", "poster", "data-url"}


def templates(root):
    out = []
    for d, _, fs in os.walk(os.path.join(root, DP + "templates")):
        out += [os.path.join(d, f) for f in sorted(fs) if f.endswith((".html", ".htm", ".xml", ".jinja", ".j2"))]
    return sorted(out)


class Lexed:
    """expressions of a template with the HTML context each one is printed in"""
    def __init__(self, text):
        self.exprs, self.blocks = [], []        # (expr, line, context, attribute, literal text of the attribute before it)
        pos, html = 0, Html()
        for m in TOKEN.finditer(text):
            html.feed(text[pos:m.start()])
            pos = m.end()
            line = text.count("\n", 0, m.start()) + 1
            if m.group(2) is not None:
                self.exprs.append((m.group(2).strip(), line, html.state, html.attr, html.value))
                html.hole()
            elif m.group(1) is not None:
                self.blocks.append((m.group(1).strip(), line))
        html.feed(text[pos:])


class Html:
    """just enough of the HTML tokenizer: text, tag, quoted / unquoted attribute value, script, comment"""
    def __init__(self):
        self.state, self.attr, self.value, self.quote, self.name, self.tag, self.buf = "text", "", "", "", "", "", ""

    def hole(self):
        if self.state in ("value", "unquoted"):
            self.value += "\0"
        elif self.state == "before-value":
            self.state, self.value = "unquoted", "\0"

    def feed(self, s):
        i, n = 0, len(s)
        while i < n:
            c = s[i]
            if self.state == "text":
                if s.startswith("<!--", i):
                    j = s.find("-->", i)
                    i = n if j < 0 else j + 3
                    continue
                m = re.match(r"<(/?)([a-zA-Z][\w:-]*)", s[i:])
                if m:
                    self.state, self.tag, self.name = "tag", (m.group(1) + m.group(2)).lower(), ""
                    i += m.end()
                    continue
            elif self.state == "tag":
                if c == ">":
                    self.state = self.tag if self.tag in ("script", "style") else "text"
                elif c == "=":
                    self.state, self.attr = "before-value", self.name.lower()
                    self.value = ""
                elif c.isspace() or c == "/":
                    if not re.match(r"\s*=", s[i:]):
                        self.name = ""
                else:
                    self.name += c
            elif self.state == "before-value":
                if c in "\"'":
                    self.state, self.quote, self.value = "value", c, ""
                elif not c.isspace():
                    self.state, self.value = "unquoted", c
            elif self.state == "value":
                if c == self.quote:
                    self.state, self.name, self.attr = "tag", "", ""
                else:
                    self.value += c
            elif self.state == "unquoted":
                if c.isspace() or c == ">":
                    self.state, self.name, self.attr = "tag", "", ""
                    continue
                self.value += c
            elif self.state in ("script", "style"):
                m = re.match(r"</" + self.state, s[i:], re.I)
                if m:
                    self.tag, self.state = "/" + self.state, "tag"
                    i += m.end()
                    continue
            i += 1


def filters(e):
    """filter names applied to an expression (the last ones, outside of strings)"""
    e = re.sub(r"'[^']*'|\"[^\"]*\"", "''", e)
    return [x.strip().split("(")[0].strip() for x in re.split(r"(?<!\|)\|(?!\|)", e)[1:]]


def encoded(e, lx, depth=0):
    """percent-encoded, a URL, or a template variable that only ever holds one"""
    if "urlencode" in filters(e) or is_url(e):
        return True
    ways = [b.partition("=")[2].strip() for b, _ in lx.blocks if re.match(r"set\s+" + re.escape(e.strip()) + r"\s*=", b)]
    return depth < 4 and bool(ways) and all(encoded(w, lx, depth + 1) for w in ways)


def macro_args(lx):
    return {a.split("=")[0].strip() for b, _ in lx.blocks if b.startswith("macro") for a in b.partition("(")[2].rpartition(")")[0].split(",")}


def is_url(e):
    """an expression that is a URL or a ready piece of one, not a value put into one"""
    e = e.strip()
    if "~" in e and not re.search(r"['\"]\s*\|", e):
        return all(is_url(x) for x in e.split("~"))
    if " if " in e or " or " in e:
        return all(is_url(x) for x in re.split(r" if .*? else | or ", e))
    if re.match(r"(safe_)?url_for\(", e) or re.match(r"^['\"][^'\"]*['\"]$", e):
        return True
    return bool(URLISH.search(re.split(r"\|", e)[0].strip()))


@prop("C65", "Nothing a task, a log line or a request says becomes markup in the dashboard",
      """Every value the dashboard prints into a page is HTML-escaped: templates render with autoescaping that no template switches off or bypasses, no
      value is printed into script code or an unquoted attribute, and markup assembled in Python contains only constants, escaped values and rendered
      templates. A value put into the address of a link is percent-encoded, so that the link names that task or run.""",
      ["inputs"],
      "every template expression, every string of markup built in Python, every task name, id, message, header and form value",
      "stored script in a task name or an exception text runs in an operator's browser; tests render friendly names",
      [DP + "templates", DP + "engine.py", DP + "controllers/_helpers.py"],
      [("templates", DP + "templates"), ("templates (Jinja2Template)", DP + "engine.py"), ("_render_messages_oob", DP + "controllers/_helpers.py")],
      "context-aware lexing of every template (HTML state of each expression) and a taint query over the terms of every markup-building function",
      "Autoescaping is the template engine's default and trusted; pieces called *_url, *_prefix or *_suffix are addresses built in Python.")
def c65(ctx):
    p = ctx.proj
    ctx.rule("autoescape", "the template environment escapes, and no template turns that off")
    ctx.rule("unsafe", "no expression is marked safe or unescaped")
    ctx.rule("context", "no value is printed into script or style code, an event handler or an unquoted attribute")
    ctx.rule("link", "a value inside an address is percent-encoded")
    ctx.rule("python", "markup built in Python contains only constants, escaped values and rendered templates")
    root = p.root
    n = 0
    for path in templates(root):
        rel = os.path.relpath(path, root)
        lx = Lexed(open(path, encoding="utf-8").read())
        n += 1
        for b, line in lx.blocks:
            off = re.match(r"autoescape\s+(?!true)", b, re.I) or re.match(r"filter\s+safe", b) or "Markup" in b or (b.startswith("set") and "safe" in filters(b))
            ctx.ob("autoescape", not off, f"{rel}:{b[:40]}", f"{rel}:{line}", "escaping is switched off")
        for e, line, state, attr, before in lx.exprs:
            where, fs = f"{rel}:{line}", filters(e)
            ctx.ob("unsafe", not ({"safe", "forceescape_off"} & set(fs)) and "Markup(" not in e and "|safe" not in e.replace(" ", ""), f"{rel}:{e[:50]}", where, "the value is printed without escaping")
            if e in ("caller()", "super()") or e.startswith(("super(", "caller(")):
                continue
            if state in ("script", "style") or attr.startswith("on") and state in ("value", "unquoted") or attr.startswith(("x-", "@", ":")) and state == "value":
                ctx.ob("context", "tojson" in fs or re.match(r"(safe_)?url_for\(", e) is not None, f"{rel}:{e[:50]}", where, f"a value is printed into {attr or state}")
            elif state in ("unquoted", "before-value", "tag"):
                ctx.ob("context", state == "tag" and is_flag(e), f"{rel}:{e[:50]}", where, "a value is printed into a tag outside of quotes")
            if state == "value" and attr in URL_ATTR:
                ok = encoded(e, lx)
                ctx.ob("link", ok, f"{rel}:{attr}:{e[:50]}", where, f"{e} is put into {attr} without percent-encoding")
                if before == "" and not ok:
                    ctx.ob("link", False, f"{rel}:{attr}:whole:{e[:50]}", where, f"the whole address is the value {e}")
    ctx.need(n >= 10, "templates not found")
    for m in p.modules.values():
        if not m.name.startswith(D.rstrip(".")):
            continue
        for x in ast.walk(m.tree):
            bad = None
            if isinstance(x, ast.Call):
                nm = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else ""
                for k in x.keywords:
                    if k.arg == "autoescape":
                        bad = not (isinstance(k.value, ast.Constant) and k.value.value is True or isinstance(k.value, ast.Call) and "select_autoescape" in ast.dump(k.value))
                        ctx.ob("autoescape", not bad, f"{m.rel}:{nm}", f"{m.rel}:{x.lineno}", "the environment is built without escaping")
                if nm in ("Jinja2Template", "Environment", "Jinja2Templates"):
                    ctx.ob("autoescape", not (nm == "Environment" and not any(k.arg == "autoescape" for k in x.keywords)), f"{m.rel}:{nm}:env", f"{m.rel}:{x.lineno}", "the environment does not escape by default")
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Attribute) and t.attr == "autoescape":
                        ctx.ob("autoescape", isinstance(x.value, ast.Constant) and x.value.value is True, f"{m.rel}:assign", f"{m.rel}:{x.lineno}", "escaping is switched off")
    ctx.floor("autoescape", 1)
    # markup in Python
    funcs = [f for f in p.functions.values() if f.module.name.startswith(D.rstrip(".")) and f.parent is None and has_markup(f.node)]
    ctx.need(bool(funcs), "no function builds markup") if not ctx.violations else None
    for f in funcs:
        cl = Markup(p, [E("piece", ["append", "extend", "insert", "join"], when=lambda c: True), E("sink", ["HTMLResponse", "Markup", "Response"]), E("", ["get_template", "render"], raises=(EXC,))], cap=1, seq=False, small=60)
        cl.merge_by_ts = True
        cl.max_depth = 40
        cl.rel.names = {"HTMLResponse", "Markup", "append", "extend", "join"}
        res, it = run(p, cl, f, self_cls=f.cls.qual if f.cls is not None else None, max_states=4000)
        ctx.absorb(it)
        sites = (cl.built or []) + [(x, i.where, i.st) for i in cl.insts for x in i.call.args] + [(pl, f.where, st) for kind, pl, st in res if kind == "return" and hasattr(pl, "k")]
        for t, w, st in sites:
            for s in subterms(t):
                if s.k in ("fstr", "op") and any(HTML.search(x.a[0]) for x in pieces(s) if x.k == "const" and isinstance(x.a[0], str)):
                    for x in pieces(s):
                        ctx.ob("python", safe(p, x, st), f"{short(f.qual)}:{show(x, 4)[:60]}", w, f"{show(x, 6)} becomes part of markup unescaped")
        for i in cl.insts:
            if i.label == "sink" and i.call.args:
                for x in pieces(i.call.args[0]):
                    ctx.ob("python", safe(p, x, i.st), f"{short(f.qual)}:response:{show(x, 4)[:60]}", i.where, f"{show(x, 6)} is sent as HTML unescaped")
    for f in p.functions.values():
        if f.module.name.startswith(D.rstrip(".")) and f not in funcs and f.parent is None and calls(f.node, ("HTMLResponse", "Markup")):
            cl = Rec(p, [E("sink", ["HTMLResponse", "Markup"])], cap=1, seq=False, small=60)
            cl.merge_by_ts = True
            cl.max_depth = 40
            res, it = run(p, cl, f, self_cls=f.cls.qual if f.cls is not None else None, max_states=4000)
            ctx.absorb(it)
            for i in cl.insts:
                for x in pieces(i.call.args[0]) if i.call.args else []:
                    ctx.ob("python", safe(p, x, i.st), f"{short(f.qual)}:response:{show(x, 4)[:60]}", i.where, f"{show(x, 6)} is sent as HTML unescaped")
    ctx.floor("python", 4)
    ctx.floor("link", 20)
    ctx.floor("unsafe", 150)


class Markup(Rec):
    """every formatted string, with the state it was built in"""
    built = None

    def on_fstr(self, term, st, node, fr):
        if self.built is None:
            self.built = []
        self.built.append((term, f"{fr.func.module.rel}:{node.lineno}", st))
        return st


def is_flag(e):
    """a conditional constant such as {{ 'selected' if x else '' }}"""
    return bool(re.match(r"^['\"][\w\s=\"-]*['\"]\s+if\s", e))


def calls(node, names):
    return any(isinstance(n, ast.Call) and (n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else "") in names for n in ast.walk(node))


def has_markup(node):
    doc = {id(n.body[0].value) for n in ast.walk(node) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr)}
    return any(isinstance(n, ast.Constant) and isinstance(n.value, str) and id(n) not in doc and re.search(r"</?[a-z]+[\s>/]", n.value) for n in ast.walk(node))


def pieces(t):
    if t.k == "op" and t.a[0] == "Add":
        return pieces(t.a[1]) + pieces(t.a[2])
    if t.k == "fstr":
        return [y for x in t.a[0] for y in pieces(x)]
    return [t]


def safe(p, t, st, depth=0):
    if depth > 8:
        return False
    if t.k in ("const", "count", "cmp", "not"):
        return True
    if t.k == "phi":
        return all(safe(p, x, st, depth + 1) for x in t.a[0])
    if t.k in ("fstr",) or t.k == "op" and t.a[0] == "Add":
        return all(safe(p, x, st, depth + 1) for x in pieces(t))
    if t.k == "op" and t.a[0] in ("Sub", "Mult", "FloorDiv"):
        return True
    if t.k == "idx" and t.a[0].k in ("dict",):
        return all(safe(p, v, st, depth + 1) for _, v in t.a[0].a[0])
    if t.k in ("call", "coro", "new"):
        fn = t.a[0] if t.k == "call" else None
        nm = t.a[0].split(".")[-1] if t.k != "call" else fn.a[0].split(".")[-1] if fn.k in ("ref", "func") else fn.a[1] if fn.k == "attr" else ""
        if nm in SAFE_CALLS or nm in ("render", "render_template", "render_async", "get_template_response"):
            return True
        if nm in ("get", "dict_lookup") and t.k == "call" and fn.k == "attr" and fn.a[0].k == "dict":
            return all(safe(p, v, st, depth + 1) for _, v in fn.a[0].a[0]) and all(safe(p, x, st, depth + 1) for x in t.a[1][1:])
        if nm == "join" and t.k == "call" and fn.k == "attr":
            a = t.a[1][0]
            return safe(p, fn.a[0], st, depth + 1) and (a.k in ("newlist", "comp") and (a.k == "newlist" or all(safe(p, e, st, depth + 1) for es in a.a[1] for e in ((es,) if isinstance(es, T) else es))) or a.k in ("list", "tuple") and all(safe(p, x, st, depth + 1) for x in a.a[0]))
        if nm in ("strip", "lower", "upper", "rstrip", "lstrip", "replace") and t.k == "call" and fn.k == "attr":
            return safe(p, fn.a[0], st, depth + 1)
        q = t.a[0] if t.k == "coro" else fn.a[0] if fn is not None and fn.k in ("ref", "func") else None
        f = p.functions.get(q) if isinstance(q, str) else None
        if f is not None and (has_markup(f.node) or calls(f.node, ("render",))):      # judged on its own
            return True
        if f is not None:
            rets = [n.value for n in ast.walk(f.node) if isinstance(n, ast.Return) and n.value is not None]
            return bool(rets) and all(isinstance(r, ast.Constant) for r in rets)
    return False
