"""One form for what can be written in several: a container filled by a loop that does nothing else is read as a comprehension."""
import ast
import string

FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef)


def empty(e):
    """kind of container an expression creates empty, or None"""
    if isinstance(e, ast.List) and not e.elts:
        return "list"
    if isinstance(e, ast.Dict) and not e.keys:
        return "dict"
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("list", "set", "dict") and not e.args and not e.keywords:
        return e.func.id
    return None


def names(*nodes):
    return {n.id for x in nodes for n in ast.walk(x) if isinstance(n, ast.Name)}


def negated(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        other = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}.get(type(t.ops[0]))
        if other:
            return ast.copy_location(ast.Compare(t.left, [other()], t.comparators), t)
    return ast.copy_location(ast.UnaryOp(ast.Not(), t), t)


def filling(body, x, kind):
    """(tests, inner loops, expression(s)) of a loop body that only puts one thing into x, or None"""
    tests = []
    while True:
        if len(body) == 2 and isinstance(body[0], ast.If) and not body[0].orelse and len(body[0].body) == 1 and isinstance(body[0].body[0], ast.Continue):
            tests.append(negated(body[0].test))
            body = body[1:]
        elif len(body) == 1 and isinstance(body[0], ast.If) and not body[0].orelse:
            tests.append(body[0].test)
            body = body[0].body
        else:
            break
    if len(body) != 1:
        return None
    s = body[0]
    if kind == "dict":
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Subscript) and isinstance(s.targets[0].value, ast.Name) and s.targets[0].value.id == x and not isinstance(s.targets[0].slice, ast.Slice):
            return tests, [s.targets[0].slice, s.value]
        return None
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == x:
        c = s.value
        if c.func.attr == ("append" if kind == "list" else "add") and len(c.args) == 1 and not c.keywords and not isinstance(c.args[0], ast.Starred):
            return tests, [c.args[0]]
    return None


def outside_ok(fn, loop, targets):
    """is every use of the loop's names outside the loop one that another loop or comprehension binds"""
    inside = {id(n) for n in ast.walk(loop)}

    def walk(n, bound):
        if id(n) == id(loop):
            return True
        if isinstance(n, ast.Name) and n.id in targets and id(n) not in inside and n.id not in bound:
            return False
        if isinstance(n, (ast.For, ast.AsyncFor)):
            b = bound | names(n.target)
            return walk(n.iter, bound) and walk(n.target, b) and all(walk(s, b) for s in n.body) and all(walk(s, bound) for s in n.orelse)
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            bound = bound | names(*[g.target for g in n.generators])
        if isinstance(n, ast.Lambda) or isinstance(n, FUNCS) and n is not fn:
            bound = bound | {a.arg for a in ast.walk(n.args) if isinstance(a, ast.arg)}
        return all(walk(c, bound) for c in ast.iter_child_nodes(n))
    return walk(fn, frozenset())


def gathers(fn):
    changed = False

    def block(stmts):
        nonlocal changed
        i = 0
        while i + 1 < len(stmts):
            a, l = stmts[i], stmts[i + 1]
            tgt = a.targets[0] if isinstance(a, ast.Assign) and len(a.targets) == 1 else a.target if isinstance(a, ast.AnnAssign) else None
            if isinstance(tgt, ast.Name) and a.value is not None and isinstance(l, ast.For) and not l.orelse:
                kind = empty(a.value)
                got = filling(l.body, tgt.id, kind) if kind else None
                if got is not None:
                    tests, out = got
                    bound = names(l.target)
                    parts = [l.iter, l.target, *tests, *out]
                    if tgt.id not in names(*parts) and not any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.Await)) for x in parts for n in ast.walk(x)) \
                            and all(isinstance(n, (ast.Name, ast.Tuple, ast.List, ast.Starred, ast.expr_context)) for n in ast.walk(l.target)) and outside_ok(fn, l, bound):
                        gen = [ast.comprehension(l.target, l.iter, tests, 0)]
                        new = ast.ListComp(out[0], gen) if kind == "list" else ast.SetComp(out[0], gen) if kind == "set" else ast.DictComp(out[0], out[1], gen)
                        ast.copy_location(new, l)
                        a.value = new
                        del stmts[i + 1]
                        changed = True
                        continue
            i += 1
        for s in stmts:
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(s, fld, None)
                if isinstance(b, list) and not isinstance(s, (*FUNCS, ast.ClassDef)):
                    block(b)
            for h in getattr(s, "handlers", []) or []:
                block(h.body)
    block(fn.body)
    return changed


def unalias(fn):
    """`me = self` with neither rebound: the alias is read as self"""
    args = fn.args.posonlyargs + fn.args.args
    if not args or args[0].arg not in ("self", "cls"):
        return
    me = args[0].arg
    stores: dict = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            stores[n.id] = stores.get(n.id, 0) + 1
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            return
        elif isinstance(n, ast.arg):
            stores[n.arg] = stores.get(n.arg, 0) + 1
    for i, s in enumerate(fn.body):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Name) and s.value.id == me:
            x = s.targets[0].id
            if stores.get(x) == 1 and stores.get(me) == 1:
                for r in fn.body[i + 1:]:
                    for n in ast.walk(r):
                        if isinstance(n, ast.Name) and n.id == x:
                            n.id = me
                if len(fn.body) > 1:
                    del fn.body[i]
                return


def unindexed(fn):
    """a loop over enumerate(xs) whose index is not used is a loop over xs"""
    loads: dict = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            loads[n.id] = loads.get(n.id, 0) + 1
    for n in ast.walk(fn):
        if isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "enumerate" and len(n.iter.args) == 1 and not n.iter.keywords \
                and not isinstance(n.iter.args[0], ast.Starred) and isinstance(n.target, ast.Tuple) and len(n.target.elts) == 2 and isinstance(n.target.elts[0], ast.Name) and not loads.get(n.target.elts[0].id):
            n.iter, n.target = n.iter.args[0], n.target.elts[1]


class Formats(ast.NodeTransformer):
    """'{} of {}'.format(a, b) is read as f'{a} of {b}'"""

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if not (isinstance(f, ast.Attribute) and f.attr == "format" and isinstance(f.value, ast.Constant) and isinstance(f.value.value, str)):
            return n
        if n.keywords and any(k.arg is None for k in n.keywords) or any(isinstance(a, ast.Starred) for a in n.args):
            return n
        named = {k.arg: k.value for k in n.keywords}
        parts, auto, used = [], 0, []
        try:
            fields = list(string.Formatter().parse(f.value.value))
        except ValueError:
            return n
        for text, field, spec, conv in fields:
            if text:
                parts.append(ast.copy_location(ast.Constant(text), f.value))
            if field is None:
                continue
            if spec or conv:
                return n
            if field == "":
                field, auto = str(auto), auto + 1
            v = n.args[int(field)] if field.isdigit() and int(field) < len(n.args) else named.get(field)
            if v is None or any(v is u for u in used):
                return n
            used.append(v)
            parts.append(ast.copy_location(ast.FormattedValue(v, -1, None), n))
        if len(used) != len(n.args) + len(named):
            return n
        return ast.copy_location(ast.JoinedStr(parts), n)


def truthful(t):
    return isinstance(t, ast.Compare) or isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) or isinstance(t, ast.BoolOp) and all(truthful(v) for v in t.values)


def blocks(fn):
    """statement lists of a function, nested functions and classes left out"""
    todo = [fn.body]
    while todo:
        b = todo.pop()
        yield b
        for s in b:
            if isinstance(s, (*FUNCS, ast.ClassDef)):
                continue
            for fld in ("body", "orelse", "finalbody"):
                x = getattr(s, fld, None)
                if isinstance(x, list) and x:
                    todo.append(x)
            todo += [h.body for h in getattr(s, "handlers", []) or []]


def returned_bool(r):
    return r.value.value if isinstance(r, ast.Return) and isinstance(r.value, ast.Constant) and isinstance(r.value.value, bool) else None


def plain(fn):
    """`if C: return True` / `return False` is `return C`; `t = f()` / `a = t[0]` / `b = t[1]` is `a, b = f()`"""
    uses: dict = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name):
            uses[n.id] = uses.get(n.id, 0) + 1
    for b in blocks(fn):
        i = 0
        while i < len(b):
            s = b[i]
            nxt = b[i + 1] if i + 1 < len(b) else None
            if isinstance(s, ast.If) and len(s.body) == 1 and truthful(s.test):
                y = returned_bool(s.body[0])
                other = s.orelse[0] if len(s.orelse) == 1 else nxt if not s.orelse else None
                n = returned_bool(other) if other is not None else None
                if y is not None and n is not None and y != n:
                    b[i] = ast.copy_location(ast.Return(s.test if y else negated(s.test)), s)
                    if not s.orelse:
                        del b[i + 1]
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                t, got = s.targets[0].id, []
                for r in b[i + 1:]:
                    if isinstance(r, ast.Assign) and len(r.targets) == 1 and isinstance(r.targets[0], ast.Name) and isinstance(r.value, ast.Subscript) and isinstance(r.value.value, ast.Name) and r.value.value.id == t \
                            and isinstance(r.value.slice, ast.Constant) and r.value.slice.value == len(got) and r.targets[0].id != t:
                        got.append(r.targets[0])
                    else:
                        break
                if len(got) >= 2 and uses.get(t) == len(got) + 1 and len({g.id for g in got}) == len(got):
                    s.targets = [ast.copy_location(ast.Tuple(got, ast.Store()), got[0])]
                    del b[i + 1:i + 1 + len(got)]
            i += 1


def is_call(e, name, n=1):
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == name and len(e.args) == n and not e.keywords


def is_name(e, x):
    return isinstance(e, ast.Name) and e.id == x


def own_continue(stmts):
    """does a continue in these statements belong to the loop around them"""
    for s in stmts:
        if isinstance(s, ast.Continue):
            return True
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While, *FUNCS, ast.ClassDef)):
            if own_continue(getattr(s, "orelse", []) or []):
                return True
            continue
        for fld in ("body", "orelse", "finalbody"):
            x = getattr(s, fld, None)
            if isinstance(x, list) and own_continue(x):
                return True
        if any(own_continue(h.body) for h in getattr(s, "handlers", []) or []):
            return True
    return False


def walked(init, w, uses):
    """the for loop a while loop over an iterator or an index is, or None"""
    if not (isinstance(init, ast.Assign) and len(init.targets) == 1 and isinstance(init.targets[0], ast.Name) and not w.orelse and len(w.body) >= 2):
        return None
    i, first = init.targets[0].id, w.body[0]
    if is_call(init.value, "iter") and isinstance(w.test, ast.Constant) and w.test.value is True and uses.get(i) == 2:
        if isinstance(first, ast.Try) and len(first.body) == 1 and len(first.handlers) == 1 and not first.orelse and not first.finalbody and is_name(first.handlers[0].type, "StopIteration") \
                and len(first.handlers[0].body) == 1 and isinstance(first.handlers[0].body[0], ast.Break):
            g = first.body[0]
            if isinstance(g, ast.Assign) and len(g.targets) == 1 and is_call(g.value, "next") and is_name(g.value.args[0], i):
                return g.targets[0], init.value.args[0], w.body[1:]
    if isinstance(init.value, ast.Constant) and type(init.value.value) is int and init.value.value == 0 and isinstance(w.test, ast.Compare) and len(w.test.ops) == 1 and isinstance(w.test.ops[0], ast.Lt) and is_name(w.test.left, i):
        n, last = w.test.comparators[0], w.body[-1]
        if is_call(n, "len") and isinstance(n.args[0], ast.Name) and isinstance(last, ast.AugAssign) and is_name(last.target, i) and isinstance(last.op, ast.Add) and isinstance(last.value, ast.Constant) and last.value.value == 1 \
                and isinstance(first, ast.Assign) and len(first.targets) == 1 and isinstance(first.value, ast.Subscript) and is_name(first.value.value, n.args[0].id) and is_name(first.value.slice, i) \
                and uses.get(i) == 4 and not own_continue(w.body[1:-1]) and n.args[0].id not in {x.id for s in w.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} and len(w.body) > 2:
            return first.targets[0], n.args[0], w.body[1:-1]
    return None


def whiles(fn):
    uses: dict = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name):
            uses[n.id] = uses.get(n.id, 0) + 1
    for b in blocks(fn):
        k = 0
        while k + 1 < len(b):
            if isinstance(b[k + 1], ast.While):
                got = walked(b[k], b[k + 1], uses)
                if got:
                    b[k:k + 2] = [ast.copy_location(ast.For(got[0], got[1], got[2], []), b[k + 1])]
            k += 1


def canonical(tree):
    Formats().visit(tree)
    for n in list(ast.walk(tree)):
        if isinstance(n, FUNCS):
            unalias(n)
            plain(n)
            whiles(n)
            unindexed(n)
            gathers(n)
    return tree
