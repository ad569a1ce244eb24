"""Tasks: atomic updates, completeness of the persisted state, read-only inspection."""
import ast

from sa.report import prop

from ._common import *

TASK = "asyncz.tasks.base.Task"
FT = ["asyncz/tasks/base.py", "asyncz/tasks/types.py", "asyncz/datastructures.py", "asyncz/state.py"]
UPD = T("p", "updates")
ME = T("self", TASK)


def kw_name(f):
    return f.node.args.kwarg.arg if f.node.args.kwarg else "updates"


def isinst(st, v, *names):
    """truth of isinstance(v, one of names) known on this path"""
    for x in st.facts:
        if x[0] == "truth" and x[1][0].k == "call" and callee(x[1][0]) == "isinstance":
            a = x[1][0].a[1]
            if len(a) == 2 and a[0] is v:
                ns = {y.a[0].split(".")[-1] for y in subterms(a[1]) if y.k == "ref"}
                if x[2] and ns and ns <= set(names):
                    return True
                if not x[2] and set(names) <= ns:
                    return False
    return None


def truthy(st, v):
    return any(x[0] == "truth" and x[1][0] is v and x[2] for x in st.facts) or any(x[0] == "eq" and x[1][0] is v and x[1][1].k == "const" and not x[1][1].a[0] and not x[2] for x in st.facts) or any(x[0] == "lt" and x[1][0] is const(0) and x[1][1].k == "call" and callee(x[1][1]) == "len" and x[1][1].a[1][0] is v and x[2] for x in st.facts)


def is_none(st, v):
    return v is NONE or any(x[0] == "is" and x[1][0] is v and x[1][1] is NONE and x[2] for x in st.facts)


def positive(st, v):
    return any(x[0] == "lt" and x[1][0] is const(0) and x[1][1] is v and x[2] for x in st.facts) or any(x[0] == "lt" and x[1][0] is v and x[1][1] is const(1) and not x[2] for x in st.facts)


def bool_of(v):
    return v.k == "call" and callee(v) == "bool" or v.k in ("cmp", "not") or v in (TRUE, FALSE)


RULES = {
    "name": ("a non empty string", lambda st, v: isinst(st, v, "str") and truthy(st, v)),
    "mistrigger_grace_time": ("None or a positive number", lambda st, v: is_none(st, v) or isinst(st, v, "int", "float") and positive(st, v)),
    "coalesce": ("a bool", lambda st, v: bool_of(v) or isinst(st, v, "bool")),
    "store_alias": ("a string", lambda st, v: isinst(st, v, "str")),
    "max_instances": ("a positive int", lambda st, v: isinst(st, v, "int") and positive(st, v)),
    "trigger": ("a trigger", lambda st, v: isinst(st, v, "TriggerType", "BaseTrigger")),
    "executor": ("a string", lambda st, v: isinst(st, v, "str")),
    "next_run_time": ("a datetime in the scheduler's time zone", lambda st, v: v.k == "call" and callee(v) == "to_datetime" and any(y.k == "attr" and y.a[1] == "timezone" for y in subterms(v))),
    "args": ("a non-string iterable", lambda st, v: isinst(st, v, "str") is False and isinst(st, v, "Iterable", "Sequence", "list", "tuple")),
    "kwargs": ("a mapping", lambda st, v: isinst(st, v, "Mapping", "dict")),
}


def no_callable(st):
    return any(x[0] == "is" and x[1][1] is NONE and x[2] and (x[1][0].k == "attr" and x[1][0].a[1] == "fn" or callee(x[1][0]) == "ref_to_obj") for x in st.facts)


def update_run(ctx, only, given=(), events=None, cap=1, prune=True):
    """Task.update_task with exactly the update `only` given"""
    p = ctx.proj
    f = p.method(TASK, "update_task")
    ctx.need(f is not None, "Task.update_task not found")
    kw = T("p", kw_name(f))

    def about(t):
        """the update key a term asks for"""
        if t.k == "call" and callee(t) in ("get", "pop") and t.a[0].k == "attr" and t.a[0].a[0] is kw and t.a[1] and t.a[1][0].k == "const":
            return t.a[1][0].a[0]
        if t.k == "idx" and t.a[0] is kw and t.a[1].k == "const":
            return t.a[1].a[0]
        return None
    ev = [E("set", "setattr", when=lambda c: c.arg(0) is ME), E("set", "__setattr__", when=lambda c: c.arg(0) is ME or c.recv is ME), E("set", "update", when=lambda c: c.recv is not None and c.recv.k == "attr" and c.recv.a[1] == "__dict__"),
          E("bind", "check_callable_args", raises=[OTHER]), W("set", ["id", "name", "next_run_time", "fn", "args", "kwargs", "store_alias", "executor", "trigger", "scheduler", "mistrigger_grace_time", "coalesce", "max_instances", "fn_reference"], when=lambda b, n, v, st: b is ME)]
    cl = Rec(p, ev + (events or []), cap=cap, stop={"obj_to_ref", "ref_to_obj", "get_callable_name", "to_datetime"})
    cl.default_raises = lambda c: ["builtins.ValueError"] if c.name in ("to_datetime", "ref_to_obj", "get_callable_name") else ()

    def hook(lit, st, node, fr):
        kind, ts, val = lit
        if kind == "in" and ts[1] is kw and ts[0].k == "const":
            if val != (ts[0].a[0] == only):
                return None
        elif kind == "is" and ts[1] is NONE and about(ts[0]) is not None and about(ts[0]) != only:
            if not val:
                return None
        elif kind == "truth" and about(ts[0]) is not None and about(ts[0]) != only:
            if val:
                return None
        elif kind == "truth" and callee(ts[0]) == "isinstance" and len(ts[0].a[1]) == 2 and ts[0].a[1][0] in (T("attr", ME, "args"), T("attr", ME, "kwargs")):
            if val == (ts[0].a[1][1].k == "ref" and ts[0].a[1][1].a[0].split(".")[-1] == "str"):
                return None         # the task itself is valid
        elif kind == "truth" and ts[0] is kw and val and only in RULES and not getattr(cl, "any_left", False):
            return None         # everything given was consumed
        elif "fn" in given and ts[0] is T("p", "fn") and (kind == "truth" and not val or kind == "is" and ts[1] is NONE and val):
            return None
        return st
    if prune:
        cl.assume_hook = hook
    else:
        cl.merge_by_ts = True
    args = {x: NONE for x in ("fn", "scheduler") if x not in given}
    res, it = run(p, cl, f, self_cls=TASK, args=args)
    ctx.absorb(it)
    return f, cl, res, it


CONVERTED = ("next_run_time", "args", "kwargs")     # their values go through functions that may refuse them


def no(x):
    return x is False


def not_positive(st, v):
    return any(x[0] == "lt" and x[1][0] is const(0) and x[1][1] is v and not x[2] for x in st.facts) or any(x[0] == "lt" and x[1][0] is v and x[1][1] is const(1) and x[2] for x in st.facts)


def not_none(st, v):
    return any(x[0] == "is" and x[1][0] is v and x[1][1] is NONE and not x[2] or x[0] == "truth" and x[1][0] is v and x[2] or x[0] == "truth" and not x[2] and callee(x[1][0]) == "isinstance" and x[1][0].a[1][0] is v and "None" in show(x[1][0]) for x in st.facts)


def falsy(st, v):
    return any(x[0] == "truth" and x[1][0] is v and not x[2] for x in st.facts)


BAD = {
    "name": lambda st, v: no(isinst(st, v, "str")) or falsy(st, v) or any(x[0] == "eq" and x[1][0] is v and x[1][1] is const("") and x[2] for x in st.facts) or any(x[0] == "lt" and x[1][0] is const(0) and contains(x[1][1], v) and not x[2] for x in st.facts),
    "mistrigger_grace_time": lambda st, v: is_none(st, v) is False and not falsy(st, v) and (no(isinst(st, v, "int", "float")) and not_none(st, v) or not_positive(st, v)),
    "coalesce": lambda st, v: no(isinst(st, v, "bool")),
    "store_alias": lambda st, v: no(isinst(st, v, "str")),
    "max_instances": lambda st, v: no(isinst(st, v, "int")) or not_positive(st, v),
    "trigger": lambda st, v: no(isinst(st, v, "TriggerType")) or no(isinst(st, v, "BaseTrigger")),
    "executor": lambda st, v: no(isinst(st, v, "str")),
    "next_run_time": lambda st, v: False,
    "args": lambda st, v: isinst(st, v, "str") or no(isinst(st, v, "Iterable")),
    "kwargs": lambda st, v: isinst(st, v, "str") or no(isinst(st, v, "Mapping")),
}


def unscheduled(st):
    """the path knows that there is no scheduler to take the time zone from"""
    for x in st.facts:
        if x[0] == "truth" and x[1][0].k == "call" and callee(x[1][0]) == "isinstance" and not x[2] and len(x[1][0].a[1]) == 2 and (x[1][0].a[1][0] is NONE or contains(x[1][0].a[1][0], T("attr", ME, "scheduler"))):
            return True
        if x[0] == "is" and x[1][1] is NONE and x[2] and x[1][0] is T("attr", ME, "scheduler") or x[0] == "truth" and x[1][0] is T("attr", ME, "scheduler") and not x[2]:
            return True
    return False


def values_of(st, kw, key):
    """terms on this path that stand for the given value of `key`"""
    out = []
    for x in st.facts:
        for t in x[1]:
            for y in subterms(t):
                if y.k == "call" and callee(y) in ("get", "pop") and y.a[0].k == "attr" and y.a[0].a[0] is kw and y.a[1] and y.a[1][0] is const(key) or y.k == "idx" and y.a[0] is kw and y.a[1] is const(key):
                    if y not in out:
                        out.append(y)
    return out


def stored(st, key):
    """value an update path assigns to the attribute, or None"""
    got = None
    for (b, k), v in st.heap.items():
        if b.k in ("newdict", "dict") and isinstance(k, tuple) and k[0] == "[]" and k[1] is const(key):
            got = v
        if b is ME and k == key:
            got = v
    return got


@prop("C35", "Updating a task changes everything given or nothing",
      """Updating a task applies every given attribute or raises and changes none. A new value is checked before anything is changed (name a non
      empty string, grace time None or positive, max_instances a positive int, trigger a trigger, executor and store alias strings, args an
      iterable and kwargs a mapping that fit the callable), and valid values are accepted. The id, a different scheduler and unknown attributes are
      refused; a new callable names only a task without a name.""",
      ["inputs"],
      "every combination of attributes passed to a task update, valid and invalid, at whichever position the invalid one is handled",
      "an attribute applied before a later one is rejected leaves a half updated task, only for particular combinations and orders",
      FT[:1], [("Task.update_task", "asyncz/tasks/base.py:Task.update_task")],
      "path-sensitive dataflow per attribute: value stored, checks passed on the path, writes before a raise",
      "For each attribute every path with exactly that attribute given is enumerated, with the conversions and the signature check failing or not.")
def c35(ctx):
    p = ctx.proj
    ctx.rule("atomic", "no attribute is written on a path that raises")
    ctx.rule("applied", "on success the given attribute is assigned")
    ctx.rule("checked", "and its value passed its check")
    ctx.rule("refused", "id, another scheduler, unknown attributes raise")
    ctx.rule("accepted", "a value is only refused by the check it failed")
    ctx.rule("named", "a new callable names a task that has no name, and only then")
    for key, (what, pred) in RULES.items():
        f, cl, res, it = update_run(ctx, key)
        oks = 0
        for k, pl, st in res:
            s = seq(st)
            if k == "raise":
                ctx.ob("atomic", "set" not in s, key, f.where, f"raises {exc_name(pl)} after attributes were changed", trace(st))
                given = values_of(st, T("p", kw_name(f)), key)
                conv = key in CONVERTED and not pl.cls.endswith("TypeError") or "bind!" in s or key in ("args", "kwargs") and any(x[0] == "truth" and not x[2] and callee(x[1][0]) == "callable" for x in st.facts)
                ctx.ob("accepted", conv or any(BAD[key](st, v) for v in given) or key == "next_run_time" and unscheduled(st), key, f.where, f"a {key} that is {what} is refused ({exc_name(pl)})", trace(st))
                continue
            v = stored(st, key)
            if key == "name" and v is None and any(x[0] == "is" and x[1][1] is NONE and x[2] and "name" in show(x[1][0]) for x in st.facts):
                continue        # name=None means: keep the name
            oks += 1
            ctx.ob("applied", v is not None, key, f.where, f"{key} is not applied", trace(st))
            for y in ([] if v is None else v.a[0] if v.k == "phi" else [v]):
                ctx.ob("applied", contains(y, T("p", kw_name(f))), key + ":given", f.where, f"{key} = {show(y)} is not the given value", trace(st))
                ctx.ob("checked", bool(pred(st, y)), key, f.where, f"{key} = {show(y)} is not known to be {what}", trace(st))
            if key in ("args", "kwargs"):
                none_fn = no_callable(st)
                ctx.ob("checked", "bind" in s or none_fn, key + ":fit", f.where, "the arguments are not checked against the callable", trace(st))
        ctx.ob("applied", oks > 0, key + ":possible", f.where, f"{key} can never be updated")
        n = [i for i in cl.insts if i.label == "set"]
        ctx.ob("applied", bool(n), key + ":set", f.where, "nothing is ever assigned to the task")
    f, cl, res, it = update_run(ctx, "next_run_time", given=("scheduler",))
    sch = T("p", "scheduler")
    for k, pl, st in res:
        if k == "raise" and pl.cls.endswith("TypeError"):
            none = any(x[0] == "is" and x[1][0] is sch and x[1][1] is NONE and x[2] or x[0] == "truth" and x[1][0] is sch and not x[2] or x[0] == "truth" and not x[2] and callee(x[1][0]) == "isinstance" and x[1][0].a[1][0] is sch for x in st.facts)
            ctx.ob("accepted", none and (unscheduled(st) or any(contains(t, sch) and callee(t) == "isinstance" for x in st.facts for t in x[1])), "next_run_time:scheduler", f.where, "a next run time given together with the scheduler is refused", trace(st))
    # all combinations together
    f, cl, res, it = update_run(ctx, None, given=("fn", "scheduler"), prune=False)
    for k, pl, st in res:
        if k == "raise":
            ctx.ob("atomic", "set" not in seq(st), "combined:" + exc_name(pl), f.where, f"raises {exc_name(pl)} after attributes were changed", trace(st))
    ctx.ob("atomic", any(k == "raise" for k, _, _ in res), "combined", f.where, "no invalid update is refused")
    # callable
    f, cl, res, it = update_run(ctx, "fn", given=("fn",))
    for k, pl, st in res:
        s = seq(st)
        if k == "raise":
            ctx.ob("atomic", "set" not in s, "fn", f.where, f"raises {exc_name(pl)} after attributes were changed", trace(st))
            continue
        ctx.ob("checked", "bind" in s or no_callable(st), "fn:fit", f.where, "the callable is not checked against the arguments", trace(st))
        for a in ("fn", "fn_reference", "args", "kwargs"):
            ctx.ob("applied", stored(st, a) is not None, "fn:" + a, f.where, f"{a} is not applied with a new callable", trace(st))
        nm, has = stored(st, "name") or st.heap.get((T("p", kw_name(f)), ("[]", const("name")))), truth_of(st, T("attr", ME, "name"))
        nameless = any(x[0] == "is" and callee(x[1][0]) == "get_callable_name" and x[1][1] is NONE and x[2] for x in st.facts)
        named = nameless or nm is not None and callee(nm) == "get_callable_name" and nm.a[1] and (nm.a[1][0] is T("p", "fn") or callee(nm.a[1][0]) == "ref_to_obj")
        ctx.ob("named", nm is None if has else has is False and named or no_callable(st), "fn", f.where, f"the task has a name={has}: name becomes {show(nm) if nm is not None else 'unchanged'}", trace(st))
        call_ok = any(x[0] == "truth" and x[2] and x[1][0].k == "call" and callee(x[1][0]) == "callable" for x in st.facts) or isinst(st, T("p", "fn"), "str")
        ctx.ob("checked", bool(call_ok), "fn", f.where, "fn is neither checked to be callable nor a reference", trace(st))
    for i in cl.insts:
        if i.label == "bind":
            fn, ar, kwa = i.call.arg(0), i.call.arg(1, "args"), i.call.arg(2, "kwargs")
            ctx.ob("checked", contains(fn, T("p", "fn")) and ar is not None and kwa is not None, "fn:bind", i.where, f"checks {show(i.call.args)}")
    # refusals
    f, cl, res, it = update_run(ctx, "id")
    for k, pl, st in res:
        ctx.ob("refused", k == "raise" and "set" not in seq(st), "id", f.where, "the id can be changed", trace(st))
    ctx.ob("refused", bool(res), "id:paths", f.where, "no path")
    f, cl, res, it = update_run(ctx, None, given=("scheduler",))
    n = 0
    for k, pl, st in res:
        have = diff = None
        for x in st.facts:
            if x[0] in ("is", "eq", "truth") and x[1][0].k == "attr" and x[1][0].a[1] == "scheduler" and x[1][0].a[0] is ME:
                if x[0] == "truth":
                    have = x[2]
                elif x[1][1] is NONE:
                    have = not x[2]
                elif x[1][1] is T("p", "scheduler"):
                    diff = not x[2]
            if x[0] in ("is", "eq") and x[1][1].k == "attr" and x[1][1].a[1] == "scheduler" and x[1][0] is T("p", "scheduler"):
                diff = not x[2]
        if k == "raise":
            ctx.ob("atomic", "set" not in seq(st), "scheduler", f.where, f"raises {exc_name(pl)} after attributes were changed", trace(st))
            n += have is not False and diff is True
        elif any(x[0] == "is" and x[1][0] is T("p", "scheduler") and x[1][1] is NONE and x[2] for x in st.facts):
            continue
        else:
            ctx.ob("refused", have is False or diff is False, "scheduler", f.where, "an already set scheduler can be replaced", trace(st))
    ctx.ob("refused", n > 0, "scheduler:raise", f.where, "another scheduler is never refused")
    f, cl, res, it = update_run(ctx, "unknown attribute")
    for k, pl, st in res:
        left = any(x[0] == "truth" and x[1][0] is T("p", kw_name(f)) and x[2] for x in st.facts) or (k == "raise" and pl.cls.endswith("AttributeError"))
        none = any(x[0] == "truth" and x[1][0] is T("p", kw_name(f)) and not x[2] for x in st.facts)
        if not none:
            ctx.ob("refused", k == "raise" and left and "set" not in seq(st), "unknown", f.where, "an unknown attribute is ignored", trace(st))
        ctx.ob("refused", left or none, "unknown:tested", f.where, "whether unknown attributes remain is not tested", trace(st))
    ctx.floor("atomic", 8)
    ctx.floor("applied", 10)
    ctx.floor("checked", 10)


STATE_FIELDS = {"id": "id", "name": "name", "trigger": "trigger", "executor": "executor", "args": "args", "kwargs": "kwargs", "coalesce": "coalesce", "max_instances": "max_instances",
                "mistrigger_grace_time": "mistrigger_grace_time", "next_run_time": "next_run_time", "fn": "fn_reference", "fn_reference": "fn_reference"}
BST = "asyncz.state.BaseState"
BT = "asyncz.triggers.base.BaseTrigger"


def names_in(node):
    return {n.id if isinstance(n, ast.Name) else n.attr for n in ast.walk(node) if isinstance(n, (ast.Name, ast.Attribute))} | {w for n in ast.walk(node) if isinstance(n, ast.Constant) and isinstance(n.value, str) for w in n.value.replace("[", " ").replace("]", " ").replace("|", " ").replace(",", " ").split()} | {"None" for n in ast.walk(node) if isinstance(n, ast.Constant) and n.value is None}


def annotation(p, cls, name):
    for q in p.mro(cls):
        c = p.classes.get(q)
        if c is None:
            continue
        for n in c.node.body:
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
                return n.annotation
    return None


def model_fields(p, cls):
    out = {}
    for q in reversed(p.mro(cls)):
        c = p.classes.get(q)
        for n in c.node.body if c is not None else ():
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and "ClassVar" not in names_in(n.annotation):
                out[n.target.id] = n.annotation
    return out


def class_names(p, cls):
    """names an instance has without any instance state: methods, properties, class variables"""
    out = set()
    for q in p.mro(cls):
        c = p.classes.get(q)
        if c is None:
            continue
        pyd = any(BST == x for x in p.mro(cls))
        for n in c.node.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(n.name)
            elif isinstance(n, ast.Assign):
                out |= {t.id for t in n.targets if isinstance(t, ast.Name)}
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None and (not pyd or "ClassVar" in names_in(n.annotation)):
                out.add(n.target.id)
    return out


def reads(p, cls, start, seen=None):
    """attributes of self read in method `start`, following calls of own methods"""
    seen = set() if seen is None else seen
    f = p.method(cls, start)
    if f is None or f.qual in seen:
        return {}
    seen.add(f.qual)
    out = {}
    a = f.node.args.args
    me = a[0].arg if a else "self"
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me and isinstance(n.ctx, ast.Load):
            out.setdefault(n.attr, f"{f.module.rel}:{n.lineno}")
            if p.method(cls, n.attr) is not None:
                for k, v in reads(p, cls, n.attr, seen).items():
                    out.setdefault(k, v)
    return out


@prop("C36", "A stored task comes back complete: same settings, same schedule",
      """The state a task is stored with carries its id, name, callable reference, arguments, trigger, executor, coalescing, instance limit, grace
      time and next run time, for every value the task accepts; a task without callable reference is refused. A restored task resolves its
      callable, is submitted and not pending. A restored trigger has everything it needs to compute further run times.""",
      ["inputs", "histories"],
      "every stored and restored task and every trigger type, with every accepted setting",
      "an attribute missing from the state is only noticed when a restored task later needs it (resume, reschedule, restart), with the setting in question",
      FT + ["asyncz/triggers/base.py", "asyncz/triggers/interval.py", "asyncz/triggers/date.py", "asyncz/triggers/shutdown.py", "asyncz/triggers/cron/trigger.py"],
      [("Task.__getstate__/__setstate__", "asyncz/tasks/base.py"), ("BaseState.__setstate__", "asyncz/state.py"), ("<Trigger>.__getstate__", "asyncz/triggers/*")],
      "field-flow analysis: attributes read after restore against attributes the state carries, per class",
      "Every persistable class is enumerated; the attributes its run-time methods read are collected over the own call graph and compared with what its state provides.",
      assumptions=["pydantic restores the fields of a model whose state it produced itself, and pickle restores plain objects."])
def c36(ctx):
    p = ctx.proj
    ctx.rule("carried", "the state carries the attribute's own value")
    ctx.rule("admits", "the state accepts every value the task accepts")
    ctx.rule("refused", "no reference to the callable -> refused")
    ctx.rule("restored", "callable resolved, submitted, not pending")
    ctx.rule("trigger", "attributes the trigger needs are part of its state")
    ctx.rule("default", "a class without own state is restored from the state pydantic produced")
    # ---- task
    f = p.method(TASK, "__getstate__")
    cl = Rec(p, [E("state", "TaskState")], stop={"obj_to_ref"})
    res, it = run(p, cl, f, self_cls=TASK)
    ctx.absorb(it)
    ref = T("attr", ME, "fn_reference")
    n = 0
    for k, pl, st in res:
        known = truth_of(st, ref)
        if k == "raise":
            ctx.ob("refused", known is not True or pl.cls.endswith("ValueError") is False, "Task.__getstate__:raises", f.where, f"raises {pl.cls} although the callable has a reference", trace(st))
            continue
        ctx.ob("refused", known is True, "Task.__getstate__", f.where, "a task without callable reference is stored", trace(st))
        n += 1
        ctx.ob("carried", pl.k == "new" and pl.a[0].endswith("TaskState"), "Task.__getstate__", f.where, f"state is {show(pl)}")
        if pl.k != "new":
            continue
        for fld, src in STATE_FIELDS.items():
            v = new_kw(pl, fld)
            ok = v is not None and all(contains(y, T("attr", ME, src)) or y.k in ("dict", "newdict") and src == "kwargs" and empty(st, T("attr", ME, src)) for y in (v.a[0] if v.k == "phi" else [v]))
            ctx.ob("carried", ok, f"Task:{fld}", f.where, f"{fld} is stored as {show(v) if v is not None else 'nothing'}", trace(st))
    ctx.ob("carried", n > 0, "Task", f.where, "no state is ever produced")
    # accepted values fit the state's annotations
    TS = "asyncz.datastructures.TaskState"
    up = p.method(TASK, "update_task")
    accepted = {}
    for node in ast.walk(up.node):
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == "isinstance" and len(node.args) == 2 and isinstance(node.args[0], ast.Name):
            accepted.setdefault(node.args[0].id, set()).update(names_in(node.args[1]))
    for fld, must in (("mistrigger_grace_time", {"float", "int"}), ("max_instances", {"int"}), ("executor", {"str"}), ("name", {"str"}), ("coalesce", {"bool"}), ("next_run_time", {"datetime"}), ("id", {"str"})):
        an = annotation(p, TS, fld)
        ctx.ob("admits", an is not None, fld, "asyncz/datastructures.py", f"{TS} has no field {fld}")
        if an is None:
            continue
        ns = names_in(an)
        need = {x for x in must if x in accepted.get(fld, must)}
        ok = bool({"Any", "object"} & ns) or all(x in ns or (x == "int" and "float" in ns) for x in need)
        ctx.ob("admits", ok, fld, "asyncz/datastructures.py", f"the task accepts {sorted(need)}, its state only {sorted(ns)}")
        ctx.ob("admits", bool({"Optional", "None", "Any"} & ns) or fld in ("coalesce", "max_instances"), fld + ":none", "asyncz/datastructures.py", f"{fld} may be None, its state refuses that")
    f = p.method(TASK, "__setstate__")
    sp = T("p", [a.arg for a in f.node.args.args if a.arg != "self"][0])
    cl = Rec(p, [E("resolve", "ref_to_obj"), W(lambda b, n, v: f"{n}={v.a[0] if v.k == 'const' else '?'}", ["submitted", "pending"], when=lambda b, n, v, st: b is ME),
                 E("dict", "__setattr__"), M(lambda op, k, v: "d[]", ["__dict__"]), E("super", "__setstate__")], cap=2)
    res, it = run(p, cl, f, self_cls=TASK)
    ctx.absorb(it)
    for k, pl, st in res:
        s = list(seq(st))
        ctx.ob("restored", k == "return", "Task.__setstate__:raises", f.where, f"raises {pl}", trace(st))
        for lab, other in (("submitted=True", "submitted="), ("pending=False", "pending=")):
            last = [x for x in s if x.startswith(other)]
            ctx.ob("restored", last[-1:] == [lab], "Task.__setstate__:" + other[:-1], f.where, f"{last[-1:]} after restoring", trace(st))
    ctx.ob("restored", any(i.label == "resolve" for i in cl.insts), "Task.__setstate__:fn", f.where, "the callable reference is not resolved")
    taken = [i for i in cl.insts if i.label in ("dict", "super")] + [i for i in cl.insts if i.label == "d[]"]
    ctx.ob("restored", any(any(contains(a, sp) for a in i.call.args) for i in taken if i.call is not None), "Task.__setstate__:state", f.where, "the given state is not applied")
    # ---- triggers
    for c in sorted([BT] + p.subclasses(BT)):
        if c == BT or p.method(c, "get_next_trigger_time") is None or p.method(c, "get_next_trigger_time").cls.qual in ("asyncz.triggers.types.TriggerType",):
            continue
        cn = p.classes[c].name
        need = reads(p, c, "get_next_trigger_time")
        for extra in ("__str__", "__repr__"):
            m = p.method(c, extra)
            if m is not None and m.cls.qual in p.classes and m.cls.module.name.startswith("asyncz.triggers"):
                for k, v in reads(p, c, extra).items():
                    need.setdefault(k, v)
        have = class_names(p, c)
        need = {k: v for k, v in need.items() if k not in have and not k.startswith("__")}
        g = p.method(c, "__getstate__")
        if g is None or not g.module.name.startswith("asyncz.triggers"):
            ctx.ob("trigger", True, cn, p.classes[c].where if hasattr(p.classes[c], "where") else "asyncz/triggers")
            ctx.stat("default_state_classes")
            continue
        cl = Rec(p, [], stop={"obj_to_ref"})
        res, it = run(p, cl, g, self_cls=c)
        ctx.absorb(it)
        me = T("self", c)
        setst = p.method(c, "__setstate__")
        own_set = {n.attr for n in ast.walk(setst.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self"} if setst is not None and setst.module.name.startswith("asyncz.triggers") else set()
        for k, pl, st in res:
            if k != "return":
                ctx.ob("trigger", False, cn + ":raises", g.where, f"raises {pl.cls}", trace(st))
                continue
            got = {}
            if pl.k == "new":
                got = dict(pl.a[2])
            for a, where in sorted(need.items()):
                v = got.get(a)
                ok = v is not None and all(contains(y, T("attr", me, a)) for y in (v.a[0] if v.k == "phi" else [v])) or a in own_set
                ctx.ob("trigger", ok, f"{cn}.{a}", where, f"{cn} reads {a}, its state carries {show(v) if v is not None else 'nothing'}", trace(st))
            flds = model_fields(p, pl.a[0]) if pl.k == "new" and pl.a[0] in p.classes else {}
            for a in got:
                ctx.ob("trigger", not flds or a in flds, f"{cn}.{a}:declared", g.where, f"{a} is not a field of the state and would be dropped")
    # ---- combination: nested triggers
    comb = [c for c in p.subclasses(BT) if "triggers" in reads(p, c, "get_next_trigger_time")]
    for c in sorted({p.method(c, "__getstate__").cls.qual for c in comb}):
        g, s_ = p.method(c, "__getstate__"), p.method(c, "__setstate__")
        cl = Rec(p, [E("cls", "obj_to_ref"), E("get", "__getstate__")])
        res, it = run(p, cl, g, self_cls=c)
        ctx.absorb(it)
        for i in cl.insts:
            if i.label == "get":
                ctx.ob("trigger", from_attr(i.call.recv, "triggers"), "combination:nested", i.where, f"state of {show(i.call.recv)}")
        ctx.ob("trigger", any(i.label == "get" for i in cl.insts) and any(i.label == "cls" for i in cl.insts), "combination:saved", g.where, "class and state of the nested triggers are not saved")
        ctx.ob("trigger", s_ is not None and s_.cls.qual == c, "combination:restores", g.where, "nested triggers are not restored")
        if s_ is not None and s_.cls.qual == c:
            me = T("self", c)
            cl = Rec(p, [E("resolve", "ref_to_obj"), E("restore", "__setstate__", when=lambda c2: not is_self(c2.recv) and c2.recv is not None and not (c2.fn.k == "func" and c2.fn.a[0].startswith("asyncz.state"))), E("app", ["append", "insert"]), W("set", ["triggers"])], cap=3)
            cl.iter_rel = True
            res, it = run(p, cl, s_, self_cls=c)
            ctx.absorb(it)
            ok = False
            for itm, st, node, fn in cl.iters:
                b = [x for x in seq(st) if x in ("resolve", "restore", "app")]
                if not b and not cl.iters:
                    continue
                ok = True
                ctx.ob("trigger", b == ["resolve", "restore", "app"], "combination:each", s_.where, "each nested trigger: " + " ".join(b), trace(st))
            ctx.ob("trigger", ok or any(i.label == "restore" for i in cl.insts), "combination:rebuilt", s_.where, "nested triggers are not rebuilt")
            ctx.ob("trigger", any(i.label == "set" for i in cl.insts), "combination:assigned", s_.where, "the rebuilt triggers are not assigned")
    # ---- default state
    f = p.method(BST, "__setstate__")
    ctx.need(f is not None, "BaseState.__setstate__ not found")
    sp = T("p", [a.arg for a in f.node.args.args if a.arg != "self"][0])
    cl = Rec(p, [E("super", "__setstate__"), E("attrs", "__setattr__")], cap=1)
    res, it = run(p, cl, f, self_cls=BST)
    ctx.absorb(it)
    seen = False
    for k, pl, st in res:
        d = isinst(st, sp, "dict", "Mapping")
        if d:
            seen = True
            ctx.ob("default", k == "return" and "super" in seq(st), "BaseState.__setstate__", f.where, "a default state is not handed to pydantic", trace(st))
        else:
            told = any(x[0] == "truth" and callee(x[1][0]) == "isinstance" and contains(x[1][0], sp) for x in st.facts)
            seen = seen or (d is None and not told and "super" in seq(st) and k == "return")
            ctx.ob("default", k != "return" or bool({"attrs", "super"} & set(seq(st))), "BaseState.__setstate__:own", f.where, "the state is not applied", trace(st))
    ctx.ob("default", seen, "BaseState.__setstate__:dict", f.where, "a class without own __getstate__ cannot be restored: its state is a dict")
    for i in cl.insts:
        if i.label == "super":
            ctx.ob("default", i.call.arg(0) is sp, "BaseState.__setstate__:arg", i.where, f"hands over {show(i.call.args)}")
    ctx.floor("carried", 12)
    ctx.floor("trigger", 12)
    ctx.floor("admits", 7)


def truth_of(st, t):
    for x in st.facts:
        if x[0] == "truth" and x[1][0] is t:
            return x[2]
        if x[0] == "is" and x[1][0] is t and x[1][1] is NONE:
            return not x[2]
    return None


def empty(st, t):
    return any(x[0] == "truth" and x[1][0] is t and not x[2] for x in st.facts) or is_none(st, t)


class Deco(Rec):
    """records what happens to the copy of the template's attributes"""

    def mine(self, t):
        return t is not None and contains(t, T("attr", ME, "__dict__")) and t is not T("attr", ME, "__dict__")

    def call(self, c, st):
        if c.fn.k == "attr" and self.mine(c.recv) and c.name in ("pop", "__delitem__"):
            k = c.arg(0)
            st = self.add(st, "-" + str(k.a[0]) if k is not None and k.k == "const" else "-?")
            return [("ok", T("unk", "popped"), st)]
        return super().call(c, st)

    def sub_del(self, base, key, st, node, fr):
        if self.mine(base):
            st = self.add(st, "-" + str(key.a[0]) if key.k == "const" else "-?")
        return super().sub_del(base, key, st, node, fr)

    def sub_write(self, base, key, value, st, node, fr):
        if base is T("attr", ME, "__dict__"):
            st = self.add(st, "template")
        return super().sub_write(base, key, value, st, node, fr)


@prop("C34", "A decorator task submits copies of itself; tasks are compared by id",
      """Decorating a function returns it unchanged and creates one new task for it with the template's settings, under the template's id or a
      fresh one; the copy is submitted once if the template has a scheduler, replaces an existing task only under a given id, and is otherwise
      remembered on the function; the template is not changed. Tasks are equal exactly when their ids are, a task without id equals none, and a
      task created for a callable without an id gets a fresh one.""",
      ["inputs", "configurations"],
      "every combination of settings a decorator task can have, any number of decorated functions",
      "the copy depends on which settings were given (id, store, executor), and a shared or dropped setting shows only with those",
      FT[:1], [("Task.__call__", "asyncz/tasks/base.py:Task.__call__"), ("Task.__eq__", "asyncz/tasks/base.py:Task.__eq__"), ("Task.__init__", "asyncz/tasks/base.py:Task.__init__")],
      "path-sensitive dataflow: keys taken from and removed from the copied attributes, arguments of the submission",
      "Every path of decoration, comparison and construction is enumerated, per given or missing id, store, executor and scheduler.")
def c34(ctx):
    p = ctx.proj
    ctx.rule("returned", "the decorated function itself is returned")
    ctx.rule("copy", "one new task, all settings, the function, no bookkeeping of the template")
    ctx.rule("submit", "submitted once iff there is a scheduler; replaces only under a given id")
    ctx.rule("remember", "without an id the copy is kept on the function")
    ctx.rule("template", "the template stays as it is")
    ctx.rule("equal", "equality of ids")
    ctx.rule("fresh", "fresh ids")
    f = p.method(TASK, "__call__")
    fnp = T("p", [a.arg for a in f.node.args.args if a.arg != "self"][0])
    COPY = T("p", "COPY")

    def is_copy(t):
        return t is COPY or t is not None and (t.k == "new" and t.a[0] == TASK or t.k == "call" and (t.a[0].k == "attr" and t.a[0].a[1] == "__class__" or t.a[0].k == "ref" and t.a[0].a[0] == TASK or callee(t.a[0]) == "type"))
    d = T("attr", ME, "__dict__")
    is_cls = lambda c: c.fn.k == "attr" and c.fn.a[1] == "__class__" and is_self(c.fn.a[0]) or c.fn.k == "ref" and c.fn.a[0].split(".")[-1] == "Task" or callee(c.fn) == "type"
    cl = Deco(p, [E("copy", ["__class__", "Task", "type"], when=lambda c: is_cls(c) and (c.kw or c.args) and not (callee(c.fn) is None and c.fn.k == "ref" and c.fn.a[0].endswith("type")), ret=lambda c, st: [COPY]), E("add", "add_task", when=lambda c: c.recv is not None and contains(c.recv, ME)), E("keep", ["append"], when=lambda c: c.recv is not None and ("asyncz_tasks" in show(c.recv) or c.args and is_copy(c.arg(0)))),
                  E("list", ["__setattr__", "setattr"], when=lambda c: any(a is const("asyncz_tasks") for a in c.args)), E("uuid", ["uuid4", "uuid1", "token_hex"]), W("list", ["asyncz_tasks"], when=lambda b, n, v, st: b is fnp),
                  W("template", ["id", "name", "fn", "args", "kwargs", "store_alias", "executor", "trigger", "scheduler", "mistrigger_grace_time", "coalesce", "max_instances", "fn_reference", "pending", "submitted", "next_run_time"], when=lambda b, n, v, st: b is ME)], cap=3)
    cl.dyn = lambda c: ("copy", []) if is_cls(c) else None
    res, it = run(p, cl, f, self_cls=TASK, max_states=4000)
    ctx.absorb(it)

    def setting(st, key):
        """is the template's setting known to be given (True), missing (False) or unknown"""
        for x in st.facts:
            t = x[1][0]
            hit = t is T("attr", ME, key) or (t.k == "idx" and t.a[1] is const(key) or t.k == "call" and callee(t) in ("get", "pop") and t.a[1] and t.a[1][0] is const(key)) and contains(t, d)
            if hit and x[0] == "truth":
                return x[2]
            if hit and x[0] == "is" and x[1][1] is NONE:
                return not x[2]
        return None
    looked = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "getattr" and "asyncz_tasks" in ast.unparse(n) for n in ast.walk(p.classes[TASK].node))
    seen = set()
    for k, pl, st in res:
        s = list(seq(st))
        ctx.ob("returned", k == "return" and pl is fnp, "__call__", f.where, f"{k} {show(pl) if k == 'return' else pl.cls}", trace(st))
        ctx.ob("template", "template" not in s, "__call__", f.where, "decorating changes the template", trace(st))
        ctx.ob("copy", s.count("copy") == 1, "__call__:once", f.where, f"{s.count('copy')} tasks created", trace(st))
        if k != "return" or s.count("copy") != 1:
            continue
        hid, hsch = setting(st, "id"), setting(st, "scheduler")
        seen.add((hid, hsch))
        ctx.ob("submit", hsch is not None and s.count("add") == (1 if hsch else 0), "__call__", f.where, f"scheduler={hsch}: submitted {s.count('add')} times", trace(st))
        ctx.ob("remember", hid is not None and s.count("keep") == (0 if hid else 1), "__call__", f.where, f"id given={hid}: kept {s.count('keep')} times on the function", trace(st))
        ctx.ob("fresh", hid is not None and ("uuid" in s) == (not hid), "__call__", f.where, f"id given={hid}: fresh id {'taken' if 'uuid' in s else 'not taken'}", trace(st))
        has = next((x[2] for x in st.facts if x[0] == "truth" and callee(x[1][0]) == "hasattr" and const("asyncz_tasks") in x[1][0].a[1]), None)
        if has is None:
            has = next((x[2] == (x[0] == "truth") for x in st.facts if x[0] in ("truth", "is") and callee(x[1][0]) == "getattr" and const("asyncz_tasks") in x[1][0].a[1]), None)
        if has is not None or "list" in s and not looked:
            ctx.ob("remember", ("list" in s) == (has is False), "__call__:list", f.where, f"the function has a list={has}: list {'created' if 'list' in s else 'not created'}", trace(st))
        for key in ("store_alias", "executor"):
            if f"-{key}" in s or setting(st, key) is not None:
                ctx.ob("copy", (f"-{key}" in s) == (setting(st, key) is False), f"__call__:{key}", f.where, f"{key} given={setting(st, key)} and {'dropped' if '-' + key in s else 'kept'}", trace(st))
        lost = {x[1:] for x in s if x.startswith("-")} - {"pending", "submitted", "fn_reference", "store_alias", "executor"}
        ctx.ob("copy", not lost, "__call__:kept", f.where, f"{sorted(lost)} are not copied", trace(st))
        c = [i for i in cl.insts if i.label == "copy"]
        comps = [y for i in c for _, v in i.call.kw for y in subterms(v) if y.k == "comp"]
        if not comps:
            for key in ("pending", "submitted", "fn_reference"):
                ctx.ob("copy", f"-{key}" in s, f"__call__:{key}", f.where, f"the template's {key} is copied", trace(st))
        else:
            for key in ("pending", "submitted", "fn_reference"):
                ctx.ob("copy", any(repr(key) in show(y) for y in comps), f"__call__:{key}", f.where, f"the template's {key} is copied", trace(st))
    ctx.ob("submit", {True, False} <= {b for _, b in seen}, "__call__:both", f.where, "with and without scheduler are not told apart")
    ctx.ob("remember", {True, False} <= {a for a, _ in seen}, "__call__:both", f.where, "with and without id are not told apart")
    for i in cl.insts:
        if i.label == "copy":
            vals = [v for _, v in i.call.kw] + list(i.call.args)
            ctx.ob("copy", any(contains(v, d) for v in vals), "__call__:settings", i.where, f"the copy is created from {[show(v) for v in vals]}")
            ctx.ob("copy", d not in vals, "__call__:shared", i.where, "the template's own attributes are handed over")
            fnv = i.call.arg(0, "fn")
            for v in vals:
                if contains(v, d):
                    fnv = next((y for x, y in it.written(v, i.st) or () if x is const("fn") or x == "fn"), fnv) or i.st.heap.get((v, ("[]", const("fn"))))
            ctx.ob("copy", fnv is fnp, "__call__:fn", i.where, f"the copy runs {show(fnv) if fnv is not None else 'nothing'}")
        elif i.label == "add":
            ctx.ob("submit", i.call.recv is T("attr", ME, "scheduler") and is_copy(i.call.arg(0, "fn_or_task")), "__call__:what", i.where, f"{show(i.call.recv)} gets {show(i.call.args)}")
            r = i.call.kwarg("replace_existing") if hasattr(i.call, "kwarg") else dict(i.call.kw).get("replace_existing")
            hid = setting(i.st, "id")
            rv = r.a[0] if r is not None and r.k == "const" else False if r is None else setting_truth(i.st, r)
            if rv is None and r is not None and (contains(r, d) or contains(r, T("attr", ME, "id"))) and (callee(r) in ("bool", "get") or r.k in ("idx", "attr")):
                rv = hid
            ctx.ob("submit", rv is hid, "__call__:replace", i.where, f"id given={hid}: replaces an existing task={rv}", trace(i.st))
        elif i.label == "keep":
            ctx.ob("remember", is_copy(i.call.arg(0)) and (contains(i.call.recv, fnp) or any(j.label == "list" and j.call is not None and i.call.recv in j.call.args for j in cl.insts)), "__call__:what", i.where, f"{show(i.call.recv)} gets {show(i.call.args)}")
        elif i.label == "list" and i.call is not None:
            ctx.ob("remember", i.call.arg(0) is fnp, "__call__:owner", i.where, f"the list is put on {show(i.call.arg(0))}")
    # ---- comparison
    f = p.method(TASK, "__eq__")
    o = T("p", [a.arg for a in f.node.args.args if a.arg != "self"][0])
    mine, theirs = T("attr", ME, "id"), T("attr", o, "id")
    res, it = run(p, Rec(p, []), f, self_cls=TASK)
    ctx.absorb(it)
    n = set()
    for k, pl, st in res:
        task = isinst(st, o, "Task", "TaskType")
        none, same = noneval_of(st, mine), eqval(st, mine, theirs)
        if none is None:
            none = {True: False, False: True, None: None}[truth_of(st, mine)]
        r = show(pl) if k == "return" else pl.cls
        if task is False or task is None and "NotImplemented" in r:
            n.add("other")
            ctx.ob("equal", k == "return" and ("NotImplemented" in r or pl is FALSE), "__eq__:other", f.where, f"comparison with something else: {r}", trace(st))
            continue
        if none or eqval(st, theirs, NONE) is True or noneval_of(st, theirs) is True:
            n.add("none")
            ok = k == "return" and pl is FALSE
        else:
            n.add("id")
            want = T("cmp", "==", mine, theirs), T("cmp", "==", theirs, mine)
            isc = k == "return" and pl.k == "cmp" and pl.a[0] in ("==", "eq", "Eq") and set(pl.a[1:]) == {mine, theirs}
            ok = none is False and (isc or same is not None and pl is (TRUE if same else FALSE)) or k == "return" and pl is FALSE and same is False
        ctx.ob("equal", ok, "__eq__", f.where, f"id missing={none}, same id={same}: {r}", trace(st))
    ctx.ob("equal", {"other", "none", "id"} <= n, "__eq__:cases", f.where, f"only these cases are told apart: {sorted(n)}")
    # ---- construction
    f = p.method(TASK, "__init__")
    idp, fp = T("p", "id"), T("p", "fn")
    cl = Rec(p, [E("uuid", ["uuid4", "uuid1", "token_hex"]), E("super", "__init__"), E("apply", "update_task")], cap=2, stop={"update_task"})
    res, it = run(p, cl, f, self_cls=TASK)
    ctx.absorb(it)
    for k, pl, st in res:
        s = list(seq(st))
        noid, nofn = noneval_of(st, idp), noneval_of(st, fp)
        want = noid is True and nofn is False
        ctx.ob("fresh", k == "return" and ("uuid" in s) == want, "__init__", f.where, f"id missing={noid}, callable missing={nofn}: fresh id {'taken' if 'uuid' in s else 'not taken'}", trace(st))
        ctx.ob("fresh", [x for x in s if x != "uuid"] == ["super", "apply"], "__init__:order", f.where, " ".join(s), trace(st))
    kwn = T("p", kw_name(f))
    for i in cl.insts:
        if i.label == "super":
            v = i.call.arg(9, "id")
            noid, nofn = noneval_of(i.st, idp), noneval_of(i.st, fp)
            ctx.ob("fresh", v is not None and (v is idp or noid is True and (v is NONE and nofn or callee(v) is not None or v.k in ("attr", "call"))), "__init__:id", i.where, f"id is {show(v) if v is not None else 'not given'}")
            ctx.ob("fresh", not (noid is True and nofn is False) or v is not None and v is not idp and v is not NONE, "__init__:used", i.where, "the fresh id is not used")
        elif i.label == "apply":
            ctx.ob("copy", i.call.arg(9, "fn") is fp and any(kwn is v for a, v in i.call.kw), "__init__:settings", i.where, f"applies {[show(v) for _, v in i.call.kw]}")
    ctx.floor("returned", 1)


def setting_truth(st, t):
    for x in st.facts:
        if x[0] == "truth" and x[1][0] is t:
            return x[2]
    return None


def noneval_of(st, t):
    for x in st.facts:
        if x[0] == "is" and x[1][0] is t and x[1][1] is NONE:
            return x[2]
    return None


def eqval(st, a, b):
    for x in st.facts:
        if x[0] == "eq" and set(x[1]) == {a, b}:
            return x[2]
    return None
