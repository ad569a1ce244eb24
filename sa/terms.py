"""Hash-consed value terms (value numbering)."""
from __future__ import annotations


class T:
    __slots__ = ("k", "a", "depth", "_h", "__weakref__")
    _tab: dict = {}

    def __new__(cls, k, *a):
        key = (k, a)
        t = cls._tab.get(key)
        if t is None:
            t = object.__new__(cls)
            t.k = k
            t.a = a
            d = 0
            for x in a:
                if isinstance(x, T):
                    d = max(d, x.depth)
                elif isinstance(x, (tuple, frozenset)):
                    for y in x:
                        if isinstance(y, T):
                            d = max(d, y.depth)
                        elif isinstance(y, tuple):
                            for z in y:
                                if isinstance(z, T):
                                    d = max(d, z.depth)
            t.depth = d + 1
            t._h = hash(key)
            cls._tab[key] = t
        return t

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self)

    def __reduce__(self):
        raise TypeError


def subterms(t):
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            yield x
            stack.extend(x.a)
        elif isinstance(x, (tuple, frozenset)):
            stack.extend(x)


_contains_cache: dict = {}


def contains(t, s):
    if not isinstance(t, T):
        return any(contains(x, s) for x in t) if isinstance(t, (tuple, frozenset)) else False
    key = (t, s)
    r = _contains_cache.get(key)
    if r is None:
        r = t is s or any(contains(x, s) for x in t.a if isinstance(x, (T, tuple, frozenset)))
        _contains_cache[key] = r
    return r


def show(t, lim=6):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, lim) for x in t) + ")"
        if isinstance(t, frozenset):
            return "{" + ", ".join(sorted(show(x, lim) for x in t)) + "}"
        return repr(t) if not isinstance(t, str) else t
    if lim <= 0:
        return "…"
    k, a = t.k, t.a
    if k == "const":
        return repr(a[0])
    if k == "attr":
        return f"{show(a[0], lim-1)}.{a[1]}"
    if k == "p":
        return a[0]
    if k == "ref":
        return a[0].split(".")[-1]
    if k == "idx":
        return f"{show(a[0], lim-1)}[{show(a[1], lim-1)}]"
    if k == "call":
        args = [show(x, lim-1) for x in a[1]] + [f"{n}={show(v, lim-1)}" for n, v in a[2]]
        return f"{show(a[0], lim-1)}({', '.join(args)})"
    if k == "elem":
        return f"each({show(a[0], lim-1)})"
    if k == "cmp":
        return f"({show(a[1], lim-1)} {a[0]} {show(a[2], lim-1)})"
    if k == "phi":
        return "|".join(sorted(show(x, lim-1) for x in a[0]))
    return f"{k}({', '.join(show(x, lim-1) for x in a)})"


NONE = T("const", None)
TRUE = T("const", True)
FALSE = T("const", False)


def const(v):
    try:
        hash(v)
    except TypeError:
        return T("const", repr(v))
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return T("const", v)
    # keep 1 and True, 1 and 1.0 apart
    return T("const", v, type(v).__name__)


def cval(t):
    return t.a[0]
