"""Languages of regular expressions found in the source, compared exactly (over ASCII without newline).

A pattern is parsed, never matched: it becomes a nondeterministic automaton whose alphabet is the characters plus one
opening and one closing mark per named group, so two patterns are equal only if they accept the same words *and* put the
same parts of them into the same groups.  `differ` searches the product of the two subset constructions and returns a
shortest word accepted by exactly one of them.
"""
from __future__ import annotations

import re
from re import _constants as K
from re import _parser as P

ALPHABET = [chr(i) for i in range(1, 127) if chr(i) != "\n"]
CATS = {K.CATEGORY_DIGIT: str.isdigit, K.CATEGORY_NOT_DIGIT: lambda c: not c.isdigit(), K.CATEGORY_SPACE: str.isspace, K.CATEGORY_NOT_SPACE: lambda c: not c.isspace(),
        K.CATEGORY_WORD: lambda c: c.isalnum() or c == "_", K.CATEGORY_NOT_WORD: lambda c: not (c.isalnum() or c == "_")}


class Unsupported(Exception):
    pass


class Nfa:
    def __init__(self):
        self.eps, self.by = {}, {}
        self.n = 0

    def state(self):
        self.n += 1
        return self.n

    def edge(self, a, syms, b):
        if syms is None:
            self.eps.setdefault(a, set()).add(b)
        else:
            for s in syms:
                self.by.setdefault((a, s), set()).add(b)

    def close(self, states):
        out, todo = set(states), list(states)
        while todo:
            for b in self.eps.get(todo.pop(), ()):
                if b not in out:
                    out.add(b)
                    todo.append(b)
        return frozenset(out)

    def step(self, states, s):
        return self.close({b for a in states for b in self.by.get((a, s), ())})


def _chars(op, av, icase):
    def has(c):
        if op is K.LITERAL:
            return c == chr(av)
        if op is K.NOT_LITERAL:
            return c != chr(av)
        if op is K.ANY:
            return True
        if op is K.CATEGORY:
            return CATS[av](c)
        if op is K.RANGE:
            return av[0] <= ord(c) <= av[1]
        if op is K.IN:
            neg = bool(av) and av[0][0] is K.NEGATE
            got = any(_chars(o, a, False)(c) for o, a in av if o is not K.NEGATE)
            return got != neg
        raise Unsupported(str(op))
    if icase:
        return lambda c: has(c) or has(c.lower()) or has(c.upper())
    return has


class Lang:
    def __init__(self, pattern, flags=0, full=True, marks=True):
        self.nfa, self.marks = Nfa(), marks
        tree = P.parse(pattern, flags)
        self.flags = tree.state.flags
        self.names = {v: k for k, v in tree.state.groupdict.items()}
        self.groups = list(tree.state.groupdict)
        items = list(tree)
        ended = bool(items) and items[-1] in ((K.AT, K.AT_END), (K.AT, K.AT_END_STRING))
        if ended:
            items.pop()
        if items and items[0] in ((K.AT, K.AT_BEGINNING), (K.AT, K.AT_BEGINNING_STRING)):
            items.pop(0)
        self.start = self.nfa.state()
        self.end = self.seq(items, self.start)
        if not full and not ended:
            self.nfa.edge(self.end, ALPHABET, self.end)
        self.symbols = {s for _, s in self.nfa.by}

    def seq(self, items, at):
        for op, av in items:
            at = self.one(op, av, at)
        return at

    def one(self, op, av, at):
        n = self.nfa
        if op in (K.LITERAL, K.NOT_LITERAL, K.ANY, K.IN, K.CATEGORY, K.RANGE):
            has = _chars(op, av, bool(self.flags & re.IGNORECASE))
            b = n.state()
            n.edge(at, [c for c in ALPHABET if has(c)], b)
            return b
        if op is K.BRANCH:
            out = n.state()
            for alt in av[1]:
                s = n.state()
                n.edge(at, None, s)
                n.edge(self.seq(alt, s), None, out)
            return out
        if op is K.SUBPATTERN:
            g, add, rem, body = av
            old, self.flags = self.flags, (self.flags | add) & ~rem
            name = self.names.get(g) if self.marks else None
            if name:
                s = n.state()
                n.edge(at, [f"<{name}>"], s)
                at = s
            at = self.seq(body, at)
            if name:
                s = n.state()
                n.edge(at, [f"</{name}>"], s)
                at = s
            self.flags = old
            return at
        if op in (K.MAX_REPEAT, K.MIN_REPEAT, K.POSSESSIVE_REPEAT):
            lo, hi, body = av
            if lo > 32 or hi is not K.MAXREPEAT and hi > 32:
                raise Unsupported("large repetition")
            for _ in range(lo):
                at = self.seq(body, at)
            if hi is K.MAXREPEAT:
                s = n.state()
                n.edge(at, None, s)
                n.edge(self.seq(body, s), None, s)
                return s
            out = n.state()
            n.edge(at, None, out)
            for _ in range(hi - lo):
                at = self.seq(body, at)
                n.edge(at, None, out)
            return out
        raise Unsupported(str(op))

    def accepts(self, states):
        return self.end in states


def differ(a, b):
    """a shortest word (list of symbols) accepted by exactly one of the two languages, or None"""
    sa, sb = a.nfa.close({a.start}), b.nfa.close({b.start})
    seen, todo = {(sa, sb)}, [((sa, sb), ())]
    syms = sorted(a.symbols | b.symbols)
    while todo:
        nxt = []
        for (x, y), w in todo:
            if a.accepts(x) != b.accepts(y):
                return "".join(w), a.accepts(x)
            done = set()
            for s in syms:
                p = a.nfa.step(x, s), b.nfa.step(y, s)
                if p in done or not p[0] and not p[1]:
                    continue
                done.add(p)
                if p not in seen:
                    seen.add(p)
                    nxt.append((p, w + (s,)))
        todo = nxt
    return None


def common(a, b):
    """a shortest word accepted by both, ignoring where group marks fall (both built with marks=False), or None"""
    sa, sb = a.nfa.close({a.start}), b.nfa.close({b.start})
    seen, todo = {(sa, sb)}, [((sa, sb), "")]
    while todo:
        nxt = []
        for (x, y), w in todo:
            if a.accepts(x) and b.accepts(y):
                return w
            for s in ALPHABET:
                p = a.nfa.step(x, s), b.nfa.step(y, s)
                if p[0] and p[1] and p not in seen:
                    seen.add(p)
                    nxt.append((p, w + s))
        todo = nxt
    return None
