#!/usr/bin/env python3
"""Engine self-test on micro fixtures (nothing of asyncz is involved)."""
import ast
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa.rec import E, Rec, run  # noqa: E402
from sa.selfproj import fixture  # noqa: E402

CASES = [
    # source, expected set of (exit, sequence)
    ("def f(x):\n    a()\n    if x:\n        return b()\n    c()\n", {("return", ("a", "b")), ("return", ("a", "c"))}),
    ("def f(x):\n    try:\n        r()\n    except ValueError:\n        a()\n    finally:\n        b()\n",
     {("return", ("r", "b")), ("return", ("r!", "a", "b")), ("raise", ("r!", "b"))}),
    ("def f(x):\n    for i in x:\n        if i:\n            break\n        a()\n    else:\n        b()\n",
     {("return", ()), ("return", ("b",)), ("return", ("a",)), ("return", ("a", "b")), ("return", ("a", "a")), ("return", ("a", "a", "b"))}),
    ("def h():\n    a()\ndef f(x):\n    g = h\n    g()\n    while True:\n        if x():\n            return\n        b()\n",
     {("return", ("a",)), ("return", ("a", "b")), ("return", ("a", "b", "b"))}),
    ("from contextlib import contextmanager\n@contextmanager\ndef cm():\n    a()\n    try:\n        yield 1\n    finally:\n        b()\ndef f(x):\n    with cm():\n        c()\n",
     {("return", ("a", "c", "b"))}),
    ("def f(x):\n    match x:\n        case 1:\n            a()\n        case _:\n            b()\n", {("return", ("a",)), ("return", ("b",))}),
    ("def f(x):\n    return a() if x else b()\n", {("return", ("a",)), ("return", ("b",))}),
    ("def f(x):\n    x is None and a()\n    if x is not None:\n        b()\n", {("return", ("a",)), ("return", ("b",))}),
]


def main():
    bad = 0
    for src, want in CASES:
        p = fixture("from ext import a, b, c, r\n" + src)
        cl = Rec(p, [E("a", "a"), E("b", "b"), E("c", "c"), E("r", "r", raises=("builtins.ValueError", "builtins.KeyError"))])
        res, _ = run(p, cl, "asyncz.fix.f")
        got = {(k, st.ts[1]) for k, _, st in res}
        if got != want:
            bad += 1
            print("SELFTEST FAILED on:\n" + src, "\n missing", want - got, "\n extra", got - want)
    print(f"selftest: {len(CASES) - bad}/{len(CASES)} engine fixtures ok (python {sys.version.split()[0]})")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
