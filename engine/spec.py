"""Comparing the path summaries of a function with a stated expectation."""
from ai import *
import models


def runfn(P, fid, args, keep_panics=False, hooks=None, dom=None, loop=2, budget=None, noinline=()):
    ai = AI(P, hooks=hooks or {}, domain=dom, loop=loop, keep_panics=keep_panics)
    if budget:
        ai.budget_steps = budget
    ai.noinline = set(noinline)
    outs = ai.run(fid, args)
    return ai, outs


def last(name):
    return str(name).split('::')[-1]


def app(t, name):
    return t.op == 'app' and last(t.a[0]) == name


def strip(t):
    """see through references to temporaries"""
    while t.op == 'refto':
        t = t.a[0]
    return t


def effects(st):
    """events other than branch decisions, calls and writes to locals"""
    return [e for e in st.events() if e[0] not in ('assume', 'exclude') and not (e[0] == 'w' and e[1].a[0].op in ('L', 'H'))]


def pushes(st, p):
    return [e[2] for e in st.events() if e[0] == 'push' and e[1] is p]


def tri(*xs):
    """conjunction of True / False / None"""
    if any(x is False for x in xs):
        return False
    return None if any(x is None for x in xs) else True


def bools(ai, outs):
    """split boolean results: [(state, 0/1)]"""
    r = []
    for st, t in outs:
        for s, b in ai.fork(st, t):
            r.append((s, int(b)))
    return r
