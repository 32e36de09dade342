"""Simplifications of a goal under the current assumptions that keep its value."""
from .terms import *


def is_junk(t): return t.op == 'app' and t.a[0].startswith('junk!')


def guarded(t):
    """a term that is skipped when a weight is not positive: with w >= 0, if w <= 0 then A else B is B when B is A for w = 0"""
    if t.op != 'ite': return None
    c, a, b = t.a
    if c.op == 'not': c, a, b = c.a[0], b, a
    if c.op != 'rle' or c.a[1] is not R0 or c.a[0].op not in ('v', 'app') or c.a[0] is R0: return None
    w = c.a[0]
    if not (b.syms & w.syms): return None
    return w, a, b


def weights(ctx, t):
    memo, pos = {}, {}

    def go(x):
        if x.op in ('v', 'c'): return x
        r = memo.get(x.id)
        if r is None:
            r = rebuild(x, go)
            g = guarded(r)
            if g:
                w, a, b = g
                if w.id not in pos: pos[w.id] = ctx.entails(le(R0, w))
                if pos[w.id] and (a is b or subst(b, {w: R0}) is a): r = b
            memo[x.id] = r
        return r
    return go(t)


def unjunk(ctx, t):
    """memory that was not initialised but is never reached goes under one name; None if some of it may be reached"""
    if not any(s.startswith('junk!') for s in t.syms): return t
    found, seen = set(), set()

    def reach(x, guards):
        if not any(s.startswith('junk!') for s in x.syms): return True
        if (x.id, guards) in seen: return True
        seen.add((x.id, guards))
        if len(seen) > 4000: return False
        if is_junk(x):
            ctx.push()
            try:
                for g in guards: ctx.assume(g)
                if not ctx.inconsistent(): return False
            finally:
                ctx.pop()
            found.add(x)
            return True
        if x.op == 'ite':
            c, a, b = x.a
            return reach(c, guards) and reach(a, guards + (c,)) and reach(b, guards + (lnot(c),))
        return all(reach(y, guards) for y in children(x))
    if not reach(t, ()): return None
    return subst_terms(t, {x: app('junk?', x.a[1], x.sort) for x in found})


def tidy(p, t):
    u = unjunk(p.ctx, t)
    return weights(p.ctx, t if u is None else u)


def resolve(ctx, t):
    """decide the case distinctions that the assumptions decide"""
    memo = {}

    def go(x):
        if x.op in ('v', 'c'): return x
        r = memo.get(x.id)
        if r is None:
            if x.op == 'ite':
                c = go(x.a[0])
                if c is TRUE or (c is not FALSE and ctx.entails(c)): r = go(x.a[1])
                elif c is FALSE or ctx.entails(lnot(c)): r = go(x.a[2])
                else: r = rebuild(x, go)
            else: r = rebuild(x, go)
            memo[x.id] = r
        return r
    return go(t)
