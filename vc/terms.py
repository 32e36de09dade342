"""Hash-consed terms over Int, Real and Bool.

Int terms are kept as canonical polynomials over int atoms; Real terms are kept as
n-ary sums/products and only expanded by the prover.  Sums over an index range are binders whose bound
variable is named by nesting depth, so alpha-equivalent sums are the same object."""
from fractions import Fraction
import itertools, sys

sys.setrecursionlimit(200000)
_tab = {}
_cnt = itertools.count()


class T:
    __slots__ = ("op", "a", "sort", "id", "syms", "depth", "_poly", "_h")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    # convenient operators (Int/Real)
    def __add__(self, o): return add(self, lift(o, self.sort))
    def __radd__(self, o): return add(lift(o, self.sort), self)
    def __sub__(self, o): return sub(self, lift(o, self.sort))
    def __rsub__(self, o): return sub(lift(o, self.sort), self)
    def __mul__(self, o): return mul(self, lift(o, self.sort))
    def __rmul__(self, o): return mul(lift(o, self.sort), self)
    def __neg__(self): return neg(self)
    def __truediv__(self, o): return div(self, lift(o, self.sort))
    def __rtruediv__(self, o): return div(lift(o, self.sort), self)
    def __lt__(self, o): return lt(self, lift(o, self.sort))
    def __le__(self, o): return le(self, lift(o, self.sort))
    def __gt__(self, o): return lt(lift(o, self.sort), self)
    def __ge__(self, o): return le(lift(o, self.sort), self)


def lift(x, sort):
    if isinstance(x, T):
        if x.sort == 'I' and sort == 'R':
            return i2r(x)
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, (int, Fraction)):
        return const(x, sort)
    raise TypeError(repr(x))


EMPTY = frozenset()


def mk(op, a, sort):
    key = (op, a, sort)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.a, t.sort = op, a, sort
        t.id = next(_cnt)
        t._poly = None
        if op == 'v':
            t.syms = frozenset((a[0],))
            t.depth = 0
        elif op == 'c':
            t.syms = EMPTY
            t.depth = 0
        elif op == 'app':
            s = {a[0]}
            d = 0
            for x in a[1]:
                s |= x.syms
                d = max(d, x.depth)
            t.syms = frozenset(s)
            t.depth = d
        elif op == 'sum':
            v, lo, hi, body = a
            t.syms = (lo.syms | hi.syms | (body.syms - v.syms))
            t.depth = max(lo.depth, hi.depth, body.depth + 1)
        elif op == 'msum':
            vs, rngs, facs = a
            s = set()
            d = 0
            for lo, hi in rngs:
                s |= lo.syms | hi.syms
                d = max(d, lo.depth, hi.depth)
            for f in facs:
                s |= f.syms
                d = max(d, f.depth)
            for v in vs:
                s.discard(v.a[0])
            t.syms = frozenset(s)
            t.depth = d + 1
        else:
            s = EMPTY
            d = 0
            for x in a:
                if isinstance(x, T):
                    s = s | x.syms if s else x.syms
                    if x.depth > d:
                        d = x.depth
            t.syms = s
            t.depth = d
        _tab[key] = t
    return t


def const(x, sort):
    if sort == 'B':
        return TRUE if x else FALSE
    return mk('c', (Fraction(x),), sort)


TRUE = mk('c', (True,), 'B')
FALSE = mk('c', (False,), 'B')
def I(n): return mk('c', (Fraction(n),), 'I')
def R(x): return mk('c', (Fraction(x),), 'R')
I0, I1, R0, R1 = I(0), I(1), R(0), R(1)


def var(name, sort='I'): return mk('v', (name,), sort)
_fresh = itertools.count()
def fresh(base='k', sort='I'): return var('%s!%d' % (base, next(_fresh)), sort)
def mark(): return next(_fresh)
def made_since(name, m):
    """is this a fresh symbol made after the mark?"""
    if name[0] == '$' or '!' not in name or name.startswith(('seg!', 'last!', 'fold!')): return False
    d = name.split('!', 1)[1].split('@', 1)[0]
    return d.isdigit() and int(d) >= m


def close_over(t, k, m, but=()):
    """fresh symbols made since the mark m stand for a value of iteration k: make them functions of k (but: variables
    that are quantified)"""
    names = {s for s in t.syms if made_since(s, m)} - {x.a[0] for x in but}
    if not names: return t
    memo = {}

    def go(x):
        if not (x.syms & names): return x
        r = memo.get(x.id)
        if r is None:
            if x.op == 'v': r = app(x.a[0] + '@', (k,), x.sort)
            else:
                r = rebuild(x, go)
                if x.op == 'app' and x.a[0] in names: r = app(x.a[0] + '@', (k,) + r.a[1], x.sort)
            memo[x.id] = r
        return r
    return go(t)


def app(name, args, sort='R'): return mk('app', (name, tuple(args)), sort)


def isc(t): return t.op == 'c'
def cval(t): return t.a[0]

# ---------------------------------------------------------------- Int polynomials
def ipoly(t):
    """dict monomial(tuple of atoms sorted by id) -> Fraction (integers)"""
    p = t._poly
    if p is None:
        if t.op == 'c':
            p = {(): t.a[0]} if t.a[0] != 0 else {}
        elif t.op == '+':
            p = {}
            for x in t.a:
                for m, c in ipoly(x).items():
                    n = p.get(m, 0) + c
                    if n: p[m] = n
                    else: p.pop(m, None)
        elif t.op == '*':
            p = {(): Fraction(1)}
            for x in t.a:
                p = pmul(p, ipoly(x))
        else:
            p = {(t,): Fraction(1)}
        t._poly = p
    return p


def pmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = tuple(sorted(m1 + m2, key=_id)) if m1 and m2 else (m1 or m2)
            n = r.get(m, 0) + c1 * c2
            if n: r[m] = n
            else: r.pop(m, None)
    return r


def _id(t): return t.id


def from_ipoly(p):
    if not p:
        return I0
    parts = []
    for m in sorted(p, key=lambda m: tuple(x.id for x in m)):
        c = p[m]
        if not m:
            parts.append(I(c))
        else:
            fs = list(m)
            if c != 1:
                fs = [I(c)] + fs
            parts.append(fs[0] if len(fs) == 1 else mk('*', tuple(fs), 'I'))
    t = parts[0] if len(parts) == 1 else mk('+', tuple(parts), 'I')
    if t._poly is None:
        t._poly = p
    return t


# ---------------------------------------------------------------- arithmetic
def add(*xs):
    sort = 'R' if any(x.sort == 'R' for x in xs) else 'I'
    if sort == 'I':
        p = {}
        for x in xs:
            for m, c in ipoly(x).items():
                n = p.get(m, 0) + c
                if n: p[m] = n
                else: p.pop(m, None)
        return from_ipoly(p)
    c = Fraction(0)
    out = []
    for x in xs:
        x = lift(x, 'R')
        if x.op == 'c':
            c += x.a[0]
        elif x.op == '+':
            for y in x.a:
                if y.op == 'c': c += y.a[0]
                else: out.append(y)
        else:
            out.append(x)
    if len(out) > 1:
        # x - x
        for y in list(out):
            if y.op == '*' and len(y.a) == 2 and y.a[0].op == 'c' and y.a[0].a[0] == -1 and y.a[1] in out and y in out:
                out.remove(y)
                out.remove(y.a[1])
    if c != 0:
        out.append(R(c))
    if not out: return R0
    if len(out) == 1: return out[0]
    return mk('+', tuple(out), 'R')


def neg(x):
    return mul(const(-1, x.sort), x)


def sub(a, b):
    if a is b:
        return const(0, a.sort)
    return add(a, neg(b))


def mul(*xs):
    sort = 'R' if any(x.sort == 'R' for x in xs) else 'I'
    if sort == 'I':
        p = {(): Fraction(1)}
        for x in xs:
            p = pmul(p, ipoly(x))
        return from_ipoly(p)
    c = Fraction(1)
    out = []
    for x in xs:
        x = lift(x, 'R')
        if x.op == 'c':
            c *= x.a[0]
        elif x.op == '*':
            for y in x.a:
                if y.op == 'c': c *= y.a[0]
                else: out.append(y)
        else:
            out.append(x)
    if c == 0: return R0
    if not out: return R(c)
    if c != 1:
        out.insert(0, R(c))
    if len(out) == 1: return out[0]
    return mk('*', tuple(out), 'R')


def inv(x):
    x = lift(x, 'R')
    if x.op == 'c' and x.a[0] != 0:
        return R(1 / x.a[0])
    if x.op == 'inv':
        return x.a[0]
    return mk('inv', (x,), 'R')


def div(a, b):
    return mul(lift(a, 'R'), inv(lift(b, 'R')))


def power(x, n):
    r = const(1, x.sort)
    for _ in range(n): r = mul(r, x)
    return r


def i2r(t):
    if t.sort == 'R': return t
    if t.op == 'c': return R(t.a[0])
    if t.op == 'ite': return ite(t.a[0], i2r(t.a[1]), i2r(t.a[2]))
    if t.op in ('+', '*'):
        r = []
        for m, c in ipoly(t).items():
            r.append(mul(R(c), *[mk('i2r', (x,), 'R') if x.op != 'ite' else i2r(x) for x in m]))
        return add(*r) if r else R0
    return mk('i2r', (t,), 'R')


def r2i(t):
    """truncation toward zero"""
    if t.sort == 'I': return t
    if t.op == 'c': return I(int(t.a[0]))
    if t.op == 'i2r': return t.a[0]
    return mk('r2i', (t,), 'I')


def idiv(a, b):
    """floor division (operands are required non-negative by obligations)"""
    if b.op == 'c' and b.a[0] == 1: return a
    if a.op == 'c' and b.op == 'c' and b.a[0] != 0:
        return I(cval(a) // cval(b))
    if a is b: return I1
    return mk('idiv', (a, b), 'I')


def imod(a, b):
    if a.op == 'c' and b.op == 'c' and b.a[0] != 0:
        return I(cval(a) % cval(b))
    return mk('imod', (a, b), 'I')


def absr(x): return ite(lt(x, const(0, x.sort)), neg(x), x)
def minr(a, b): return ite(lt(b, a), b, a)
def maxr(a, b): return ite(lt(a, b), b, a)


# ---------------------------------------------------------------- booleans
def le0(p):
    """p <= 0 for an Int term"""
    q = ipoly(p)
    if not q: return TRUE
    if len(q) == 1 and () in q:
        return TRUE if q[()] <= 0 else FALSE
    # divide by the gcd of non-constant coefficients (rounding the constant)
    from math import gcd
    g = 0
    for m, c in q.items():
        if m: g = gcd(g, int(abs(c)))
    if g > 1:
        q = {m: (c / g if m else Fraction(-((-int(c)) // g))) for m, c in q.items()}
        # sum(c_i x_i)/g + c/g <= 0  <=>  sum <= floor(-c/g) <=> sum - floor(-c/g) <= 0
        if () in q:
            c = int(p and ipoly(p)[()])
            k = -((-c) // g)
            if k: q[()] = Fraction(k)
            else: q.pop((), None)
        p = from_ipoly(q)
    return mk('le0', (p,), 'B')


def le(a, b):
    if a.sort == 'I' and b.sort == 'I':
        return le0(sub(a, b))
    a, b = lift(a, 'R'), lift(b, 'R')
    if a is b: return TRUE
    if a.op == 'c' and b.op == 'c': return TRUE if a.a[0] <= b.a[0] else FALSE
    return mk('rle', (a, b), 'B')


def lt(a, b):
    if a.sort == 'I' and b.sort == 'I':
        return le0(add(sub(a, b), I1))
    return lnot(le(b, a))


def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)


def eq(a, b):
    if a.sort == 'B' or b.sort == 'B':
        if a is b: return TRUE
        if a is TRUE: return b
        if b is TRUE: return a
        if a is FALSE: return lnot(b)
        if b is FALSE: return lnot(a)
        return mk('beq', (a, b) if a.id < b.id else (b, a), 'B')
    if a.sort == 'I' and b.sort == 'I':
        p = sub(a, b)
        q = ipoly(p)
        if not q: return TRUE
        if len(q) == 1 and () in q: return FALSE
        # canonical sign
        m0 = min(q, key=lambda m: tuple(x.id for x in m) if m else (1 << 60,))
        if q[m0] < 0: p = neg(p)
        return mk('eq0', (p,), 'B')
    a, b = lift(a, 'R'), lift(b, 'R')
    if a is b: return TRUE
    if a.op == 'c' and b.op == 'c': return FALSE
    return mk('req', (a, b) if a.id < b.id else (b, a), 'B')


def ne(a, b): return lnot(eq(a, b))


def lnot(c):
    if c is TRUE: return FALSE
    if c is FALSE: return TRUE
    if c.op == 'not': return c.a[0]
    if c.op == 'le0': return le0(add(neg(c.a[0]), I1))
    if c.op == 'and': return lor(*[lnot(x) for x in c.a])
    if c.op == 'or': return land(*[lnot(x) for x in c.a])
    return mk('not', (c,), 'B')


def land(*xs):
    out = []
    seen = set()
    for x in xs:
        ys = x.a if x.op == 'and' else (x,)
        for y in ys:
            if y is FALSE: return FALSE
            if y is TRUE or y.id in seen: continue
            if lnot(y).id in seen: return FALSE
            seen.add(y.id)
            out.append(y)
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return mk('and', tuple(out), 'B')


def lor(*xs):
    out = []
    seen = set()
    for x in xs:
        ys = x.a if x.op == 'or' else (x,)
        for y in ys:
            if y is TRUE: return TRUE
            if y is FALSE or y.id in seen: continue
            if y.op != 'and' and lnot(y).id in seen: return TRUE
            seen.add(y.id)
            out.append(y)
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return mk('or', tuple(out), 'B')


def implies(a, b): return lor(lnot(a), b)


def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.sort == 'B':
        if a is TRUE and b is FALSE: return c
        if a is FALSE and b is TRUE: return lnot(c)
        return lor(land(c, a), land(lnot(c), b))
    if a.sort != b.sort:
        a, b = lift(a, 'R'), lift(b, 'R')
        if a is b: return a
    if c.op == 'not':
        c, a, b = c.a[0], b, a
    # collapse nested same condition
    if a.op == 'ite' and a.a[0] is c: a = a.a[1]
    if b.op == 'ite' and b.a[0] is c: b = b.a[2]
    if a is b: return a
    return mk('ite', (c, a, b), a.sort)


# ---------------------------------------------------------------- sums
def bvar(d): return var('$%d' % d, 'I')


def mksum(lo, hi, fn, small=10):
    """sum_{lo<=k<hi} fn(k)"""
    d = sub(hi, lo)
    if d.op == 'c':
        n = int(d.a[0])
        if n <= 0: return const(0, fn(lo).sort)
        if n <= small:
            return add(*[fn(add(lo, I(q))) for q in range(n)])
    k = fresh('s')
    body = fn(k)
    return close_sum(k, lo, hi, body)


def close_sum(k, lo, hi, body):
    if body.op == 'c' and body.a[0] == 0:
        return const(0, body.sort)
    v = bvar(body.depth + 1)
    body = subst(body, {k: v})
    return mk('sum', (v, lo, hi, body), body.sort)


# ---------------------------------------------------------------- substitution / rebuild
def rebuild(t, f):
    """apply f to children and rebuild with smart constructors"""
    op = t.op
    if op in ('v', 'c'): return t
    if op == 'app': return app(t.a[0], [f(x) for x in t.a[1]], t.sort)
    if op == '+': return add(*[f(x) for x in t.a])
    if op == '*': return mul(*[f(x) for x in t.a])
    if op == 'inv': return inv(f(t.a[0]))
    if op == 'i2r': return i2r(f(t.a[0]))
    if op == 'r2i': return r2i(f(t.a[0]))
    if op == 'idiv': return idiv(f(t.a[0]), f(t.a[1]))
    if op == 'imod': return imod(f(t.a[0]), f(t.a[1]))
    if op == 'le0': return le0(f(t.a[0]))
    if op == 'eq0': return eq(f(t.a[0]), I0)
    if op == 'rle': return le(f(t.a[0]), f(t.a[1]))
    if op == 'req': return eq(f(t.a[0]), f(t.a[1]))
    if op == 'beq': return eq(f(t.a[0]), f(t.a[1]))
    if op == 'not': return lnot(f(t.a[0]))
    if op == 'and': return land(*[f(x) for x in t.a])
    if op == 'or': return lor(*[f(x) for x in t.a])
    if op == 'ite':
        c = f(t.a[0])
        if c is TRUE: return f(t.a[1])
        if c is FALSE: return f(t.a[2])
        return ite(c, f(t.a[1]), f(t.a[2]))
    if op == 'sum':
        v, lo, hi, body = t.a
        lo2, hi2 = f(lo), f(hi)
        b2 = f(body)
        if lo2 is lo and hi2 is hi and b2 is body: return t
        if b2.depth != body.depth or True:
            # re-close to keep depth-canonical naming
            nv = bvar(b2.depth + 1)
            if nv is not v:
                b2 = subst(b2, {v: nv})
        if b2.op == 'c' and b2.a[0] == 0: return const(0, b2.sort)
        d = sub(hi2, lo2)
        if d.op == 'c' and d.a[0] <= 1:
            return const(0, t.sort) if d.a[0] <= 0 else subst(b2, {nv: lo2})
        return mk('sum', (nv, lo2, hi2, b2), t.sort)
    if op == 'lam':
        return mk('lam', (f(t.a[0]),), 'R')
    if op == 'msum':
        vs, rngs, facs = t.a
        return mk('msum', (vs, tuple((f(l), f(h)) for l, h in rngs), tuple(f(x) for x in facs)), t.sort)
    raise ValueError(op)


def subst(t, m):
    """m: dict var-term (or application) -> term. Bound variables are depth-named; m must not map them unless intended."""
    names = frozenset(v.a[0] for v in m)
    memo = {}

    def go(x):
        if not (x.syms & names):
            return x
        r = memo.get(x.id)
        if r is None:
            if x.op == 'v':
                r = m.get(x, x)
            elif x.op == 'app':
                r = m.get(x)
                if r is None:
                    r = rebuild(x, go)
                    r = m.get(r, r)
            elif x.op == 'sum' and x.a[0] in m:
                v, lo, hi, body = x.a
                m2 = {a: b for a, b in m.items() if a is not v}
                r = mk('sum', (v, go(lo), go(hi), subst(body, m2) if m2 else body), x.sort)
            else:
                r = rebuild(x, go)
            memo[x.id] = r
        return r
    return go(t)


def subst_terms(t, m):
    """replace whole terms (by identity)"""
    memo = {}

    def go(x):
        if x in m: return m[x]
        if x.op in ('v', 'c'): return x
        r = memo.get(x.id)
        if r is None:
            r = rebuild(x, go)
            memo[x.id] = r
        return r
    return go(t)


def subst_app(t, name, fn):
    """replace applications of `name` by fn(args)"""
    memo = {}

    def go(x):
        if name not in x.syms: return x
        r = memo.get(x.id)
        if r is None:
            if x.op == 'app' and x.a[0] == name:
                r = fn(*[go(y) for y in x.a[1]])
            else:
                r = rebuild(x, go)
            memo[x.id] = r
        return r
    return go(t)


def subterms(t, pred, out=None, seen=None):
    if out is None: out, seen = [], set()
    if t.id in seen: return out
    seen.add(t.id)
    if pred(t): out.append(t)
    for x in children(t): subterms(x, pred, out, seen)
    return out


def children(t):
    if t.op in ('v', 'c'): return ()
    if t.op == 'app': return t.a[1]
    if t.op == 'sum': return t.a[1:]
    if t.op == 'msum': return tuple(x for r in t.a[1] for x in r) + t.a[2]
    return t.a


# ---------------------------------------------------------------- printing
def show(t, d=12):
    if d <= 0: return '..'
    op = t.op
    if op == 'v': return t.a[0]
    if op == 'c': return str(t.a[0])
    s = lambda x: show(x, d - 1)
    if op == 'app': return '%s(%s)' % (t.a[0], ','.join(map(s, t.a[1])))
    if op == '+': return '(' + ' + '.join(map(s, t.a)) + ')'
    if op == '*': return '*'.join(map(s, t.a))
    if op == 'inv': return '1/(%s)' % s(t.a[0])
    if op == 'i2r': return 'R[%s]' % s(t.a[0])
    if op == 'le0': return '%s<=0' % s(t.a[0])
    if op == 'eq0': return '%s==0' % s(t.a[0])
    if op == 'rle': return '%s<=%s' % (s(t.a[0]), s(t.a[1]))
    if op in ('req', 'beq'): return '%s==%s' % (s(t.a[0]), s(t.a[1]))
    if op == 'not': return '!(%s)' % s(t.a[0])
    if op in ('and', 'or'): return '(' + (' & ' if op == 'and' else ' | ').join(map(s, t.a)) + ')'
    if op == 'ite': return 'ite(%s, %s, %s)' % tuple(map(s, t.a))
    if op == 'sum': return 'Sum[%s:%s..%s](%s)' % (t.a[0].a[0], s(t.a[1]), s(t.a[2]), s(t.a[3]))
    if op == 'msum': return 'MSum[%s](%s)' % (','.join('%s:%s..%s' % (v.a[0], s(l), s(h)) for v, (l, h) in zip(t.a[0], t.a[1])), '*'.join(map(s, t.a[2])))
    return '%s(%s)' % (op, ','.join(s(x) if isinstance(x, T) else str(x) for x in t.a))
