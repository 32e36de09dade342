"""Decides equalities / entailments between terms.

* integer and boolean facts: z3 (linear abstraction first, then full nonlinear)
* real equalities: normalisation to polynomials over atoms (Laurent exponents for inverses), with multi-sums
  over symbolic ranges kept in a canonical form; case splitting on undecided conditions; z3 for leftovers."""
import time, itertools
from fractions import Fraction
import z3
from .terms import *
from . import terms as TM


class Split(Exception):
    def __init__(self, cond):
        self.cond = cond


class ParamSplit(Exception):
    """r = q*n + s"""
    def __init__(self, r, n):
        self.r, self.n = r, n


class Undecided(Exception):
    pass


class Refuted(Exception):
    pass


STAT = {'z3': 0, 'z3_time': 0.0, 'norm': 0, 'splits': 0, 'solver_unknown': 0}

# ---------------------------------------------------------------- z3 translation


class Z:
    """translation of terms to z3 (linear=True: monomials become opaque)"""

    def __init__(self, linear):
        self.linear = linear
        self.memo = {}
        self.fns = {}
        self.monos = {}
        self.side = []

    def fn(self, name, n, sort, sorts):
        k = (name, n, sort, sorts)
        f = self.fns.get(k)
        if f is None:
            ss = [{'I': z3.IntSort(), 'R': z3.RealSort(), 'B': z3.BoolSort()}[s] for s in sorts]
            ss.append({'I': z3.IntSort(), 'R': z3.RealSort(), 'B': z3.BoolSort()}[sort])
            f = z3.Function('%s/%d%s%s' % (name, n, sort, ''.join(sorts)), *ss)
            self.fns[k] = f
        return f

    def opaque(self, t):
        n = 'o!%d' % t.id
        return z3.Int(n) if t.sort == 'I' else z3.Real(n) if t.sort == 'R' else z3.Bool(n)

    def cst(self, c, sort):
        if sort == 'I':
            return z3.IntVal(int(c))
        return z3.RealVal(str(c))

    def tr(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self._tr(t)
            self.memo[t.id] = r
        return r

    def _tr(self, t):
        op = t.op
        tr = self.tr
        if op == 'c':
            return z3.BoolVal(t.a[0]) if t.sort == 'B' else self.cst(t.a[0], t.sort)
        if op == 'v':
            n = t.a[0]
            return z3.Int(n) if t.sort == 'I' else z3.Real(n) if t.sort == 'R' else z3.Bool(n)
        if op == 'app':
            if not t.a[1]:
                n = t.a[0] + '()'
                return z3.Int(n) if t.sort == 'I' else z3.Real(n) if t.sort == 'R' else z3.Bool(n)
            return self.fn(t.a[0], len(t.a[1]), t.sort, tuple(x.sort for x in t.a[1]))(*[tr(x) for x in t.a[1]])
        if op == '+':
            xs = [tr(x) for x in t.a]
            return z3.Sum(xs)
        if op == '*':
            cs = [x for x in t.a if x.op == 'c']
            ns = [x for x in t.a if x.op != 'c']
            if self.linear and len(ns) > 1:
                key = tuple(sorted(x.id for x in ns))
                o = self.monos.get(key)
                if o is None:
                    n = 'm!' + '_'.join(map(str, key))
                    o = (z3.Int(n) if t.sort == 'I' else z3.Real(n), ns)
                    self.monos[key] = o
                r = o[0]
            else:
                r = tr(ns[0])
                for x in ns[1:]:
                    r = r * tr(x)
            for c in cs:
                r = tr(c) * r
            return r
        if op == 'inv':
            x = tr(t.a[0])
            if self.linear:
                r = self.opaque(t)
                self.side.append(z3.And(z3.Implies(x > 0, r > 0), z3.Implies(x < 0, r < 0)))
                return r
            r = self.opaque(t)
            self.side.append(z3.Implies(x != 0, x * r == 1))
            return r
        if op == 'i2r':
            return z3.ToReal(tr(t.a[0]))
        if op == 'r2i':
            x = tr(t.a[0])
            r = self.opaque(t)
            rr = z3.ToReal(r)
            self.side.append(z3.If(x >= 0, z3.And(rr <= x, x < rr + 1), z3.And(rr >= x, x > rr - 1)))
            return r
        if op == 'idiv':
            a, b = t.a
            if self.linear and b.op != 'c':
                return self.opaque(t)
            return tr(a) / tr(b)
        if op == 'imod':
            a, b = t.a
            if self.linear and b.op != 'c':
                r = self.opaque(t)
                bb = tr(b)
                self.side.append(z3.Implies(bb > 0, z3.And(r >= 0, r < bb)))
                return r
            return tr(a) % tr(b)
        if op == 'le0':
            return tr(t.a[0]) <= 0
        if op == 'eq0':
            return tr(t.a[0]) == 0
        if op == 'rle':
            return tr(t.a[0]) <= tr(t.a[1])
        if op in ('req', 'beq'):
            return tr(t.a[0]) == tr(t.a[1])
        if op == 'not':
            return z3.Not(tr(t.a[0]))
        if op == 'and':
            return z3.And([tr(x) for x in t.a])
        if op == 'or':
            return z3.Or([tr(x) for x in t.a])
        if op == 'ite':
            return z3.If(tr(t.a[0]), tr(t.a[1]), tr(t.a[2]))
        if op in ('sum', 'msum', 'lam'):
            return self.opaque(t)
        raise ValueError(op)


# axioms: app name -> function(args) -> list of Bool terms (facts about that application)
class Ctx:
    def __init__(self):
        self.facts = []            # Bool terms
        self.z = Z(True)
        self.s = z3.SolverFor('QF_UFLIRA') if False else z3.Solver()
        self.s.set('timeout', 1500)
        self.memo = [{}]
        self.marks = []
        self.subs = [{}]           # equality substitution var -> term
        self.nside = 0
        self.axioms = {}           # app name -> fn
        self.axdone = set()
        self.axstack = []
        self.ngen = 0
        self.foralls = []          # (bound variables, Bool term): universal facts, instantiated on demand
        self.trig = {}             # app name -> fn(args) -> (bound variables, Bool term)

    # -- stack
    def push(self):
        self.marks.append((len(self.facts), len(self.axstack), len(self.foralls)))
        self.memo.append({})
        self.subs.append(dict(self.subs[-1]))
        self.s.push()

    def pop(self):
        n, na, nf = self.marks.pop()
        del self.facts[n:]
        del self.foralls[nf:]
        for k in self.axstack[na:]:
            self.axdone.discard(k)
        del self.axstack[na:]
        self.memo.pop()
        self.subs.pop()
        self.s.pop()

    def _assert(self, t):
        f = self.z.tr(t)
        self._flush()
        self.s.add(f)

    def _flush(self):
        # side conditions are global truths; (re)assert: they were added lazily, so add at current level and
        # keep them in a list to re-add after pops
        for c in self.z.side[self.nside:]:
            pass
        if self.z.side:
            for c in self.z.side:
                self.s.add(c)
            self._perm = getattr(self, '_perm', [])
            self._perm.extend(self.z.side)
            self.z.side = []

    def assume(self, t, prefer=None):
        if t is TRUE:
            return
        if t.op == 'and':
            for x in sorted(t.a, key=lambda x: x.op != 'eq0'):     # equations first: the others are rewritten by them
                self.assume(x)
            return
        t2 = self.app_subs(t)
        if t2.op == 'and':
            for x in sorted(t2.a, key=lambda x: x.op != 'eq0'):
                self.assume(x)
            return
        self.facts.append(t2)
        self.memo[-1] = {}
        self._assert(t2)
        self._axioms(t2)
        if t2.op == 'le0':
            # e <= 0 while e >= 0 is known: an equality, which the rewriting below needs as one
            q = ipoly(t2.a[0])
            if len(q) <= 3 and all(len(m) <= 1 for m in q) and any(m[0].op == 'app' for m in q if m) \
                    and self._quick(le0(mul(I(-1), t2.a[0]))):
                t2 = mk('eq0', (t2.a[0],), 'B')
        if t2.op == 'eq0':
            self._solve(t2, prefer)

    def _quick(self, f):
        if f is TRUE:
            return True
        self._axioms(f)
        nc = self.z.tr(lnot(f))
        self._flush()
        self.s.push()
        self.s.add(nc)
        r = self._check(self.s)
        self.s.pop()
        return r == z3.unsat

    def _solve(self, t, prefer=None):
        p = ipoly(t.a[0])
        # prefer the most recently created plain variable with coefficient +-1
        cand = None
        for m, c in p.items():
            if len(m) == 1 and abs(c) == 1 and (m[0].op == 'v' and m[0].a[0][0] not in '$' or
                                                m[0].op == 'app' and m[0].sort == 'I' and
                                                not any(n[0] == '$' for n in m[0].syms) and
                                                all(not mm or mm == m for mm in p)):
                occ = any(m[0] in mm for mm in p if mm != m)
                inner = any(m[0].a[0] in x.syms for mm in p if mm != m for x in mm)
                if occ or inner:
                    continue
                if cand is None or m[0] is prefer or (
                        cand[0] is not prefer and
                        (m[0].op == 'v', m[0].id) > (cand[0].op == 'v', cand[0].id)):
                    cand = (m[0], c)
        if cand:
            v, c = cand
            rest = from_ipoly({m: -cc / c for m, cc in p.items() if m != (v,)})
            d = self.subs[-1]
            for k in list(d):
                d[k] = subst(d[k], {v: rest})
            d[v] = rest

    def app_subs(self, t):
        d = self.subs[-1]
        if d:
            # only if relevant
            return subst(t, d)
        return t

    def _axioms(self, t):
        if not self.axioms:
            return
        work = [t]
        while work:
            x = work.pop()
            hits = x.syms & self.axioms.keys()
            if not hits:
                continue
            for y in subterms(x, lambda y: y.op == 'app' and y.a[0] in self.axioms):
                if y.id in self.axdone or any(s[0] == '$' for s in y.syms):
                    continue
                self.axdone.add(y.id)
                self.axstack.append(y.id)
                for f in self.axioms[y.a[0]](*y.a[1]):
                    f = self.app_subs(f)
                    if f is TRUE:
                        continue
                    self._assert(f)
                    self.facts.append(f)
                    work.append(f)

    # -- queries
    def entails(self, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return self.inconsistent()
        for m in self.memo:
            r = m.get(c.id)
            if r is True:
                return True
        r = self.memo[-1].get(c.id)
        if r is not None:
            return r
        r = self._entails(self.app_subs(c))
        self.memo[-1][c.id] = r
        return r

    def _check(self, s, *asm):
        t0 = time.time()
        r = s.check(*asm)
        STAT['z3'] += 1
        STAT['z3_time'] += time.time() - t0
        return r

    def _entails(self, c, nonlin=True):
        if c is TRUE:
            return True
        if c is FALSE:
            return self.inconsistent()
        if c.op == 'and':
            return all(self._entails(x) for x in c.a)
        self._axioms(c)
        nc = self.z.tr(lnot(c))
        self._flush()
        self.s.push()
        self.s.add(nc)
        r = self._check(self.s)
        self.s.pop()
        if r == z3.unsat:
            return True
        if not nonlin:
            return False
        # nonlinear needed?
        if not self._nonlinear(c):
            if not any(self._nonlinear(f) for f in self.facts if f.syms & c.syms):
                return False
        return self._full(c)

    def _nonlinear(self, t):
        return bool(subterms(t, lambda x: (x.op == '*' and sum(1 for y in x.a if y.op != 'c') > 1)
                             or x.op in ('inv', 'r2i') or (x.op in ('idiv', 'imod') and x.a[1].op != 'c')))

    def relevant(self, c):
        """facts sharing symbols (transitively) with c"""
        syms = set(c.syms)
        rest = list(self.facts)
        out = []
        changed = True
        while changed:
            changed = False
            nr = []
            for f in rest:
                if f.syms & syms or not f.syms:
                    out.append(f)
                    if not (f.syms <= syms):
                        syms |= f.syms
                        changed = True
                else:
                    nr.append(f)
            rest = nr
        return out

    def _full(self, c, timeout=800):
        z = Z(False)
        s = z3.Solver()
        s.set('timeout', timeout)
        fs = self.relevant(c)
        for f in fs:
            s.add(z.tr(f))
        s.add(z.tr(lnot(c)))
        for e in z.side:
            s.add(e)
        for e in product_lemmas(fs + [lnot(c)]):
            s.add(z.tr(e))
        r = self._check(s)
        if r == z3.unknown:
            STAT['solver_unknown'] += 1
        return r == z3.unsat

    def inconsistent(self):
        r = self.memo[-1].get('inc')
        if r is None:
            self._flush()
            r = self._check(self.s) == z3.unsat
            if not r and any(self._nonlinear(f) for f in self.facts):
                r = self._full(FALSE)
            self.memo[-1]['inc'] = r
        return r

    def decide(self, c):
        """True / False / None"""
        if c is TRUE: return True
        if c is FALSE: return False
        if self.entails(c): return True
        if self.entails(lnot(c)): return False
        return None


def product_lemmas(fs):
    """for pairs of linear int facts a<=0, b<=0: a*b >= 0, restricted to facts whose product creates monomials
    that already occur"""
    monos = set()
    lin = []
    for f in fs:
        for x in subterms(f, lambda x: x.op in ('le0', 'eq0')):
            p = ipoly(x.a[0])
            for m in p:
                if len(m) > 1:
                    monos.add(m)
    if not monos:
        return []
    ats = set()
    for m in monos:
        ats |= set(m)
    for f in fs:
        if f.op == 'le0':
            p = ipoly(f.a[0])
            if all(len(m) <= 1 for m in p) and any(m and m[0] in ats for m in p):
                lin.append(f.a[0])
    out = []
    for i in range(len(lin)):
        for j in range(i, len(lin)):
            q = mul(lin[i], lin[j])
            ms = [m for m in ipoly(q) if len(m) > 1]
            if ms and sum(1 for m in ms if m in monos) * 2 >= len(ms):
                out.append(le(I0, q))
                if len(out) > 60:
                    return out
    return out


# ---------------------------------------------------------------- real polynomials
# poly: dict  mono -> Fraction ;  mono: tuple of (atom, exp) sorted by atom.id, exp Int != 0

ONE = ()


def p_const(c):
    c = Fraction(c)
    return {ONE: c} if c else {}


def p_add(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        n = r.get(m, 0) + k * c
        if n: r[m] = n
        else: r.pop(m, None)
    return r


def m_mul(m1, m2):
    if not m1: return m2
    if not m2: return m1
    d = dict(m1)
    for a, e in m2:
        n = d.get(a, 0) + e
        if n: d[a] = n
        else: del d[a]
    return tuple(sorted(d.items(), key=lambda x: x[0].id))


def p_mul(p, q):
    if len(p) > len(q): p, q = q, p
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = m_mul(m1, m2)
            n = r.get(m, 0) + c1 * c2
            if n: r[m] = n
            else: r.pop(m, None)
    return r


def p_scale(p, c):
    return {m: x * c for m, x in p.items()} if c else {}


def p_atom(a, e=1):
    return {((a, e),): Fraction(1)}


def p_term(p):
    """poly -> canonical Real term"""
    if not p: return R0
    parts = []
    for m in sorted(p, key=lambda m: tuple((a.id, e) for a, e in m)):
        fs = [R(p[m])] if p[m] != 1 or not m else []
        for a, e in m:
            x = a if e > 0 else mk('inv', (a,), 'R')
            fs += [x] * abs(e)
        parts.append(fs[0] if len(fs) == 1 else mk('*', tuple(fs), 'R'))
    return parts[0] if len(parts) == 1 else mk('+', tuple(parts), 'R')


_vc = itertools.count()


class Prover:
    def __init__(self, ctx=None):
        self.ctx = ctx or Ctx()
        self.memo = [{}]
        self.budget = 4000
        self.trace = None
        self.rewr = {}        # app name -> fn(args) -> term or None   (defining equations used for rewriting)
        self.deadline = None

    # -------- simplification of Int / Bool terms under ctx
    def push(self):
        self.ctx.push()
        self.memo.append({})

    def pop(self):
        self.ctx.pop()
        self.memo.pop()

    def assume(self, c, prefer=None):
        self.ctx.assume(c, prefer)
        self.memo[-1] = {}

    def simp_int(self, t):
        """normalise an Int term: resolve ites, simplify idiv/imod; raises Split/ParamSplit"""
        if t.op in ('c', 'v'):
            if t.op == 'v' and t in self.ctx.subs[-1]:
                return self.simp_int(self.ctx.subs[-1][t])
            return t
        key = ('i', t.id)
        for m in self.memo:
            r = m.get(key)
            if r is not None:
                return r
        t0 = t
        op = t.op
        if op == 'ite':
            r = self.simp_int(t.a[1] if self.cond(t.a[0]) else t.a[2])
        elif op in ('+', '*'):
            xs = [self.simp_int(x) for x in t.a]
            r = add(*xs) if op == '+' else mul(*xs)
        elif op in ('idiv', 'imod'):
            r = self.divmod(op, self.simp_int(t.a[0]), self.simp_int(t.a[1]))
        elif op == 'app':
            r = self.simp_app(t)
            if r.sort == 'I' and r is not t and r.op != 'app':
                r = self.simp_int(r)
        elif op == 'r2i':
            x = t.a[0]
            p = self.norm(x)
            y = p_term(p)
            r = r2i(i2r_fold(y))
        elif op == 'sum':
            r = self.int_sum(t)
        else:
            r = t
        self.memo[-1][('i', t0.id)] = r
        return r

    def int_sum(self, t):
        # integer sums: simplify the body only
        v, lo, hi, body = t.a
        lo, hi = self.simp_int(lo), self.simp_int(hi)
        d = sub(hi, lo)
        if d.op == 'c' and cval(d) <= 6:
            return self.simp_int(add(I0, *[subst(body, {v: add(lo, I(q))}) for q in range(int(cval(d)))]))
        if self.ctx.entails(le(hi, lo)):
            return I0
        k = fresh('k')
        b = subst(body, {v: k})
        self.push()
        self.assume(le(lo, k)); self.assume(lt(k, hi))
        try:
            b = self.simp_int(b)
        except Split as s:
            if k.a[0] in s.cond.syms:
                b = b
            else:
                raise
        finally:
            self.pop()
        if k.a[0] not in b.syms and self.ctx.entails(le(lo, hi)):
            return mul(b, sub(hi, lo))
        p = ipoly(b)
        if len(p) > 1:
            return add(*[close_sum(k, lo, hi, from_ipoly({m: c})) for m, c in p.items()])
        return close_sum(k, lo, hi, b)

    def simp_app(self, t):
        name, args = t.a
        na = []
        for x in args:
            if x.sort == 'I':
                na.append(self.simp_int(x))
            elif x.sort == 'R' and x.op != 'lam':
                na.append(p_term(self.norm(x)))
            elif x.op == 'lam' and na and na[0].sort == 'I':
                na.append(self.lam_norm(na[0], x))
            else:
                na.append(x)
        f = self.rewr.get(name)
        if f is not None:
            r = f(self, *na)
            if r is not None:
                return r
        return app(name, na, t.sort)

    def lam_norm(self, n, x):
        """entries of an n x n matrix argument in normal form (case split on the position kept as ite)"""
        key = ('lam', x.id)
        for m in self.memo:
            if key in m: return m[key]
        if getattr(self, 'inlam', False): return x
        r, c, body = var('#r'), var('#c'), x.a[0]
        names = {'#r', '#c'}
        self.inlam = True

        def go(d):
            try:
                return p_term(self.norm(body))
            except Split as s:
                q = s.cond
                if not (names & q.syms): raise
                if not d: raise Undecided('too many cases for the entries of a matrix')
            if q.op == 'not': q = q.a[0]
            t = []
            for y in (q, lnot(q)):
                self.push()
                try:
                    self.assume(y)
                    t.append(go(d - 1))
                finally:
                    self.pop()
            return ite(q, *t)
        self.push()
        try:
            for y in (r, c):
                self.assume(le(I0, y)); self.assume(lt(y, n))
            try:
                out = mk('lam', (go(4),), 'R')
            except (Undecided, ParamSplit):
                out = x
        finally:
            self.inlam = False
            self.pop()
        self.memo[-1][key] = out
        return out

    def divmod(self, op, a, b):
        if b.op == 'c' and a.op == 'c':
            return idiv(a, b) if op == 'idiv' else imod(a, b)
        pa, pb = ipoly(a), ipoly(b)
        ctx = self.ctx
        if ctx.entails(le(I0, a)) and ctx.entails(lt(a, b)):
            return I0 if op == 'idiv' else a
        # candidate quotient: collect monomials of a divisible by leading monomial of b
        q = {}
        if len(pb) == 1:
            (mb, cb), = pb.items()
            for m, c in pa.items():
                rest = m_div(m, mb)
                if rest is not None and c % cb == 0:
                    q[rest] = c / cb
            if q:
                qt = from_ipoly(q)
                rem = sub(a, mul(qt, b))
                # try the remainder and neighbours
                for dq in (0, 1, -1, 2):
                    rr = sub(rem, mul(I(dq), b))
                    if ctx.entails(le(I0, rr)) and ctx.entails(lt(rr, b)):
                        return add(qt, I(dq)) if op == 'idiv' else rr
        for dq in (1, -1):
            rr = sub(a, mul(I(dq), b))
            if ctx.entails(le(I0, rr)) and ctx.entails(lt(rr, b)):
                return I(dq) if op == 'idiv' else rr
        if len(pb) > 1:
            # polynomial divisor: try small quotients built from a's structure
            for qt in self.quot_cands(pa, pb):
                rr = sub(a, mul(qt, b))
                if ctx.entails(le(I0, rr)) and ctx.entails(lt(rr, b)):
                    return qt if op == 'idiv' else rr
        if ctx.decide(le(I0, a)) is None:
            raise Split(le(I0, a))
        if a.op == 'v' and ctx.entails(lt(I0, b)) and ctx.entails(le(I0, a)) and a.a[0][0] != '$':
            raise ParamSplit(a, b)
        return idiv(a, b) if op == 'idiv' else imod(a, b)

    def quot_cands(self, pa, pb):
        out = []
        lb = max(pb, key=lambda m: (len(m), tuple(x.id for x in m)))
        for m, c in pa.items():
            r = m_div(m, lb)
            if r is not None and c % pb[lb] == 0:
                out.append(from_ipoly({r: c / pb[lb]}))
        if len(out) > 1:
            out.append(add(*out))
        return out

    def cond(self, c):
        """decide a condition, else raise Split"""
        r = self.tri(c)
        if r is None:
            raise Split(self.pick(c))
        return r

    def tri(self, c):
        if c is TRUE: return True
        if c is FALSE: return False
        if c.op == 'not':
            r = self.tri(c.a[0])
            return None if r is None else not r
        if c.op == 'and':
            und = False
            for x in c.a:
                r = self.tri(x)
                if r is False: return False
                if r is None: und = True
            return None if und else True
        if c.op == 'or':
            und = False
            for x in c.a:
                r = self.tri(x)
                if r is True: return True
                if r is None: und = True
            return None if und else False
        key = ('b', c.id)
        for m in self.memo:
            if key in m and m[key] is not None:
                return m[key]
        if key in self.memo[-1]:
            return self.memo[-1][key]
        r = self.tri_atom(c)
        self.memo[-1][key] = r
        return r

    def tri_atom(self, c):
        c2 = self.simp_bool(c)
        if c2 is TRUE: return True
        if c2 is FALSE: return False
        if c2 is not c and c2.op in ('and', 'or', 'not', 'ite'):
            return self.tri(c2)
        r = self.ctx.decide(c2)
        return r

    def simp_bool(self, c):
        op = c.op
        if op == 'le0':
            return le0(self.simp_int(c.a[0]))
        if op == 'eq0':
            return eq(self.simp_int(c.a[0]), I0)
        if op in ('req', 'rle'):
            a, b = self.norm(c.a[0]), self.norm(c.a[1])
            d = p_add(a, b, -1)
            if not d:
                return TRUE
            if len(d) == 1 and ONE in d:
                if op == 'req':
                    return FALSE
                return TRUE if d[ONE] <= 0 else FALSE
            # keep constants on the right
            k = d.pop(ONE, Fraction(0))
            lt_ = p_term(d)
            return eq(lt_, R(-k)) if op == 'req' else le(lt_, R(-k))
        if op == 'app':
            return self.simp_app(c)
        if op == 'beq':
            a, b = self.tri(c.a[0]), self.tri(c.a[1])
            if a is None: raise Split(self.pick(c.a[0]))
            if b is None: raise Split(self.pick(c.a[1]))
            return TRUE if a == b else FALSE
        if op == 'ite':
            return c.a[1] if self.cond(c.a[0]) else c.a[2]
        return c

    def pick(self, c):
        """an undecided atomic part of c"""
        if c.op in ('and', 'or'):
            for x in c.a:
                if self.tri(x) is None:
                    return self.pick(x)
        if c.op == 'not':
            return self.pick(c.a[0])
        if c.op == 'beq':
            for x in c.a:
                if self.tri(x) is None:
                    return self.pick(x)
        c2 = self.simp_bool(c)
        if c2 is not c and c2.op in ('and', 'or', 'not', 'ite', 'beq'):
            return self.pick(c2)
        return c2 if c2 not in (TRUE, FALSE) else c

    # -------- normalisation of Real terms
    def norm(self, t):
        if t.op == 'c':
            return p_const(t.a[0])
        key = ('r', t.id)
        for m in self.memo:
            r = m.get(key)
            if r is not None:
                return r
        self.budget_tick()
        r = self._norm(t)
        self.memo[-1][key] = r
        return r

    def budget_tick(self):
        STAT['norm'] += 1
        if self.deadline and (STAT['norm'] & 63) == 0 and time.time() > self.deadline:
            raise Undecided('time budget exhausted')

    def _norm(self, t):
        op = t.op
        if op == 'v':
            return p_atom(t)
        if op == '+':
            r = {}
            for x in t.a:
                r = p_add(r, self.norm(x))
            return r
        if op == '*':
            # zero factors first
            ps = []
            for x in t.a:
                p = self.norm(x)
                if not p:
                    return {}
                ps.append(p)
            ps.sort(key=len)
            r = ps[0]
            for p in ps[1:]:
                r = p_mul(r, p)
            return r
        if op == 'ite':
            return self.norm(t.a[1] if self.cond(t.a[0]) else t.a[2])
        if op == 'i2r':
            x = self.simp_int(t.a[0])
            y = i2r(x)
            if y.op == 'i2r':
                z = y.a[0]
                if z.op == 'sum':
                    v, lo, hi, body = z.a
                    return self.norm(mk('sum', (v, lo, hi, i2r(body)), 'R'))
                return p_atom(y)
            return self.norm_arith(y)
        if op == 'inv':
            return self.p_inv(self.norm(t.a[0]))
        if op == 'app':
            r = self.simp_app(t)
            if r.op == 'app':
                return p_atom(r)
            return self.norm(r)
        if op == 'sum':
            return self.norm_sum(t)
        if op == 'msum':
            if t.id in CANON:
                return p_atom(t)
            vs, rngs, facs = t.a
            ren = {v: fresh('k') for v in vs}
            b = mul(*[subst(f, ren) for f in facs])
            for v, (lo, hi) in list(zip(vs, rngs))[::-1]:
                b = close_sum(ren[v], subst(lo, ren), subst(hi, ren), b)
            return self.norm(b)
        raise ValueError('norm ' + op)

    def norm_arith(self, y):
        if y.op == '+':
            r = {}
            for x in y.a:
                r = p_add(r, self.norm_arith(x))
            return r
        if y.op == '*':
            r = p_const(1)
            for x in y.a:
                r = p_mul(r, self.norm_arith(x))
            return r
        if y.op == 'i2r':
            return p_atom(y)
        return self.norm(y)

    def p_inv(self, p):
        if len(p) == 1:
            (m, c), = p.items()
            return {tuple((a, -e) for a, e in m): 1 / c}
        if not p:
            raise Undecided('inverse of zero')
        # content: make leading coefficient 1 and strip common monomial
        common = None
        for m in p:
            d = dict(m)
            if common is None:
                common = d
            else:
                common = {a: min(e, d.get(a, 0)) for a, e in common.items()}
                for a, e in d.items():
                    if e < 0 and a not in common:
                        common[a] = e
                # atoms absent in earlier monos with negative exps handled; absent positives -> 0
                for a in list(common):
                    if a not in d and common[a] > 0:
                        common[a] = 0
        # second pass to get proper minimum over all monos
        ats = set(a for m in p for a, _ in m)
        cm = tuple(sorted(((a, min(dict(m).get(a, 0) for m in p)) for a in ats), key=lambda x: x[0].id))
        cm = tuple((a, e) for a, e in cm if e)
        icm = tuple((a, -e) for a, e in cm)
        q = {m_mul(m, icm): c for m, c in p.items()}
        lead = min(q, key=lambda m: tuple((a.id, e) for a, e in m))
        lc = q[lead]
        q = {m: c / lc for m, c in q.items()}
        at = p_term(q)      # '+' term as atom for inverse
        POLY[at.id] = q
        base = {((at, -1),): 1 / lc}
        return {m_mul(m, icm): c for m, c in base.items()}

    # -------- sums
    def norm_sum(self, t):
        v, lo, hi, body = t.a
        lo, hi = self.simp_int(lo), self.simp_int(hi)
        ctx = self.ctx
        d = sub(hi, lo)
        if d.op == 'c':
            n = int(cval(d))
            if n <= 0: return {}
            if n <= 8:
                r = {}
                for q in range(n):
                    r = p_add(r, self.norm(subst(body, {v: add(lo, I(q))})))
                return r
        if ctx.entails(le(hi, lo)):
            return {}
        if not ctx.entails(lt(lo, hi)):
            if ctx.decide(lt(lo, hi)) is None and not ctx.entails(le(lo, hi)):
                raise Split(lt(lo, hi))
        k = fresh('k')
        b = subst(body, {v: k})
        self.push()
        self.assume(le(lo, k)); self.assume(lt(k, hi))
        try:
            p = self.norm(b)
        except Split as s:
            self_c = s.cond
            p = None
        except ParamSplit as s:
            if k.a[0] in s.r.syms or k.a[0] in s.n.syms:
                raise Undecided('division by parameter inside a sum')
            raise
        finally:
            self.pop()
        if p is None:
            if k.a[0] not in self_c.syms:
                raise Split(self_c)
            return self.split_sum(k, lo, hi, b, self_c)
        return self.dist(k, lo, hi, p)

    def split_sum(self, k, lo, hi, b, c):
        """condition c mentions k: split the range"""
        STAT['splits'] += 1
        if c.op == 'not':
            c = c.a[0]
        if c.op not in ('le0', 'eq0'):
            raise Undecided('condition %s on a summation index' % c)
        p = ipoly(c.a[0])
        lin = p.get((k,))
        others = [m for m in p if m != (k,) and any(k.a[0] in x.syms for x in m)]
        if lin is None or abs(lin) != 1 or others:
            # k*n forms: k = idiv
            raise Undecided('nonlinear condition %s on a summation index' % c)
        rest = from_ipoly({m: x for m, x in p.items() if m != (k,)})   # lin*k + rest (<=|==) 0
        bt = assume_subst(b, c, True)
        if bt is b:
            b = self.simp_atoms(k, lo, hi, b)
            bt = assume_subst(b, c, True)
        bf = assume_subst(b, c, False)
        if bt is b and bf is b:
            raise Undecided('condition %s does not occur in the body of the sum' % c)
        if c.op == 'eq0':
            e = mul(I(-lin), rest)           # k == e
            inr = land(le(lo, e), lt(e, hi))
            r = self.tri(inr)
            if r is None:
                raise Split(self.pick(inr))
            if r is False:
                return self.norm(close_sum(k, lo, hi, bf))
            at = subst(bt, {k: e})
            # sum_k ite(k==e,t,f) = sum_k f + t(e) - f(e)
            full = self.norm(close_sum(k, lo, hi, bf))
            return p_add(p_add(full, self.norm(at)), self.norm(subst(bf, {k: e})), -1)
        # le0:  lin=1: k <= -rest -> true on [lo, e+1) ; lin=-1: k >= rest -> true on [rest, hi)
        if lin == 1:
            mid = add(neg(rest), I1)
            first, second = bt, bf
        else:
            mid = rest
            first, second = bf, bt
        x = self.tri(le(mid, lo))
        if x is None: raise Split(self.pick(le(mid, lo)))
        if x: return self.norm(close_sum(k, lo, hi, second))
        y = self.tri(le(hi, mid))
        if y is None: raise Split(self.pick(le(hi, mid)))
        if y: return self.norm(close_sum(k, lo, hi, first))
        return p_add(self.norm(close_sum(k, lo, mid, first)), self.norm(close_sum(k, mid, hi, second)))

    def simp_atoms(self, k, lo, hi, b):
        """b with its index conditions in the simplified form in which they are reported by Split"""
        self.push()
        self.assume(le(lo, k)); self.assume(lt(k, hi))
        m = {}
        try:
            for a in subterms(b, lambda x: x.op in ('le0', 'eq0')):
                try:
                    x = self.simp_bool(a)
                    if x is not a: m[a] = x
                except (Split, ParamSplit): pass
        finally:
            self.pop()
        return subst_terms(b, m) if m else b

    def dist(self, k, lo, hi, p):
        """sum_k p as polynomial of canonical atoms"""
        r = {}
        kn = k.a[0]
        for m, c in p.items():
            out, inn = [], []
            for a, e in m:
                (inn if kn in a.syms else out).append((a, e))
            if not inn:
                # count = hi-lo (>=0 known or decided)
                n = self.norm(i2r(sub(hi, lo)))
                if not self.ctx.entails(le(lo, hi)):
                    raise Split(le(lo, hi))
                r = p_add(r, p_mul({tuple(out): c}, n))
                continue
            # merge msums that depend on k
            vs, rngs, facs = [k], [(lo, hi)], []
            for a, e in inn:
                if a.op == 'msum':
                    if e < 0:
                        raise Undecided('inverse of a sum inside a sum')
                    for _ in range(e):
                        ren = {x: fresh('k') for x in a.a[0]}
                        vs += [ren[x] for x in a.a[0]]
                        rngs += [(subst(l, ren), subst(h, ren)) for l, h in a.a[1]]
                        facs += [(subst(f, ren)) for f in a.a[2]]
                else:
                    x = a if e > 0 else mk('inv', (a,), 'R')
                    if a.op == '+' and e < 0:
                        x = mk('inv', (a,), 'R')
                    facs += [x] * abs(e)
            atoms = canon_msum(vs, rngs, facs)
            mono = tuple(out)
            for a in atoms:
                mono = m_mul(mono, ((a, 1),))
            r = p_add(r, {mono: c})
        return r

    # -------- goals
    def zero(self, p):
        if not p: return True
        # clear polynomial inverses
        for _ in range(6):
            dens = {}
            for m in p:
                for a, e in m:
                    if e < 0 and a.id in POLY:
                        dens[a] = min(dens.get(a, 0), e)
            if not dens:
                break
            a, e = next(iter(dens.items()))
            q = {}
            pa = POLY[a.id]
            for m, c in p.items():
                d = dict(m)
                x = d.pop(a, 0)
                mono = {tuple(sorted(d.items(), key=lambda z: z[0].id)): c}
                for _ in range(x - e):
                    mono = p_mul(mono, pa)
                q = p_add(q, mono)
            p = q
            if not p: return True
        return False

    def eq_real(self, a, b):
        p = p_add(self.norm(a), self.norm(b), -1)
        if self.zero(p):
            return True
        # congruence: atoms with args provably equal
        p2 = self.congr(p)
        if p2 is not None and self.zero(p2):
            return True
        p3 = self.tile(p)
        if p3 is not None and self.zero(p3):
            return True
        if self.ctx.inconsistent():
            return True
        t = p_term(p)
        if len(p) <= 60 and self.ctx._full(eq(t, R0), 1500):
            return True
        self.residual = p
        return False

    def congr(self, p):
        atoms = sorted({a for m in p for a, _ in m if a.op == 'app' or a.op == 'i2r'}, key=lambda a: a.id)
        m = {}
        for i in range(len(atoms)):
            if atoms[i] in m: continue
            for j in range(i + 1, len(atoms)):
                x, y = atoms[i], atoms[j]
                if y in m or x.op != y.op: continue
                if x.op == 'i2r':
                    ok = self.ctx.entails(eq(x.a[0], y.a[0]))
                else:
                    if x.a[0] != y.a[0] or len(x.a[1]) != len(y.a[1]): continue
                    ok = True
                    for u, w in zip(x.a[1], y.a[1]):
                        if u is w: continue
                        if u.sort == 'I' and w.sort == 'I':
                            if not self.ctx.entails(eq(u, w)): ok = False; break
                        elif u.op == 'lam' or w.op == 'lam':
                            if u.op != w.op or not self.lam_eq(u, w, x.a[1][0]): ok = False; break
                        elif u.sort == 'R' and w.sort == 'R':
                            if not self.zero(p_add(self.norm(u), self.norm(w), -1)): ok = False; break
                        else:
                            ok = False; break
                if ok: m[y] = x
        if not m: return None
        r = {}
        for mono, c in p.items():
            mm = ()
            for a, e in mono:
                mm = m_mul(mm, ((m.get(a, a), e),))
            r = p_add(r, {mm: c})
        return r

    def lam_eq(self, u, w, n):
        r, c = fresh('r'), fresh('c')
        m = {var('#r'): r, var('#c'): c}
        self.push()
        try:
            for x in (r, c):
                self.assume(le(I0, x)); self.assume(lt(x, n))
            try:
                return self._prove(eq(subst(u.a[0], m), subst(w.a[0], m)), 12)
            except Undecided:
                return False
        finally:
            self.pop()

    def tile(self, p):
        """single sums with equal factors over adjacent ranges: compare after anchoring all ranges at 0"""
        return None

    def prove(self, goal, depth=24):
        """goal: Bool term.  Universal facts are instantiated at the index terms of the goal when it does not follow
        without them"""
        if not self.ctx.foralls and not self.ctx.trig and not any(
                subterms(t, lambda y: y.op == 'sum' and y.sort == 'I')
                for t in [goal] + [f for f in self.ctx.facts if f.syms & goal.syms]):
            return self._prove(goal, depth)
        err = None
        try:
            if self._prove(goal, depth): return True
        except Undecided as u:
            err = u
        for stage in (1, 2):
            self.push()
            try:
                g = self.unify_sums(goal)
                n = self.instantiate(g, stage)
                if not n and g is goal and stage == 2: break
                if self._prove(g, depth): return True
            except Undecided as u:
                err = u
            finally:
                self.pop()
        if err: raise err
        return False

    def pool(self, goal, stage):
        pool, seen, trigs = [], set(), []

        def add_(a):
            a = self.ctx.app_subs(a)
            if a.id not in seen and a.op != 'c' and not any(n[0] == '$' for n in a.syms):
                seen.add(a.id)
                pool.append(a)

        def scan(t):
            for x in subterms(t, lambda x: x.sort == 'I' and x.op == 'v' or x.op == 'app'):
                if any(n[0] == '$' for n in x.syms): continue
                if x.op == 'app':
                    if x.a[0] in self.ctx.trig:
                        if x.id not in seen: trigs.append(self.ctx.trig[x.a[0]](*x.a[1]))
                        add_(x)
                    elif len(x.a[1]) <= 4:
                        for a in x.a[1]:
                            if a.sort == 'I' and a.op in ('v', 'app'): add_(a)
                else:
                    add_(x)
        scan(self.ctx.app_subs(goal))
        if stage == 2:
            for f in self.ctx.relevant(goal):
                if len(pool) < 10: scan(f)
        return sorted(pool, key=lambda t: (t.op != 'v', t.id))[:12], trigs

    def instantiate(self, goal, stage):
        pool, trigs = self.pool(goal, stage)
        n = 0
        for vs, body in self.ctx.foralls + trigs:
            for tup in itertools.product(pool, repeat=len(vs)):
                b = self.ctx.app_subs(subst(body, dict(zip(vs, tup))))
                if b is TRUE: continue
                self.assume(b)
                n += 1
                if n > 300: return n
        return n

    def same_sum(self, y, r):
        """the bodies of two sums agree throughout the range of the first"""
        l = fresh('l')
        self.push()
        try:
            self.assume(le(I0, l))
            self.assume(lt(l, y.a[2]))
            for vs, body in self.ctx.foralls:
                if len(vs) == 1: self.assume(self.ctx.app_subs(subst(body, {vs[0]: l})))
            return self._prove(eq(subst(y.a[3], {y.a[0]: l}), subst(r.a[3], {r.a[0]: l})), 10)
        except Undecided:
            return False
        finally:
            self.pop()

    def unify_sums(self, goal):
        """sums of integers: identify bodies that are equal throughout the range, and state monotonicity of prefix sums"""
        goal = self.ctx.app_subs(goal)
        S = {}
        for t in [goal] + self.ctx.relevant(goal):
            for y in subterms(t, lambda y: y.op == 'sum' and y.sort == 'I' and y.a[1] is I0):
                if any(n[0] == '$' for n in y.syms): continue
                S.setdefault((y.a[0].id, y.a[3].id), []).append(y)
        if not S: return goal
        groups = sorted(S.values(), key=lambda g: 'seg!%d!%d' % (g[0].a[3].id, g[0].a[0].id) not in self.rewr)
        reps, m = [], {}
        for g in groups:
            rest = list({y.id: y for y in g}.values())
            for r in reps:
                for y in list(rest):
                    if not self.same_sum(y, r[0]): continue
                    m[y] = mk('sum', (r[0].a[0], y.a[1], y.a[2], r[0].a[3]), 'I')
                    r.append(m[y])
                    rest.remove(y)
            if rest: reps.append(rest)
        for r in reps:
            v, body = r[0].a[0], r[0].a[3]
            l = fresh('l')
            self.push()
            try:
                self.assume(le(I0, l))
                ok = self._prove(le(I0, subst(body, {v: l})), 6)
            except Undecided:
                ok = False
            finally:
                self.pop()
            if not ok: continue
            his = list({y.a[2].id: y.a[2] for y in r}.values())[:6]
            P = lambda h: mk('sum', (v, I0, h, body), 'I')
            for a in his:
                self.assume(lor(lt(a, I0), le(I0, P(a))))
                for b in his:
                    if a is not b: self.assume(lor(lt(a, I0), le(b, a), le(add(P(a), subst(body, {v: a})), P(b))))
        for y in m: self.assume(eq(y, m[y]))
        return subst_terms(goal, m) if m else goal

    def _prove(self, goal, depth):
        self.budget_tick()
        if self.deadline and time.time() > self.deadline:
            raise Undecided('time budget exhausted')
        try:
            return self._prove1(goal)
        except Split as s:
            if depth <= 0:
                raise Undecided('case-split depth')
            STAT['splits'] += 1
            for c in (s.cond, lnot(s.cond)):
                self.push()
                try:
                    self.assume(c)
                    if self.ctx.inconsistent():
                        continue
                    if not self._prove(goal, depth - 1):
                        return False
                finally:
                    self.pop()
            return True
        except ParamSplit as s:
            if depth <= 0:
                raise Undecided('case-split depth')
            q, w = fresh('q'), fresh('s')
            self.push()
            try:
                self.assume(le(I0, q)); self.assume(le(I0, w)); self.assume(lt(w, s.n))
                self.assume(eq(s.r, add(mul(q, s.n), w)), s.r)
                self.memo[-1] = {}
                return self._prove(goal, depth - 1)
            finally:
                self.pop()

    def _prove1(self, goal):
        if goal.op == 'and':
            return all(self._prove(x, 24) for x in goal.a)
        goal = self.ctx.app_subs(goal)
        if goal is TRUE: return True
        if goal.op == 'req':
            if self.tri_real_eq(goal): return True
            return self.ctx.inconsistent()
        if goal.op == 'not' and goal.a[0].op == 'req':
            pass
        r = self.tri(goal)
        if r is True: return True
        if r is False:
            return self.ctx.inconsistent()
        # undecided: normalise parts and ask once more (disjunctions)
        if goal.op == 'or':
            self.push()
            try:
                for x in goal.a[:-1]:
                    self.assume(lnot(x))
                return self._prove(goal.a[-1], 12)
            finally:
                self.pop()
        if self.ctx.inconsistent():
            return True
        return False

    def tri_real_eq(self, goal):
        return self.eq_real(goal.a[0], goal.a[1])


POLY = {}


def m_div(m, d):
    m = list(m)
    for x in d:
        if x in m: m.remove(x)
        else: return None
    return tuple(m)


def i2r_fold(t):
    """if a Real term is an integer polynomial of i2r atoms, return the i2r of it"""
    def go(x):
        if x.op == 'c' and x.a[0].denominator == 1: return I(x.a[0])
        if x.op == 'i2r': return x.a[0]
        if x.op in ('+', '*'):
            ys = [go(y) for y in x.a]
            if any(y is None for y in ys): return None
            return add(*ys) if x.op == '+' else mul(*ys)
        return None
    r = go(t)
    return mk('i2r', (r,), 'R') if r is not None and r.op != 'c' else (i2r(r) if r is not None else t)


def assume_subst(b, c, val):
    """rewrite b under c (or its negation)"""
    nc = lnot(c)
    m = {c: TRUE if val else FALSE, nc: FALSE if val else TRUE}
    if c.op == 'eq0' and not val:
        pass
    return subst_terms(b, m)


def canon_msum(vs, rngs, facs):
    """split into connected components and canonicalise each; returns list of atoms"""
    n = len(vs)
    # shift constant/independent lower bounds to 0
    vs = list(vs); rngs = list(rngs); facs = list(facs)
    for i in range(n):
        lo, hi = rngs[i]
        if not (lo.op == 'c' and lo.a[0] == 0):
            nv = fresh('k')
            m = {vs[i]: add(nv, lo)}
            facs = [renorm(subst(f, m)) for f in facs]
            rngs = [(subst(l, m), subst(h, m)) if j != i else (I0, sub(hi, lo)) for j, (l, h) in enumerate(rngs)]
            vs[i] = nv
    # flatten factors that became products
    fl = []
    for f in facs:
        if f.op == '*': fl += list(f.a)
        else: fl.append(f)
    facs = fl
    names = [v.a[0] for v in vs]
    parent = list(range(n))
    def find(i):
        while parent[i] != i: i = parent[i]
        return i
    def occ(t): return [i for i in range(n) if names[i] in t.syms]
    for f in facs:
        o = occ(f)
        for i in o[1:]: parent[find(i)] = find(o[0])
    for i, (l, h) in enumerate(rngs):
        for j in set(occ(l) + occ(h)): parent[find(j)] = find(i)
    comps = {}
    for i in range(n): comps.setdefault(find(i), []).append(i)
    atoms = []
    for idx in comps.values():
        cf = [f for f in facs if any(names[i] in f.syms for i in idx)]
        best = None
        dd = max([f.depth for f in cf] + [x.depth for i in idx for x in rngs[i]] + [0]) + 1
        canon = [bvarm(dd, j) for j in range(len(idx))]
        perms = itertools.permutations(range(len(idx))) if len(idx) <= 3 else refined_perms(
            [vs[i] for i in idx], [rngs[i] for i in idx], cf)
        for perm in perms:
            ren = {vs[idx[j]]: canon[perm[j]] for j in range(len(idx))}
            rs = [None] * len(idx)
            for j in range(len(idx)):
                l, h = rngs[idx[j]]
                rs[perm[j]] = (subst(l, ren), subst(h, ren))
            fs = tuple(sorted((renorm(subst(f, ren)) for f in cf), key=lambda t: t.id))
            t = mk('msum', (tuple(canon), tuple(rs), fs), 'R')
            if best is None or t.id < best.id: best = t
        CANON.add(best.id)
        atoms.append(best)
    return atoms


def refined_perms(vs, rngs, facs, cap=800):
    """orders of the summation variables that respect their roles (colour refinement, then individualisation)"""
    n = len(vs)
    own = [[f for f in facs if v.a[0] in f.syms] for v in vs]
    rsym = [[j for j in range(n) if vs[j].a[0] in l.syms | h.syms] for l, h in rngs]

    def rank(keys):
        o = {k: r for r, k in enumerate(sorted(set(keys)))}
        return [o[k] for k in keys]

    def refine(col):
        while True:
            marks = [var('$c%d' % c, 'I') for c in col]
            keys = []
            for i in range(n):
                ren = {vs[j]: marks[j] for j in range(n)}
                ren[vs[i]] = var('$self', 'I')
                r = tuple(subst(x, ren).id for x in rngs[i])
                users = tuple(sorted(subst(rngs[j][1], ren).id for j in range(n) if i in rsym[j]))
                keys.append((col[i], r, users, tuple(sorted(renorm(subst(f, ren)).id for f in own[i]))))
            new = rank(keys)
            if new == col: return col
            col = new
    out = []

    def go(col):
        if len(out) >= cap: return
        col = refine(col)
        classes = {}
        for i, c in enumerate(col): classes.setdefault(c, []).append(i)
        amb = [c for c in sorted(classes) if len(classes[c]) > 1]
        if not amb:
            order = sorted(range(n), key=lambda i: col[i])
            perm = [0]*n
            for pos, i in enumerate(order): perm[i] = pos
            out.append(tuple(perm))
            return
        for i in classes[amb[0]]:
            go(rank([(c, 0 if j == i else 1) for j, c in enumerate(col)]))
    go([0]*n)
    return out


CANON = set()
def bvarm(d, j): return var('$m%d_%d' % (d, j), 'I')


def renorm(f):
    return f
