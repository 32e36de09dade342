"""Deductive verification of the index-chasing functions of the library (loops over std::vector<int> and lists of points).

The text that is verified is the clang AST of /repo's current source.  A function is executed symbolically, once, with
every loop cut at an invariant and every call replaced by the callee's contract; z3 discharges each obligation:
accesses within bounds, assertions of the code, preconditions of the callees, termination of each loop (a measure that
decreases), and the postconditions.  The invariants are inferred: a fixed family of facts about the variables in scope
(bounds, "every element is ...", "every earlier point is ...") is instantiated with the integers and lists of the
function, and the largest subset that holds on entry and is kept by the body is used (Houdini), so that no invariant
mentions the name of a variable.  A fact is only ever dropped when z3 does not prove it: what remains is sound.

Scalars are real numbers, int and size_t mathematical integers (a subtraction of unsigned values is an obligation).
A point is an uninterpreted value with two coordinates; isApprox is any reflexive and symmetric relation, and the angle
between two vectors any number."""
import time
import z3

Pt = z3.DeclareSort('Point')
px, py = z3.Function('px', Pt, z3.RealSort()), z3.Function('py', Pt, z3.RealSort())
approx = z3.Function('approx', Pt, Pt, z3.BoolSort())
sub = z3.Function('sub', Pt, Pt, Pt)
ang = z3.Function('angleBetweenVecs', Pt, Pt, z3.RealSort())
inlist = z3.Function('inlist', Pt, z3.BoolSort())     # "is a point of the list given to the function"
EPS = z3.RealVal('1/10000')


class Unsup(Exception):
    pass


class Vec:
    def __init__(self, sort, n, a): self.sort, self.n, self.a = sort, n, a
    def __getitem__(self, i): return z3.Select(self.a, i)


class It:
    """an iterator: variable and index"""
    def __init__(self, var, i): self.var, self.i = var, i


class Elem:
    def __init__(self, var, i): self.var, self.i = var, i


class St:
    def __init__(self, v, pc): self.v, self.pc = v, pc
    def copy(self): return St(dict(self.v), list(self.pc))


_n = [0]


def fresh(s, nm='v'):
    _n[0] += 1
    return z3.Const('%s!%d' % (nm, _n[0]), s)


def fresh_like(v):
    if isinstance(v, Vec):
        n = fresh(z3.IntSort(), 'n')
        return Vec(v.sort, n, fresh(z3.ArraySort(z3.IntSort(), v.sort), 'a'))
    return fresh(v.sort())


def every(n, f, lo=0):
    k = fresh(z3.IntSort(), 'k')
    return z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < n), f(k)))


STRIP = ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr',
         'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'CStyleCastExpr', 'ConstantExpr', 'SubstNonTypeTemplateParmExpr')


def inner(n): return [c for c in n.get('inner', []) if c]


def ty(n): return (n.get('type') or {}).get('desugaredQualType') or (n.get('type') or {}).get('qualType') or ''


def uses(n, name):
    if (n.get('referencedDecl') or {}).get('name') == name: return True
    return any(uses(c, name) for c in inner(n))


class Fn:
    """contract of a function: pre(args) and post(args, result) give lists of (name, formula)"""
    def __init__(self, pre, post, result): self.pre, self.post, self.result = pre, post, result


class Verifier:
    def __init__(self, prog, cls, contracts, axioms, timeout=8000, budget=200):
        self.prog, self.cls, self.contracts, self.axioms = prog, cls, contracts, axioms
        self.quiet, self.obl, self.timeout, self.where = 0, [], timeout, ''
        self.end = time.time() + budget
        self.solver_time, self.queries = 0., 0

    # ---- z3
    def valid(self, pc, goal):
        if time.time() > self.end: raise Unsup('out of time')
        self.queries += 1
        t = time.time()
        s = z3.Solver()
        s.set('timeout', self.timeout if not self.quiet else self.timeout//4)
        s.add(*self.axioms)
        s.add(*pc)
        s.add(z3.Not(goal))
        r = s.check()
        self.solver_time += time.time() - t
        return r == z3.unsat

    def oblige(self, st, name, goal):
        if not self.quiet:
            ok = self.valid(st.pc, goal)
            self.obl.append((self.where + ': ' + name, ok))
        st.pc.append(goal)

    # ---- expressions
    def strip(self, e):
        while True:
            if e['kind'] in STRIP and len(inner(e)) == 1:
                if e.get('castKind') == 'FloatingToIntegral': raise Unsup('real to integer')
                e = inner(e)[0]
            elif e['kind'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and len(inner(e)) == 1: e = inner(e)[0]
            else: return e

    def num(self, e, st):
        v = self.rv(e, st)
        if z3.is_bool(v): v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v

    def boolean(self, e, st):
        v = self.rv(e, st)
        return v if z3.is_bool(v) else v != 0

    def rv(self, e, st):
        v = self.ev(e, st)
        if isinstance(v, Elem):
            w = st.v[v.var]
            self.oblige(st, 'index within the list', z3.And(0 <= v.i, v.i < w.n))
            return w[v.i]
        return v

    def fname(self, e):
        e = self.strip(e)
        return (e.get('referencedDecl') or {}).get('name') or e.get('name')

    def var(self, e):
        e = self.strip(e)
        if e['kind'] != 'DeclRefExpr': raise Unsup('a list that is not a variable')
        return e['referencedDecl']['id']

    def point(self, x, y, st):
        p = fresh(Pt, 'p')
        st.pc += [px(p) == x, py(p) == y]
        return p

    def iterator(self, e, st):
        v = self.ev(e, st)
        if not isinstance(v, It): raise Unsup('iterator')
        return v

    def ev(self, e, st):
        unsigned = 'unsigned' in ty(e) or 'size_t' in ty(e) or 'size_type' in ty(e)
        e = self.strip(e)
        k = e['kind']
        c = inner(e)
        if k == 'IntegerLiteral': return z3.IntVal(int(e['value']))
        if k == 'FloatingLiteral': return z3.RealVal(e['value'])
        if k == 'CXXBoolLiteralExpr': return z3.BoolVal(bool(e['value']))
        if k == 'DeclRefExpr':
            d = e['referencedDecl']
            if d['id'] in st.v: return st.v[d['id']]
            if d.get('name') == 'EPSILON': return EPS
            raise Unsup('reference to ' + str(d.get('name')))
        if k == 'ConditionalOperator':
            g = self.boolean(c[0], st)
            if uses(c[2], '__assert_fail'):
                self.oblige(st, 'assertion of the code', g)
                return z3.BoolVal(True)
            a, b = st.copy(), st.copy()
            a.pc.append(g); b.pc.append(z3.Not(g))
            x, y = self.rv(c[1], a), self.rv(c[2], b)
            if x.sort() != y.sort(): raise Unsup('conditional')
            return z3.If(g, x, y)
        if k == 'UnaryOperator':
            o = e['opcode']
            if o == '!': return z3.Not(self.boolean(c[0], st))
            if o == '-': return -self.num(c[0], st)
            if o in ('++', '--'):
                x = self.var(c[0])
                old = st.v[x]
                st.v[x] = old + (1 if o == '++' else -1)
                return old if e.get('isPostfix') else st.v[x]
            raise Unsup('unary ' + o)
        if k in ('BinaryOperator', 'CompoundAssignOperator'):
            return self.binary(e, st, unsigned)
        if k == 'CallExpr': return self.call(e, st)
        if k == 'CXXMemberCallExpr': return self.member(e, st)
        if k == 'CXXOperatorCallExpr': return self.operator(e, st)
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            if len(c) == 2 and 'Matrix' in ty(e) + 'Vector2':
                return self.point(self.num(c[0], st), self.num(c[1], st), st)
            if not c and 'vector' in ty(e):
                s = z3.IntSort() if 'vector<int' in ty(e).replace('std::', '') else Pt
                return Vec(s, z3.IntVal(0), fresh(z3.ArraySort(z3.IntSort(), s), 'a'))
            raise Unsup('constructor')
        raise Unsup(k)

    def binary(self, e, st, unsigned):
        o, (a, b) = e['opcode'], inner(e)
        if o == ',':
            self.rv(a, st)
            return self.rv(b, st)
        if o in ('&&', '||'):
            x = self.boolean(a, st)
            s = st.copy()
            s.pc.append(x if o == '&&' else z3.Not(x))
            y = self.boolean(b, s)
            return z3.And(x, y) if o == '&&' else z3.Or(x, y)
        if o.endswith('=') and o not in ('==', '!=', '<=', '>='):
            x = self.var(a)
            v = self.rv(b, st)
            if o != '=':
                v = {'+=': lambda p, q: p + q, '-=': lambda p, q: p - q}[o](st.v[x], v)
            if isinstance(v, Vec) or isinstance(st.v[x], Vec) or v.sort() != st.v[x].sort():
                if not isinstance(v, Vec) and z3.is_int(v) and z3.is_real(st.v[x]): v = z3.ToReal(v)
                elif not isinstance(v, Vec) and z3.is_bool(v) and z3.is_int(st.v[x]): v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
                else: raise Unsup('assignment')
            st.v[x] = v
            return v
        if o in ('==', '!=') and z3.is_bool(self.rv(a, st.copy())):
            x, y = self.boolean(a, st), self.boolean(b, st)
            return (x == y) if o == '==' else (x != y)
        x, y = self.num(a, st), self.num(b, st)
        if o == '-' and unsigned: self.oblige(st, 'unsigned subtraction', x >= y)
        f = {'+': lambda p, q: p + q, '-': lambda p, q: p - q, '*': lambda p, q: p*q, '<': lambda p, q: p < q, '<=': lambda p, q: p <= q,
             '>': lambda p, q: p > q, '>=': lambda p, q: p >= q, '==': lambda p, q: p == q, '!=': lambda p, q: p != q}.get(o)
        if f is None: raise Unsup('operator ' + o)
        return f(x, y)

    def call(self, e, st):
        c = inner(e)
        f, args = self.fname(c[0]), c[1:]
        if f in ('abs', 'fabs'):
            x = self.num(args[0], st)
            return z3.If(x >= 0, x, -x)
        if f in ('min', 'max'):
            x, y = self.num(args[0], st), self.num(args[1], st)
            return z3.If(x <= y, x, y) if f == 'min' else z3.If(x >= y, x, y)
        if f == 'rotate':
            a, m, z = (self.iterator(q, st) for q in args)
            v = st.v[a.var]
            self.oblige(st, 'rotation of the whole list', z3.And(a.i == 0, z.i == v.n, 0 <= m.i, m.i <= v.n))
            w = Vec(v.sort, v.n, fresh(v.a.sort(), 'a'))
            st.pc.append(every(v.n, lambda k: w[k] == z3.If(k + m.i < v.n, v[k + m.i], v[k + m.i - v.n])))
            st.v[a.var] = w
            return z3.BoolVal(True)
        vals = [self.rv(a, st) for a in args]
        if f in self.contracts:
            q = self.contracts[f]
            for nm, g in q.pre(*vals): self.oblige(st, 'precondition of %s, %s' % (f, nm), g)
            r = q.result()
            st.pc += [g for _, g in q.post(*vals, r)]
            return r
        # a helper without contract is read
        d = inner(c[0])[0] if c[0]['kind'] == 'ImplicitCastExpr' else c[0]
        b = self.prog.body(d.get('referencedDecl') or {})
        if b is None: raise Unsup('call to ' + str(f))
        ps = [x for x in inner(b) if x['kind'] == 'ParmVarDecl']
        for p in ps:
            if '&' in ty(p) and 'const' not in ty(p): raise Unsup('helper with a reference')
        self.depth = getattr(self, 'depth', 0) + 1
        if self.depth > 4: raise Unsup('recursion')
        s = St(dict(st.v), list(st.pc))
        for p, v in zip(ps, vals): s.v[p['id']] = v
        outs = [o for o in self.body(b, s)]
        self.depth -= 1
        if len(outs) != 1 or outs[0][2] is None: 
            rs = [o for o in outs if o[2] is not None and not isinstance(o[2], Vec)]
            if len(rs) != len(outs) or not rs: raise Unsup('helper')
            r = fresh(rs[0][2].sort(), 'r')
            n0 = len(st.pc)
            st.pc.append(z3.Or(*[z3.And(*(o[1].pc[n0:] + [r == o[2]])) for o in rs]))
            return r
        st.pc = outs[0][1].pc
        return outs[0][2]

    def member(self, e, st):
        c = inner(e)
        m, args = c[0]['name'], c[1:]
        o = inner(c[0])[0]
        if m in ('isApprox', 'norm', 'squaredNorm', 'dot', 'isZero'):
            p = self.rv(o, st)
            if m == 'isApprox' and not isinstance(p, Vec): return approx(p, self.rv(args[0], st))
            if m in ('norm', 'squaredNorm'):
                r = fresh(z3.RealSort(), 'r')
                st.pc.append(r >= 0)
                return r
            for a in args: self.rv(a, st)
            return fresh(z3.RealSort(), 'r')
        x = self.var(o)
        v = st.v[x]
        if not isinstance(v, Vec): raise Unsup('method ' + m)
        if m == 'size': return v.n
        if m == 'empty': return v.n == 0
        if m == 'reserve':
            self.num(args[0], st)
            return z3.BoolVal(True)
        if m in ('begin', 'cbegin'): return It(x, z3.IntVal(0))
        if m in ('end', 'cend'): return It(x, v.n)
        if m == 'front': return Elem(x, z3.IntVal(0))
        if m == 'back': return Elem(x, v.n - 1)
        if m == 'at': return Elem(x, self.num(args[0], st))
        if m == 'clear':
            st.v[x] = Vec(v.sort, z3.IntVal(0), v.a)
            return z3.BoolVal(True)
        if m == 'push_back':
            st.v[x] = Vec(v.sort, v.n + 1, z3.Store(v.a, v.n, self.rv(args[0], st)))
            return z3.BoolVal(True)
        if m == 'pop_back':
            self.oblige(st, 'an element to remove', v.n >= 1)
            st.v[x] = Vec(v.sort, v.n - 1, v.a)
            return z3.BoolVal(True)
        if m == 'erase' and len(args) == 2:
            a, b = self.iterator(args[0], st), self.iterator(args[1], st)
            self.oblige(st, 'range of the list', z3.And(0 <= a.i, a.i <= b.i, b.i <= v.n))
            w = Vec(v.sort, v.n - (b.i - a.i), fresh(v.a.sort(), 'a'))
            st.pc.append(every(w.n, lambda k: w[k] == z3.If(k < a.i, v[k], v[k + b.i - a.i])))
            st.v[x] = w
            return z3.BoolVal(True)
        raise Unsup('method ' + m)

    def operator(self, e, st):
        c = inner(e)
        f, args = self.fname(c[0]), c[1:]
        if f == 'operator[]': return Elem(self.var(args[0]), self.num(args[1], st))
        if f == 'operator()':
            p = self.rv(args[0], st)
            i = self.num(args[1], st)
            i = z3.simplify(i)
            if not z3.is_int_value(i) or i.as_long() not in (0, 1): raise Unsup('coordinate')
            return (px, py)[i.as_long()](p)
        if f == 'operator*' and len(args) == 1:
            i = self.iterator(args[0], st)
            return Elem(i.var, i.i)
        a = self.ev(args[0], st)
        if isinstance(a, It):
            if f in ('operator+', 'operator-'):
                n = self.num(args[1], st)
                return It(a.var, a.i + n if f == 'operator+' else a.i - n)
            b = self.iterator(args[1], st)
            if f == 'operator==': return a.i == b.i
            if f == 'operator!=': return a.i != b.i
            raise Unsup('iterator ' + f)
        if f in ('operator-', 'operator+'):
            p = self.rv(args[0], st)
            if len(args) == 1: return self.point(-px(p), -py(p), st)
            q = self.rv(args[1], st)
            if f == 'operator-':
                r = sub(p, q)
                st.pc += [px(r) == px(p) - px(q), py(r) == py(p) - py(q)]
                return r
            return self.point(px(p) + px(q), py(p) + py(q), st)
        if f == 'operator=':
            x = self.var(args[0])
            st.v[x] = self.rv(args[1], st)
            return st.v[x]
        raise Unsup(f)

    # ---- statements: lists of (kind, state, value)
    def body(self, fn, st):
        b = [x for x in inner(fn) if x['kind'] == 'CompoundStmt'][0]
        outs = self.stmts(inner(b), st)
        for o in outs:
            if o[0] in ('break', 'continue'): raise Unsup('jump')
        return outs

    def feasible(self, st): return not self.valid(st.pc, z3.BoolVal(False))

    def stmts(self, ss, st):
        live, done = [st], []
        for s in ss:
            nxt = []
            for q in live:
                for o in self.stmt(s, q):
                    if o[0] == 'next': nxt.append(o[1])
                    else: done.append(o)
            live = nxt
            if len(live) + len(done) > 40: raise Unsup('too many paths')
        return done + [('next', q, None) for q in live]

    def stmt(self, s, st):
        k = s['kind']
        c = s.get('inner', [])
        if k == 'CompoundStmt': return self.stmts(inner(s), st)
        if k == 'NullStmt': return [('next', st, None)]
        if k == 'DeclStmt':
            for d in inner(s):
                if d['kind'] != 'VarDecl':
                    if d['kind'] in ('TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'StaticAssertDecl'): continue
                    raise Unsup(d['kind'])
                if d.get('storageClass') == 'static': raise Unsup('static variable')
                i = inner(d)
                if not i: st.v[d['id']] = fresh(z3.BoolSort() if ty(d) == 'bool' else z3.RealSort() if ty(d) in ('double', 'float') else z3.IntSort())
                else:
                    v = self.rv(i[-1], st)
                    if isinstance(v, It): raise Unsup('iterator variable')
                    if not isinstance(v, Vec):
                        if ty(d).replace('const ', '') in ('double', 'float') and z3.is_int(v): v = z3.ToReal(v)
                        if z3.is_bool(v) and ty(d).replace('const ', '') != 'bool': v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
                        if ty(d).replace('const ', '') == 'bool' and z3.is_int(v): v = v != 0
                    st.v[d['id']] = v
            return [('next', st, None)]
        if k == 'IfStmt':
            if s.get('hasVar') or s.get('hasInit'): raise Unsup('if with a declaration')
            g = self.boolean(c[0], st)
            a, b = st.copy(), st
            a.pc.append(g); b.pc.append(z3.Not(g))
            outs = self.stmt(c[1], a) if self.feasible(a) else []
            if self.feasible(b): outs = outs + (self.stmt(c[2], b) if len(c) > 2 else [('next', b, None)])
            return outs
        if k == 'ReturnStmt': return [('return', st, self.rv(c[0], st) if c else None)]
        if k == 'BreakStmt': return [('break', st, None)]
        if k == 'ContinueStmt': return [('continue', st, None)]
        if k == 'WhileStmt': return self.loop(c[-2], None, c[-1], st, False)
        if k == 'DoStmt': return self.loop(c[1], None, c[0], st, True)
        if k == 'ForStmt':
            if c[0]: self.stmt(c[0], st)
            return self.loop(c[2] or None, c[3] or None, c[4], st, False)
        if k in ('CXXForRangeStmt', 'SwitchStmt', 'GotoStmt'): raise Unsup(k)
        self.ev(s, st)
        return [('next', st, None)]

    def once(self, cond, inc, bod, st):
        """one iteration: states that go round again, outcomes that leave"""
        again, out = [], []
        if cond is not None:
            g = self.boolean(cond, st)
            e = st.copy()
            e.pc.append(z3.Not(g)); st.pc.append(g)
            out.append(('next', e, None))
        for o in self.stmt(bod, st):
            if o[0] in ('next', 'continue'):
                if inc is not None: self.ev(inc, o[1])
                again.append(o[1])
            elif o[0] == 'break': out.append(('next', o[1], None))
            else: out.append(o)
        return again, out

    def loop(self, cond, inc, bod, st, first):
        if first: raise Unsup('do loop')
        outer = set(st.v)
        mods = set()
        self.quiet += 1
        for _ in range(6):
            h = st.copy()
            for x in mods: h.v[x] = fresh_like(h.v[x])
            h.pc = []
            again, out = self.once(cond, inc, bod, h.copy())
            more = set()
            for s in again + [o[1] for o in out]:
                for x in outer:
                    a, b = s.v[x], h.v[x]
                    if a is not b and not (not isinstance(a, Vec) and a.eq(b)): more.add(x)
            if more <= mods: break
            mods |= more
        self.quiet -= 1
        cands = self.candidates(st, mods)
        self.quiet += 1
        cands = [f for f in cands if self.valid(st.pc, f(st))]
        while True:
            h = self.havoc(st, mods, cands)
            again, _ = self.once(cond, inc, bod, h.copy())
            keep = [f for f in cands if all(self.valid(s.pc, f(s)) for s in again)]
            if len(keep) == len(cands): break
            cands = keep
        self.quiet -= 1
        h = self.havoc(st, mods, cands)
        again, out = self.once(cond, inc, bod, h.copy())
        if not self.quiet:
            self.nloops = getattr(self, 'nloops', 0) + 1
            self.ninv = getattr(self, 'ninv', 0) + len(cands)
            ok = False
            for m in self.measures(st, mods):
                if ok: break
                self.quiet += 1
                try:
                    ok = all(self.valid(s.pc, z3.And(m(s) < m(h), m(h) >= 0)) for s in again)
                finally:
                    self.quiet -= 1
            self.obl.append((self.where + ': the loop ends', ok))
        res = []
        for o in out:
            for x in list(o[1].v):
                if x not in outer: del o[1].v[x]
            res.append(o)
        return res

    def havoc(self, st, mods, cands):
        h = st.copy()
        for x in mods:
            h.v[x] = fresh_like(h.v[x])
            if isinstance(h.v[x], Vec): h.pc.append(h.v[x].n >= 0)
        h.pc += [f(h) for f in cands]
        h.pc += self.lemmas(h)
        return h

    def lemmas(self, st):
        """pigeonhole: points of the list which are two by two different are not more than the list"""
        L = st.v[self.list_]
        r = []
        for x, v in st.v.items():
            if isinstance(v, Vec) and v.sort == Pt and x != self.list_:
                r.append(z3.Implies(z3.And(every(v.n, lambda k: inlist(v[k])), self.distinct(v)), v.n <= L.n))
        return r

    def distinct(self, v):
        a, b = fresh(z3.IntSort(), 'i'), fresh(z3.IntSort(), 'j')
        return z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < v.n), z3.Not(approx(v[b], v[a]))))

    def measures(self, st, mods):
        ints = [x for x, v in st.v.items() if not isinstance(v, Vec) and z3.is_int(v)]
        vecs = [x for x, v in st.v.items() if isinstance(v, Vec)]
        r = []
        for x in ints:
            if x not in mods: continue
            r.append(lambda s, x=x: s.v[x])
            for w in vecs: r.append(lambda s, x=x, w=w: s.v[w].n - s.v[x])
            for w in ints:
                if w not in mods: r.append(lambda s, x=x, w=w: s.v[w] - s.v[x])
        for x in vecs:
            if x in mods:
                r.append(lambda s, x=x: s.v[x].n)
                r.append(lambda s, x=x: s.v[self.list_].n + 1 - s.v[x].n)
        return r

    def candidates(self, st, mods):
        L = self.list_
        ints = [x for x, v in st.v.items() if not isinstance(v, Vec) and z3.is_int(v)]
        bools = [x for x, v in st.v.items() if not isinstance(v, Vec) and z3.is_bool(v)]
        iv = [x for x, v in st.v.items() if isinstance(v, Vec) and v.sort == z3.IntSort()]
        pv = [x for x, v in st.v.items() if isinstance(v, Vec) and v.sort == Pt and x != L]
        r = []

        def add(vs, f):
            if any(x in mods for x in vs): r.append(f)
        P = st.v[L]
        for x in ints:
            add([x], lambda s, x=x: s.v[x] >= 0)
            add([x], lambda s, x=x: s.v[x] >= 1)
            for w in iv + pv + [L]:
                add([x, w], lambda s, x=x, w=w: s.v[x] <= s.v[w].n)
                add([x, w], lambda s, x=x, w=w: s.v[x] < s.v[w].n)
        for w in iv + pv:
            add([w], lambda s, w=w: s.v[w].n >= 1)
        for w in iv:
            add([w], lambda s, w=w: every(s.v[w].n, lambda k: z3.And(0 <= s.v[w][k], s.v[w][k] < P.n)))
            add([w], lambda s, w=w: z3.Implies(s.v[w].n >= 1, every(s.v[w].n, lambda k: z3.And(
                py(P[s.v[w][k]]) - py(P[s.v[w][0]]) < EPS, py(P[s.v[w][k]]) >= py(P[s.v[w][0]])))))
            for x in ints:
                add([w, x], lambda s, w=w, x=x: every(s.v[w].n, lambda k: s.v[w][k] < s.v[x]))
                add([w, x], lambda s, w=w, x=x: z3.Implies(s.v[w].n >= 1, every(s.v[x], lambda k: py(P[k]) >= py(P[s.v[w][0]]))))

                def same(s, w=w, x=x):
                    j, k = fresh(z3.IntSort(), 'j'), fresh(z3.IntSort(), 'k')
                    return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < s.v[x], py(P[j]) == py(P[s.v[w][0]])),
                                                     z3.Exists([k], z3.And(0 <= k, k < s.v[w].n, s.v[w][k] == j))))
                add([w, x], same)
                add([w, x], lambda s, w=w, x=x: z3.And(py(P[s.v[x]]) - py(P[s.v[w][0]]) < EPS, py(P[s.v[x]]) >= py(P[s.v[w][0]])))
                add([w, x], lambda s, w=w, x=x: every(s.v[w].n, lambda k: z3.Not(approx(P[s.v[w][k]], P[s.v[x]]))))
                for y in ints:
                    if x == y: continue
                    add([w, x, y], lambda s, w=w, x=x, y=y: every(s.v[x], lambda k: px(P[s.v[w][k]]) >= px(P[s.v[y]])))
                    add([w, x, y], lambda s, w=w, x=x, y=y: z3.Implies(s.v[w].n == 0, every(s.v[x], lambda k: approx(P[k], P[s.v[y]]))))
        for x in ints:
            for y in ints:
                if x == y: continue
                add([x, y], lambda s, x=x, y=y: z3.Not(approx(P[s.v[x]], P[s.v[y]])))
                add([x, y], lambda s, x=x, y=y: s.v[x] <= s.v[y])
                for z in ints:
                    if z != y: add([x, y, z], lambda s, x=x, y=y, z=z: z3.Or(s.v[z] == s.v[y], z3.Not(approx(P[s.v[z]], P[s.v[y]]))) if x == z else
                                   z3.Implies(s.v[z] == s.v[y], every(s.v[x], lambda k: approx(P[k], P[s.v[y]]))))
        # the angle from the edge (last vertex, current point) to point k
        pts = [x for x, v in st.v.items() if not isinstance(v, Vec) and v.sort() == Pt]
        reals = [x for x, v in st.v.items() if not isinstance(v, Vec) and z3.is_real(v)]

        def turn(s, cur, last, k): return angle(P, s.v[cur], s.v[last], k)
        for l in pts:
            for y in ints:
                if y in mods or l in mods: continue
                for e in reals:
                    for x in ints:
                        if x == y: continue
                        for w in iv:
                            add([e, x, w], lambda s, e=e, x=x, w=w, y=y, l=l: z3.Implies(s.v[w].n >= 1, every(s.v[x], lambda k: z3.Or(
                                approx(P[k], P[s.v[y]]), s.v[e] <= turn(s, y, l, k)))))
                        add([e, x], lambda s, e=e, x=x, y=y, l=l: z3.And(turn(s, y, l, s.v[x]) - s.v[e] < EPS, turn(s, y, l, s.v[x]) >= s.v[e]))
                    for w in iv:
                        add([e, w], lambda s, e=e, w=w, y=y, l=l: every(s.v[w].n, lambda k: z3.And(
                            turn(s, y, l, s.v[w][k]) - s.v[e] < EPS, turn(s, y, l, s.v[w][k]) >= s.v[e])))
        for w in pv:
            add([w], lambda s, w=w: every(s.v[w].n, lambda k: inlist(s.v[w][k])))
            add([w], lambda s, w=w: self.distinct(s.v[w]))
            for x in ints:
                for y in ints:
                    if x != y:
                        add([w, x, y], lambda s, w=w, x=x, y=y: every(s.v[x], lambda k: z3.Not(approx(P[s.v[y]], s.v[w][k]))))
        for b in bools:
            for w in pv:
                for y in ints:
                    add([b, w, y], lambda s, b=b, w=w, y=y: z3.Or(s.v[b], every(s.v[w].n, lambda k: z3.Not(approx(P[s.v[y]], s.v[w][k])))))
                    for x in ints:
                        if x != y: add([b, w, x, y], lambda s, b=b, w=w, x=x, y=y: z3.Or(s.v[b], every(s.v[x], lambda k: z3.Not(approx(P[s.v[y]], s.v[w][k])))))
        # a step of several facts at once: "at the head of the loop, either the walk is over or the next point is new"
        for w in pv:
            for x in ints:
                for y in ints:
                    if x != y:
                        add([w, x, y], lambda s, w=w, x=x, y=y: z3.Implies(s.v[x] == s.v[w].n, every(s.v[w].n, lambda k: z3.Not(approx(P[s.v[y]], s.v[w][k])))))
        return r

    # ---- one function against its contract
    def verify(self, name):
        self.obl, self.where, self.nloops, self.ninv = [], name, 0, 0
        fn = None
        for m, b in self.prog.bodies.items():
            if b.get('name') == name and self.prog.owner.get(b['id']) == self.cls: fn = b
        if fn is None: raise Unsup('no function ' + name)
        ps = [x for x in inner(fn) if x['kind'] == 'ParmVarDecl']
        st = St({}, [])
        vals = []
        for p in ps:
            t = ty(p)
            if 'vector' in t:
                v = Vec(Pt, fresh(z3.IntSort(), 'n'), fresh(z3.ArraySort(z3.IntSort(), Pt), 'list'))
                st.pc.append(v.n >= 0)
                self.list_ = p['id']
                st.pc.append(every(v.n, lambda k: inlist(v[k])))
            elif 'Matrix' in t or 'Vector2' in t: v = fresh(Pt, 'p')
            elif t.replace('const ', '') in ('int', 'unsigned long', 'size_t'): v = fresh(z3.IntSort(), 'i')
            else: raise Unsup('parameter ' + t)
            st.v[p['id']] = v
            vals.append(v)
        q = self.contracts[name]
        st.pc += [g for _, g in q.pre(*vals)]
        outs = self.body(fn, st)
        # (an inconsistent contract would prove anything)
        self.obl.append((self.where + ': some path ends', any(not self.valid(o[1].pc, z3.BoolVal(False)) for o in outs)))
        for o in outs:
            if o[2] is None: raise Unsup('no result')
            for nm, g in q.post(*vals, o[2]): self.oblige(o[1], 'postcondition, ' + nm, g)
        return self.obl


def angle(L, cur, last, k):
    a = ang(sub(L[cur], last), sub(L[k], L[cur]))
    return z3.If(a >= 0, a, -a)


# ---- contracts of ConvexPolygon's hull extraction (C05)
def hull(prog, budget=200):
    I = z3.IntSort()

    def in_range(L, r): return z3.And(0 <= r, r < L.n)

    def lowest(L, r):
        j, k = fresh(I, 'j'), fresh(I, 'k')
        return [('the index is in the list', in_range(L, r)),
                ('the point is lowest', every(L.n, lambda k: py(L[r]) < py(L[k]) + EPS)),
                ('no lowest point is more to the left', z3.ForAll([j], z3.Implies(
                    z3.And(0 <= j, j < L.n, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < L.n), py(L[j]) <= py(L[k])))), px(L[j]) >= px(L[r]))))]

    def smallest(cur, last, L, r):
        return [('the index is in the list', in_range(L, r)),
                ('another point, unless they are all the same', z3.Or(z3.Not(approx(L[r], L[cur])), every(L.n, lambda k: approx(L[k], L[cur])))),
                ('the turn to it is the smallest', every(L.n, lambda k: z3.Or(approx(L[k], L[cur]), approx(L[r], L[cur]),
                                                                              angle(L, cur, last, r) < angle(L, cur, last, k) + EPS)))]

    def extracted(L, v):
        return [('no point, no vertex', z3.Implies(L.n == 0, v.n == 0)),
                ('some vertex', z3.Implies(L.n >= 1, v.n >= 1)),
                ('no more vertices than points', v.n <= L.n),
                ('every vertex is a point of the list', every(v.n, lambda k: inlist(v[k])))]
    num = lambda: fresh(I, 'r')
    contracts = {
        'getIndexOfLowestAndLeftmostVertice': Fn(lambda L: [('some point', L.n >= 1)], lowest, num),
        'getIndexOfSmallestAngleVertice': Fn(lambda c, last, L: [('the current point is in the list', in_range(L, c))], smallest, num),
        'angleBetweenVecs': Fn(lambda a, b: [], lambda a, b, r: [('function of the vectors', r == ang(a, b))], lambda: fresh(z3.RealSort(), 'angle')),
        'extractVertices': Fn(lambda L: [], extracted, None),
    }
    p, q = z3.Consts('p q', Pt)
    axioms = [z3.ForAll([p], approx(p, p)), z3.ForAll([p, q], approx(p, q) == approx(q, p))]
    return Verifier(prog, 'ConvexPolygon<double>', contracts, axioms, budget=budget)


HULL = {'lowest_and_leftmost': 'getIndexOfLowestAndLeftmostVertice', 'next_vertex': 'getIndexOfSmallestAngleVertice',
        'vertices_are_points_of_the_list': 'extractVertices'}


def run(prog, harness, budget):
    """result in the form of harness.run_harness"""
    t, f = time.time(), HULL[harness]
    v = hull(prog, budget)
    try:
        o, err = v.verify(f), None
    except Unsup as x:
        o, err = v.obl, 'Unsupported: ' + str(x)
    # an invariant that is not found is not a counterexample: such an obligation leaves the harness open
    return {'name': harness, 'error': err, 'obls': [(n, 'state', ok, '' if ok else 'z3 finds no proof with the inferred invariants') for n, ok in o],
            'posts': len([1 for n, _ in o if 'postcondition' in n]), 'secs': time.time() - t, 'fns': ['ConvexPolygon<double>::' + f],
            'contracts': sorted('ConvexPolygon<double>::' + c for c in v.contracts if c != f), 'partial': 0, 'havoc': 0,
            'stat': {'z3': v.queries, 'z3_time': v.solver_time, 'loops': getattr(v, 'nloops', 0), 'invariants': getattr(v, 'ninv', 0)}}
