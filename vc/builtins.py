"""Axiomatised contracts of Eigen, std and boost operations used by the library (trusted base)."""
import re
from .terms import *
from .values import *

NAN = lambda: app('NaN', (), 'R')


def _I(v): return v


# ------------------------------------------------------------------ matrix algebra
def mat_add(self, a, b, sgn=1):
    self.shape(a, b)
    if a.sort != b.sort: raise Unsupported('mixed scalar types')
    f = (lambda r, c: add(a.at(r, c), b.at(r, c))) if sgn > 0 else (lambda r, c: sub(a.at(r, c), b.at(r, c)))
    return Mat(a.rows, a.cols, f, a.sort, a.prod or b.prod)


def mat_scale(self, s, a):
    if a.sort == 'I' and s.sort == 'R':
        if s.op == 'c' and s.a[0].denominator == 1: s = I(s.a[0])
        else: raise Unsupported('scaling an integer matrix by a real')
    s = lift(s, a.sort)
    return Mat(a.rows, a.cols, lambda r, c: mul(s, a.at(r, c)), a.sort, a.prod)


def shape(self, a, b, what='matrix sizes agree'):
    if a.rows is not b.rows: self.oblige('dim', eq(a.rows, b.rows), what + ' (rows)')
    if a.cols is not b.cols: self.oblige('dim', eq(a.cols, b.cols), what + ' (cols)')


def mat_mul(self, a, b):
    if a.cols is not b.rows:
        self.oblige('dim', eq(a.cols, b.rows), 'inner dimensions agree')
    n = a.cols if a.cols.op == 'c' or b.rows.op != 'c' else b.rows
    sort = a.sort
    if a.sort != b.sort: raise Unsupported('mixed scalar types')
    return Mat(a.rows, b.cols, lambda r, c: mksum(const(0, 'I'), n, lambda k: mul(a.at(r, k), b.at(k, c))), sort, True)


def mat_op(self, op, a, b):
    if isinstance(a, T) or isinstance(b, T):
        if op == '*':
            return self.mat_scale(a, b) if isinstance(a, T) else self.mat_scale(b, a)
        if op == '/' and isinstance(b, T):
            b = lift(b, 'R')
            self.oblige('div', ne(b, R0), 'divisor is not zero')
            return self.mat_scale(inv(b), a)
        if isinstance(a, T) and isinstance(b, Mat):
            b = b.at(I0, I0)
            return self.arith(op, a, b)
        return self.arith(op, a.at(I0, I0), b)
    if op == '+': return self.mat_add(a, b)
    if op == '-': return self.mat_add(a, b, -1)
    if op == '*': return self.mat_mul(a, b)
    if op in ('==', '!='):
        r = self.msum_all(a, b)
        return r if op == '==' else lnot(r)
    raise Unsupported('matrix operator ' + op)


_eqc = itertools.count()


def msum_all(self, a, b):
    """elementwise equality as a Bool term"""
    if a is b: return TRUE
    if a.rows.op == 'c' and a.cols.op == 'c' and cval(a.rows) * cval(a.cols) <= 16:
        cs = []
        if a.rows is not b.rows: cs.append(eq(a.rows, b.rows))
        if a.cols is not b.cols: cs.append(eq(a.cols, b.cols))
        for i in range(int(cval(a.rows))):
            for j in range(int(cval(a.cols))):
                cs.append(eq(a.at(I(i), I(j)), b.at(I(i), I(j))))
        return land(*cs)
    i, j = fresh('er'), fresh('ec')
    if a.rows is b.rows and a.cols is b.cols and a.at(i, j) is b.at(i, j):
        return TRUE
    return app('meq!%d' % next(_eqc), (), 'B')


def ref_mat(self, v):
    if isinstance(v, Mat): return v
    if isinstance(v, T): return Mat(I1, I1, lambda r, c: v, v.sort)
    raise Unsupported('matrix expected: %r' % (v,))


# ------------------------------------------------------------------ assignment
def assign_mat(self, loc, v, ty, op='=', noalias=False):
    """Eigen assignment to a plain matrix (resizes) or a view (sizes must agree)"""
    if isinstance(loc, Choice): raise Unsupported('assignment through a conditional reference')
    cur = self.read(loc)
    if isinstance(v, T): v = self.ref_mat(v)
    if not isinstance(cur, Mat):
        raise Unsupported('matrix assignment to %r' % (cur,))
    view = bool(loc.path) and loc.path[-1][0] in ('blk', 'T', 'diag')
    if op != '=':
        self.shape(cur, v)
        o = cur
        if v.sort != cur.sort: raise Unsupported('mixed scalar types')
        w = (lambda r, c: add(o.at(r, c), v.at(r, c))) if op == '+' else (lambda r, c: sub(o.at(r, c), v.at(r, c)))
        self.write(loc, Mat(cur.rows, cur.cols, w, cur.sort))
        return loc
    if view:
        self.shape(cur, v, 'block assignment sizes agree')
        self.write(loc, Mat(cur.rows, cur.cols, v.fn if not v.memo else v.at, cur.sort))
        return loc
    # plain object
    fr, fc = fixed_dims(ty)
    if fr is not None and v.rows is not fr: self.oblige('dim', eq(v.rows, fr), 'fixed-size assignment (rows)')
    if fc is not None and v.cols is not fc: self.oblige('dim', eq(v.cols, fc), 'fixed-size assignment (cols)')
    if fr is None and fc is None and ty is None:
        pass
    self.write(loc, Mat(fr or v.rows, fc or v.cols, v.at, cur.sort if cur.sort == v.sort else v.sort))
    return loc


def fixed_dims(ty):
    m = re.search(r'Matrix<\s*\w[\w ]*,\s*(-?\d+),\s*(-?\d+)', ty or '')
    if not m: return None, None
    r, c = int(m.group(1)), int(m.group(2))
    return (I(r) if r >= 0 else None), (I(c) if c >= 0 else None)


def mtype(e):
    """Matrix<...> text of an expression node type"""
    from .astload import tname
    return tname(e)


def comma_init(self, ci, v):
    """state of an Eigen comma initialiser: ('comma', loc, row, col, curRows)"""
    _, loc, row, col, h = ci
    m = self.read(loc)
    if isinstance(v, T):
        v = Mat(I1, I1, (lambda x: lambda r, c: x)(v), v.sort)
    # wrap when the row is full
    full = eq(col, m.cols)
    if self.decide(full) is True:
        row, col = add(row, h), I0
        h = v.rows
    else:
        if v.rows is not h: self.oblige('dim', eq(v.rows, h), 'comma initialiser block height')
    self.oblige('bounds', land(le(add(row, v.rows), m.rows), le(add(col, v.cols), m.cols)), 'comma initialiser stays inside')
    if v.rows is I1 and v.cols is I1:
        x = v.at(I0, I0)
        self.write(loc.add(('cell', row, col)), lift(x, m.sort))
    else:
        self.write(loc.add(('blk', row, col, v.rows, v.cols)), v)
    return ('comma', loc, row, add(col, v.cols), h)


# ------------------------------------------------------------------ operators
def std_operator(self, op, argn, e):
    from .interp import strip_type, split_targs
    from .astload import tname
    if op == '<<' and 'ostream' in tname(e):
        # output: the operands are evaluated, what is printed does not matter
        o = self.rv(argn[0])
        x = self.skip(argn[1])
        while x['kind'] == 'ImplicitCastExpr': x = self.skip(x['inner'][0])
        if not (x['kind'] == 'DeclRefExpr' and x['referencedDecl']['kind'] == 'FunctionDecl'): self.rv(argn[1])
        return o
    if op == '=':
        l, r = argn
        lt_ = tname(self.skip(l))
        rhs = self.skip(r)
        # scoped_ptr / iterators / containers / scalars
        v = self.rv(r)
        loc = self.lv(l)
        cur = self.read(loc)
        if isinstance(cur, Mat) and isinstance(v, (Mat, T)):
            noalias = self.pop_noalias(loc)
            return self.assign_mat(loc, v, root_type(self, l), '=', noalias)
        self.write(loc, v)
        return loc
    if op in ('+=', '-=', '*=', '/='):
        v = self.rv(argn[1])
        loc = self.lv(argn[0])
        cur = self.read(loc)
        if isinstance(cur, Mat):
            self.pop_noalias(loc)
            if op in ('+=', '-='):
                return self.assign_mat(loc, self.ref_mat(v), None, op[0])
            if isinstance(v, Mat):
                if op == '*=' and not (v.rows is I1 and v.cols is I1):
                    return self.assign_mat(loc, self.mat_mul(cur, v), root_type(self, argn[0]))
                v = v.at(I0, I0)
            return self.assign_mat(loc, self.mat_op(op[0], cur, v), None if loc.path and loc.path[-1][0] in ('blk', 'T') else root_type(self, argn[0]))
        if isinstance(cur, Iter):
            self.write(loc, self.iter_arith(op[0], cur, v))
            return loc
        self.write(loc, self.arith(op[0], cur, v))
        return loc
    if op == '()' or op == '[]':
        base = self.ev(self.skip(argn[0]))
        idx = [self.scalar(self.rv(x)) for x in argn[1:]]
        if isinstance(base, (Loc, Choice)):
            v = self.read(base)
            if isinstance(v, Iter) and op == '[]':
                return v.loc.add(('i', add(v.i, idx[0])))
            if isinstance(v, tuple) and v[0] == 'ptr': base = v[1]; v = self.read(base)
            st = path_for(self, v, idx)
            from .interp import loc_map
            return loc_map(base, lambda l: l.add(st))
        v = base
        st = path_for(self, v, idx)
        return self.step(v, st)
    if op == '<<':
        base = self.ev(self.skip(argn[0]))
        v0 = base
        if isinstance(base, (Loc,)) and isinstance(self.read(base), Mat):
            v = self.rv(argn[1])
            # first element
            m = self.read(base)
            if isinstance(v, T): v = Mat(I1, I1, (lambda x: lambda r, c: x)(v), v.sort)
            return self.comma_init(('comma', base, I0, I0, v.rows), v) if True else None
        # stream output: ignored
        for x in argn[1:]:
            pass
        return Opaque('stream')
    if op == ',':
        ci = self.ev(self.skip(argn[0]))
        v = self.rv(argn[1])
        if isinstance(ci, tuple) and ci[0] == 'comma': return self.comma_init(ci, v)
        raise Unsupported('comma operator')
    if op == '->' or (op == '*' and len(argn) == 1):
        base = self.ev(self.skip(argn[0]))
        loc = self.base_loc(base)
        v = self.read(loc)
        if isinstance(v, Iter):
            l = v.loc.add(('i', v.i))
            return ('ptr', l) if op == '->' else l
        if isinstance(v, Opaque): return loc
        if isinstance(v, tuple) and v[0] == 'ptr':
            return v if op == '->' else v[1]
        raise Unsupported('operator-> on %r' % (v,))
    if op in ('++', '--'):
        loc = self.lv(argn[0])
        cur = self.read(loc)
        if isinstance(cur, Iter):
            self.write(loc, Iter(cur.loc, add(cur.i, I(1 if op == '++' else -1))))
            return cur if len(argn) > 1 else loc
        raise Unsupported('operator ' + op)
    if op == '-' and len(argn) == 1:
        v = self.rv(argn[0])
        return self.mat_scale(R(-1) if v.sort == 'R' else I(-1), v)
    if op in ('+', '-', '*', '/', '==', '!=', '<', '>', '<=', '>='):
        a, b = self.rv(argn[0]), self.rv(argn[1])
        if isinstance(a, (Iter,)) or isinstance(b, Iter):
            return self.iter_arith(op, a, b)
        return self.arith(op, a, b)
    raise Unsupported('operator' + op)


def root_type(self, node):
    """static Matrix type of the assigned object (for fixed dimensions)"""
    from .astload import tname
    x = self.skip(node)
    while x['kind'] in ('ImplicitCastExpr',) and x.get('castKind') in ('UncheckedDerivedToBase', 'DerivedToBase', 'NoOp'):
        x = self.skip([y for y in x['inner'] if y][0])
    t = tname(x)
    if 'NoAlias<' in t:
        i = t.index('NoAlias<')
        t = t[i + 8:]
    if 'Block<' in t: return None
    return t


def path_for(self, v, idx):
    if isinstance(v, Vec):
        self.bound(idx[0], v.n, 'container index')
        return ('i', idx[0])
    if isinstance(v, Mat):
        if len(idx) == 2:
            self.bound(idx[0], v.rows, 'row index')
            self.bound(idx[1], v.cols, 'column index')
            return ('cell', idx[0], idx[1])
        if v.cols is I1 or v.rows is not I1:
            if v.cols is not I1:
                self.oblige('dim', eq(v.cols, I1), 'vector access on a column')
            self.bound(idx[0], v.rows, 'vector index')
            return ('cell', idx[0], I0)
        self.bound(idx[0], v.cols, 'row-vector index')
        return ('cell', I0, idx[0])
    raise Unsupported('subscript of %r' % (v,))


def iter_arith(self, op, a, b):
    if isinstance(a, (Loc, Choice)): a = self.read(a)
    if isinstance(b, (Loc, Choice)): b = self.read(b)
    if isinstance(a, Iter) and isinstance(b, Iter):
        if a.loc != b.loc: raise Unsupported('iterators of different containers')
        if op == '-': return sub(a.i, b.i)
        return self.arith(op, a.i, b.i)
    if isinstance(a, Iter):
        return Iter(a.loc, add(a.i, b) if op == '+' else sub(a.i, b))
    if isinstance(b, Iter) and op == '+': return Iter(b.loc, add(b.i, a))
    raise Unsupported('iterator arithmetic')


# ------------------------------------------------------------------ constructors of library types
def std_construct(self, t, argn, e):
    from .interp import split_targs, SCALAR_T, strip_type
    from .astload import tname
    if t.startswith('Eigen::Matrix<') or t.startswith('Matrix<') or t.startswith('Eigen::Array<'):
        if not argn: return self.default(t)
        a = split_targs(t)
        sort = SCALAR_T.get(a[0], 'R')
        r, c = int(a[1]), int(a[2])
        if len(argn) == 1:
            v = self.rv(argn[0])
            if isinstance(v, T):
                if v.sort == 'R' and not (r < 0):
                    if r == 1 and c == 1: return Mat(I1, I1, lambda i, j: v, sort)
                v = self.to_sort(v, 'I')
                n = 'junk!%d' % mark()
                rows, cols = (v, I(c)) if r < 0 and c >= 0 else (I(r), v) if c < 0 and r >= 0 else (v, v)
                return Mat(rows, cols, lambda i, j: app(n, (i, j), sort), sort)
            return self.coerce_ty(v, t)
        vals = [self.scalar(self.rv(x)) for x in argn]
        if r < 0 or c < 0:
            if len(vals) == 2 and r < 0 and c < 0:
                n = 'junk!%d' % mark()
                return Mat(self.to_sort(vals[0], 'I'), self.to_sort(vals[1], 'I'), lambda i, j: app(n, (i, j), sort), sort)
            if len(vals) == 2:
                n = 'junk!%d' % mark()
                return Mat(self.to_sort(vals[0], 'I'), self.to_sort(vals[1], 'I'), lambda i, j: app(n, (i, j), sort), sort)
            raise Unsupported('matrix constructor')
        vals = [lift(x, sort) for x in vals]
        if r * c != len(vals): raise Unsupported('matrix constructor arity')

        def el(i, j):
            out = vals[-1]
            for q in range(len(vals) - 2, -1, -1):
                out = ite(eq(i if c == 1 else j, I(q)), vals[q], out)
            return out
        return Mat(I(r), I(c), el, sort)
    if t.startswith('std::vector<') or t.startswith('boost::circular_buffer<') or t.startswith('boost::ptr_vector<'):
        args = [x for x in argn if self.skip(x)['kind'] != 'CXXDefaultArgExpr' and not allocator(tname(x))]
        if not args: return self.default(t)
        v = self.rv(args[0])
        if isinstance(v, Vec): return v
        d = self.default(t)
        if isinstance(v, T):
            n = self.to_sort(v, 'I')
            et = split_targs(t)[0]
            if len(args) > 1:
                x = self.rv(args[1])
                return Vec(n, lambda i: x, et)
            st = strip_type(et)
            if st in SCALAR_T:
                z = const(0, SCALAR_T[st])
                return Vec(n, lambda i: z, et)
            x = self.default(et)
            return Vec(n, lambda i: x, et)
        if isinstance(v, Iter):
            w = self.rv(args[1])
            src = self.read(v.loc)
            return Vec(sub(w.i, v.i), lambda i: src.at(add(i, v.i)), src.etype)
        raise Unsupported('container constructor')
    if '__normal_iterator' in t or 'iterator' in t:
        return self.rv(argn[0])
    if t.startswith('boost::scoped_ptr<') or t.startswith('std::unique_ptr<') or t.startswith('std::shared_ptr<'):
        args = [x for x in argn if self.skip(x)['kind'] != 'CXXDefaultArgExpr']
        if not args: return NULL
        v = self.rv(args[0])
        return v
    if 'FullPivLU<' in t or 'PartialPivLU<' in t:
        m = self.rv(argn[0])
        return Opaque('LU', {'m': m})
    if t.startswith('boost::noncopyable'): return Struct('noncopyable', {})
    if allocator(t): return Opaque('alloc')
    if t in SCALAR_T and argn:
        return self.coerce_ty(self.rv(argn[0]), t)
    raise Unsupported('construct ' + t)


def allocator(t):
    return 'allocator' in t and 'vector<' not in t and 'circular_buffer<' not in t


# ------------------------------------------------------------------ free functions
def std_call(self, name, argn, e, rd):
    from .interp import SCALAR_T, strip_type, split_targs
    from .astload import tname
    if name in ('Identity', 'Zero', 'Constant', 'Ones'):
        t = tname(e)
        args = [self.rv(x) for x in argn]
        m = re.search(r'Matrix<(\w+),\s*(-?\d+),\s*(-?\d+)', t)
        sort = SCALAR_T.get(m.group(1), 'R') if m else 'R'
        dims = [I(int(m.group(2))), I(int(m.group(3)))] if m else [I(-1), I(-1)]
        val = None
        if name == 'Constant':
            val = args[-1]; args = args[:-1]
        if len(args) == 2: dims = [args[0], args[1]]
        elif len(args) == 1: dims = [args[0], I1] if cval(dims[1]) == 1 else [I1, args[0]]
        for q in range(2):
            if dims[q].op == 'c' and cval(dims[q]) < 0: raise Unsupported(name + ' without sizes')
        one, zero = const(1, sort), const(0, sort)
        if name == 'Identity':
            return Mat(dims[0], dims[1], lambda r, c: ite(eq(r, c), one, zero), sort)
        x = zero if name == 'Zero' else one if name == 'Ones' else lift(val, sort)
        return Mat(dims[0], dims[1], lambda r, c: x, sort)
    if name in ('abs', 'fabs'):
        x = self.scalar(self.rv(argn[0]))
        return absr(x)
    if name == 'pow':
        x = lift(self.scalar(self.rv(argn[0])), 'R')
        n = self.scalar(self.rv(argn[1]))
        n0 = n
        if n.op == 'c' and n.a[0].denominator == 1 and 0 <= n.a[0] <= 12:
            return power(x, int(n.a[0]))
        if n.op == 'c' and n.a[0] < 0 and n.a[0].denominator == 1:
            self.oblige('div', ne(x, R0), 'base of a negative power is not zero')
            return inv(power(x, int(-n.a[0])))
        raise Unsupported('pow with a symbolic exponent')
    if name in ('sin', 'cos', 'acos', 'asin', 'atan', 'sqrt', 'tan', 'exp', 'log', 'floor', 'ceil', 'round'):
        x = lift(self.scalar(self.rv(argn[0])), 'R')
        return app(name, (x,), 'R')
    if name in ('atan2', 'fmod', 'hypot'):
        return app(name, tuple(lift(self.scalar(self.rv(x)), 'R') for x in argn), 'R')
    if name in ('max', 'min', 'fmax', 'fmin'):
        a, b = self.scalar(self.rv(argn[0])), self.scalar(self.rv(argn[1]))
        if a.sort != b.sort: a, b = lift(a, 'R'), lift(b, 'R')
        return maxr(a, b) if 'max' in name else minr(a, b)
    if name == 'swap':
        a, b = self.lv(argn[0]), self.lv(argn[1])
        x, y = self.read(a), self.read(b)
        self.write(a, y); self.write(b, x)
        return None
    if name in ('move', 'forward', 'addressof', 'as_const', 'ref', 'cref'):
        if name == 'addressof': return ('ptr', self.lv(argn[0]))
        return self.ev(argn[0])
    if name == 'quiet_NaN': return NAN()
    if name == 'pi': return app('PI', (), 'R')
    if name in ('max', 'infinity') and not argn: return app('INF', (), 'R')
    if name in ('isnan',):
        return FALSE
    if name in ('isfinite',): return TRUE
    if name == 'abort':
        self.oblige('unreachable', FALSE, 'abort() is not reachable')
        raise _af()
    if name == '__assert_fail':
        self.oblige('assert', FALSE, 'assertion')
        raise _af()
    if name == 'makeQPSolver':
        h = self.contracts.get('makeQPSolver')
        if h: 
            self.used_contracts.add('makeQPSolver')
            return h(self, None, [self.arg(x) for x in argn])
        return Opaque('QP', {'nv': self.rv(argn[0]), 'nc': self.rv(argn[1])})
    if name in ('fill', 'fill_n') and len(argn) == 3:
        a = self.rv(argn[0]); b = self.rv(argn[1]); x = self.rv(argn[2])
        if isinstance(a, Iter):
            v = self.read(a.loc)
            hi = b.i if isinstance(b, Iter) else add(a.i, b)
            self.write(a.loc, Vec(v.n, lambda i: merge(land(le(a.i, i), lt(i, hi)), x, v.at(i)), v.etype))
            return None
    raise Unsupported('call of %s' % name)


def _af():
    from .interp import AssumeFalse
    return AssumeFalse('abort')


# ------------------------------------------------------------------ member functions
def std_member(self, name, basen, argn, e, m):
    from .interp import strip_type, SCALAR_T, loc_map, split_targs
    from .astload import tname
    b = self.ev(self.skip(basen))
    while isinstance(b, tuple) and b[0] == 'ptr':
        b = b[1]
    loc = b if isinstance(b, (Loc, Choice)) else None
    v = self.read(b) if loc is not None else b
    if isinstance(v, tuple) and v and v[0] == 'ptr':
        loc = v[1]; v = self.read(loc)
    argn = [x for x in argn if self.skip(x)['kind'] != 'CXXDefaultArgExpr']

    def A(i): return self.rv(argn[i])
    def AI(i): return self.to_sort(self.scalar(self.rv(argn[i])), 'I')

    def view(st):
        if loc is not None: return loc_map(loc, lambda l: l.add(st))
        return self.step(v, st)
    if isinstance(v, Mat):
        if name in ('rows',): return v.rows
        if name in ('cols',): return v.cols
        if name in ('size',):
            return mul(v.rows, v.cols)
        if name == 'noalias':
            self.noalias_loc = loc
            return b
        if name in ('eval', 'matrix', 'array', 'derived', 'const_cast_derived', 'nestedExpression', 'triangularView', 'selfadjointView'):
            if name in ('triangularView', 'selfadjointView'): raise Unsupported(name)
            if name == 'array': raise Unsupported('array()')
            return v if name == 'eval' else b
        if name in ('block', 'segment', 'head', 'tail', 'row', 'col', 'topRows', 'bottomRows', 'leftCols', 'rightCols',
                    'middleRows', 'middleCols', 'topLeftCorner', 'topRightCorner', 'bottomLeftCorner', 'bottomRightCorner'):
            targ = re.search(r'Block<.*', tname(e))
            vec = v.cols is I1 or (v.cols.op != 'c' and v.rows is not I1 and name in ('segment', 'head', 'tail') )
            fixed = fixed_block(tname(e)) if not argn or name in ('segment', 'head', 'tail', 'block') else None
            if name == 'block':
                if len(argn) == 4: r0, c0, h, w = AI(0), AI(1), AI(2), AI(3)
                else:
                    r0, c0 = AI(0), AI(1); h, w = fixed
            elif name in ('segment', 'head', 'tail'):
                rowv = v.rows is I1 and v.cols is not I1
                tot = v.cols if rowv else v.rows
                if name == 'segment':
                    s = AI(0)
                    n = AI(1) if len(argn) > 1 else (fixed[1] if rowv else fixed[0])
                else:
                    n = AI(0) if argn else (fixed[1] if rowv else fixed[0])
                    s = I0 if name == 'head' else sub(tot, n)
                r0, c0, h, w = (I0, s, I1, n) if rowv else (s, I0, n, I1)
            elif name == 'row': r0, c0, h, w = AI(0), I0, I1, v.cols
            elif name == 'col': r0, c0, h, w = I0, AI(0), v.rows, I1
            elif name == 'topRows': r0, c0, h, w = I0, I0, AI(0), v.cols
            elif name == 'bottomRows': n = AI(0); r0, c0, h, w = sub(v.rows, n), I0, n, v.cols
            elif name == 'leftCols': r0, c0, h, w = I0, I0, v.rows, AI(0)
            elif name == 'rightCols': n = AI(0); r0, c0, h, w = I0, sub(v.cols, n), v.rows, n
            elif name == 'middleRows': r0, c0, h, w = AI(0), I0, AI(1), v.cols
            elif name == 'middleCols': r0, c0, h, w = I0, AI(0), v.rows, AI(1)
            else:
                h, w = AI(0), AI(1)
                r0 = I0 if name.startswith('top') else sub(v.rows, h)
                c0 = I0 if name.endswith('LeftCorner') else sub(v.cols, w)
            if not self.quiet:
                cs = []
                if not (r0 is I0 and h is v.rows): cs += [le(I0, r0), le(I0, h), le(add(r0, h), v.rows)]
                if not (c0 is I0 and w is v.cols): cs += [le(I0, c0), le(I0, w), le(add(c0, w), v.cols)]
                if cs: self.oblige('bounds', land(*cs), name + ' inside the matrix')
            if r0 is I0 and c0 is I0 and h is v.rows and w is v.cols:
                return view(('blk', r0, c0, h, w))
            return view(('blk', r0, c0, h, w))
        if name in ('transpose', 'adjoint'):
            return view(('T',))
        if name == 'diagonal': return view(('diag',))
        if name in ('fill', 'setConstant') and len(argn) == 1:
            x = lift(self.scalar(A(0)), v.sort)
            self.write(loc, mat_const(v.rows, v.cols, x, v.sort)); return loc
        if name in ('setZero', 'setConstant', 'setOnes', 'setIdentity'):
            args = [self.rv(x) for x in argn]
            val = const(0, v.sort)
            if name == 'setConstant': val = lift(self.scalar(args[-1]), v.sort); args = args[:-1]
            if name == 'setOnes': val = const(1, v.sort)
            rows, cols = v.rows, v.cols
            if len(args) == 1:
                if v.rows is I1 and v.cols is not I1: cols = args[0]
                else: rows = args[0]; 
            elif len(args) == 2: rows, cols = args
            if not self.quiet and args: self.oblige('dim', land(le(I0, rows), le(I0, cols)), name + ' sizes are not negative')
            if name == 'setIdentity':
                one, zero = const(1, v.sort), const(0, v.sort)
                self.write(loc, Mat(rows, cols, lambda r, c: ite(eq(r, c), one, zero), v.sort))
            else:
                self.write(loc, mat_const(rows, cols, val, v.sort))
            return loc
        if name in ('resize', 'conservativeResize', 'resizeLike', 'conservativeResizeLike'):
            args = [self.rv(x) for x in argn]
            if name.endswith('Like'): rows, cols = args[0].rows, args[0].cols
            elif len(args) == 1:
                if v.rows is I1 and v.cols is not I1: rows, cols = I1, args[0]
                else: rows, cols = args[0], v.cols
            else: rows, cols = args
            if not self.quiet: self.oblige('dim', land(le(I0, rows), le(I0, cols)), name + ' sizes are not negative')
            jn = 'junk!%d' % mark()
            old = v
            if name.startswith('conservative'):
                self.write(loc, Mat(rows, cols, lambda r, c: ite(land(lt(r, old.rows), lt(c, old.cols)), old.at(r, c), app(jn, (r, c), old.sort)), v.sort))
            else:
                # same size keeps the data
                same = land(eq(rows, v.rows), eq(cols, v.cols))
                self.write(loc, Mat(rows, cols, lambda r, c: ite(same, old.at(r, c), app(jn, (r, c), old.sort)), v.sort))
            return None
        if name == 'swap':
            o = self.lv(argn[0])
            w = self.read(o)
            self.write(o, v); self.write(loc, w)
            return None
        if name in ('cwiseMin', 'cwiseMax'):
            w = A(0)
            f = minr if name == 'cwiseMin' else maxr
            if isinstance(w, T): return Mat(v.rows, v.cols, lambda r, c: f(v.at(r, c), w), v.sort)
            self.shape(v, w)
            return Mat(v.rows, v.cols, lambda r, c: f(v.at(r, c), w.at(r, c)), v.sort)
        if name == 'cwiseProduct':
            w = A(0); self.shape(v, w)
            return Mat(v.rows, v.cols, lambda r, c: mul(v.at(r, c), w.at(r, c)), v.sort)
        if name == 'cwiseAbs': return Mat(v.rows, v.cols, lambda r, c: absr(v.at(r, c)), v.sort)
        if name == 'cast':
            t = tname(e)
            if v.sort == 'I': return Mat(v.rows, v.cols, lambda r, c: i2r(v.at(r, c)), 'R')
            return v
        if name == 'dot':
            w = A(0)
            return mksum(I0, v.rows, lambda k: mul(v.at(k, I0), w.at(k, I0)))
        if name == 'squaredNorm':
            return mksum(I0, v.rows, lambda k: mksum(I0, v.cols, lambda l: mul(v.at(k, l), v.at(k, l))))
        if name == 'norm':
            return app('sqrt', (mksum(I0, v.rows, lambda k: mksum(I0, v.cols, lambda l: mul(v.at(k, l), v.at(k, l)))),), 'R')
        if name == 'sum':
            return mksum(I0, v.rows, lambda k: mksum(I0, v.cols, lambda l: v.at(k, l)))
        if name == 'isZero':
            prec = A(0) if argn else app('DUMMYPREC', (), 'R')
            # |x| <= prec for every coefficient
            if v.rows.op == 'c' and v.cols.op == 'c':
                return land(*[le(absr(v.at(I(i), I(j))), prec) for i in range(int(cval(v.rows))) for j in range(int(cval(v.cols)))])
            raise Unsupported('isZero of a dynamic matrix')
        if name == 'isApprox':
            w = A(0)
            prec = A(1) if len(argn) > 1 else app('DUMMYPREC', (), 'R')
            if v.rows.op == 'c' and v.cols.op == 'c':
                n2 = lambda f: mksum(I0, v.rows, lambda k: mksum(I0, v.cols, lambda l: mul(f(k, l), f(k, l))))
                d = n2(lambda k, l: sub(v.at(k, l), w.at(k, l)))
                return le(d, mul(prec, prec, minr(n2(v.at), n2(w.at))))
            raise Unsupported('isApprox of a dynamic matrix')
        if name in ('coeff', 'coeffRef', 'operator()'):
            return view(path_for(self, v, [AI(i) for i in range(len(argn))]))
        if name in ('x', 'y', 'z', 'w'):
            return view(('cell', I('xyzw'.index(name)), I0))
        if name == 'inverse' and v.rows.op == 'c' and cval(v.rows) == 1:
            return Mat(I1, I1, lambda r, c: inv(v.at(r, c)))
        if name == 'inverse':
            return minv(v)
        if name == 'asDiagonal':
            return Mat(v.rows, v.rows, lambda r, c: ite(eq(r, c), v.at(r, I0), R0), v.sort)
        if name == 'value' or name.startswith('operator '):
            return v.at(I0, I0)
        if name == 'finished': return v
        if name == 'data':
            if loc is None: raise Unsupported('data() of a temporary')
            return Opaque('data', {'loc': loc})
        if name == 'operator=' or name == 'lazyAssign':
            w = A(0)
            return self.assign_mat(loc, w, root_type(self, basen))
        raise Unsupported('Eigen method ' + name)
    if isinstance(v, Vec):
        if name == 'size': return v.n
        if name == 'empty': return eq(v.n, I0)
        if name in ('reserve', 'shrink_to_fit'): return None
        if name == 'capacity': return app('capacity', (v.n,), 'I')
        if name == 'set_capacity': return None
        if name == 'push_back' or name == 'emplace_back':
            x = A(0)
            if x is NULL: raise Unsupported('push of null')
            n, old = v.n, v
            self.write(loc, Vec(add(n, I1), lambda i: merge_elem(eq(i, n), x, old, i), v.etype)); return None
        if name == 'front' or name == 'back' or name == 'at' or name == 'operator[]':
            i = I0 if name == 'front' else sub(v.n, I1) if name == 'back' else AI(0)
            self.bound(i, v.n, name + '()')
            return loc_map(loc, lambda l: l.add(('i', i))) if loc is not None else v.at(i)
        if name == 'pop_front':
            self.bound(I0, v.n, 'pop_front()')
            old = v
            self.write(loc, Vec(sub(v.n, I1), lambda i: old.at(add(i, I1)), v.etype)); return None
        if name == 'pop_back':
            self.bound(I0, v.n, 'pop_back()')
            self.write(loc, Vec(sub(v.n, I1), v.at, v.etype)); return None
        if name == 'clear':
            self.write(loc, Vec(I0, v.at, v.etype)); return None
        if name in ('resize', 'assign'):
            n = AI(0)
            old = v
            if len(argn) > 1: x = A(1)
            else:
                st = strip_type(v.etype)
                x = const(0, SCALAR_T[st]) if st in SCALAR_T else self.default(v.etype)
            if not self.quiet: self.oblige('dim', le(I0, n), 'container size is not negative')
            if name == 'assign': self.write(loc, Vec(n, lambda i: x, v.etype)); return None
            on = v.n
            self.write(loc, Vec(n, lambda i: merge_elem2(lt(i, on), old, i, x), v.etype, x)); return None
        if name in ('begin', 'cbegin'): return Iter(loc, I0)
        if name in ('end', 'cend'): return Iter(loc, v.n)
        if name == 'erase':
            a = A(0)
            old = v
            cnt = I1
            if len(argn) > 1: cnt = sub(A(1).i, a.i)
            self.oblige('bounds', land(le(I0, a.i), le(add(a.i, cnt), v.n)), 'erase in range')
            self.write(loc, Vec(sub(v.n, cnt), lambda i: merge(lt(i, a.i), old.at(i), old.at(add(i, cnt))), v.etype))
            return Iter(loc, a.i)
        if name == 'insert':
            a = A(0); x = A(1)
            old = v
            self.oblige('bounds', land(le(I0, a.i), le(a.i, v.n)), 'insert in range')
            self.write(loc, Vec(add(v.n, I1), lambda i: merge(lt(i, a.i), old.at(i), merge(eq(i, a.i), x, old.at(sub(i, I1)))), v.etype))
            return Iter(loc, a.i)
        if name in ('full',): raise Unsupported(name)
        raise Unsupported('container method ' + name)
    if isinstance(v, Opaque) and v.tag == 'LU':
        if name == 'inverse':
            return minv(v.data['m'])
        raise Unsupported('LU.' + name)
    if isinstance(v, Opaque) and v.tag in ('stream',): return v
    if (v is NULL or isinstance(v, Opaque)) and name == 'reset':
        self.write(loc, A(0) if argn else NULL)
        return None
    if (v is NULL or isinstance(v, Opaque)) and name == 'get': return v
    if isinstance(v, T) and name.startswith('operator '): return v
    raise Unsupported('method %s on %r' % (name, v))


def merge_elem(c, x, old, i):
    if c is TRUE: return x
    return merge(c, x, old.at(i))


def merge_elem2(c, old, i, x):
    if c is TRUE: return old.at(i)
    if c is FALSE: return x
    return merge(c, old.at(i), x)


def minv(m):
    """inverse of a matrix as an opaque function of its elements"""
    r, c = var('#r'), var('#c')
    body = m.at(r, c)
    return Mat(m.rows, m.cols, lambda i, j: app('minv', (m.rows, mk('lam', (body,), 'R'), i, j), 'R'), 'R')


def fixed_block(t):
    m = re.search(r'Block<.*,\s*(-?\d+),\s*(-?\d+),\s*(?:true|false)?', t)
    if not m:
        m = re.search(r'VectorBlock<.*,\s*(-?\d+)>', t)
        if m: return I(int(m.group(1))), I(int(m.group(1)))
        return None, None
    return I(int(m.group(1))), I(int(m.group(2)))
