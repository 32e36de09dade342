"""Callee contracts of the matrix builders: at a call the contract stands for the body.

Each builder is shown in specs/C01.cpp to determine every entry of its result from its arguments alone (integration
recurrences, exact transposes, inverse of U cut at the threshold, inverseLU itself for the LU-based ones); callers only get those facts: the entries are
uninterpreted functions of the arguments, with the exact zero/identity/transposition structure, and the centre of
pressure expressed through position and acceleration."""
from .terms import *
from .values import *
from .harness import argval, symbolic
from . import feet
from .tidy import resolve


def _dyn(X, loc, cols, N, S, U, Ui, K):
    sd = X.read(loc)
    f = {'S': Mat(N, I(cols), S), 'U': Mat(N, N, U), 'UT': Mat(N, N, lambda r, c: U(c, r)),
         'Uinv': Mat(N, N, Ui), 'UTinv': Mat(N, N, lambda r, c: Ui(c, r)), 'K': Mat(N, I1, K)}
    if set(sd.f) != set(f): raise Unsupported('LinearDynamic has other fields than its contract knows')
    X.write(loc, Struct(sd.cls, f))


def _args(X, args, kinds):
    out = []
    for a, k in zip(args, kinds):
        if k == 'L':
            if a[0] != 'l': raise Unsupported('output argument by value')
            out.append(a[1])
        else:
            out.append(lift(X.to_sort(X.scalar(argval(X, a)), k), k))
    return out


def builder(pre, cols):
    def h(X, this, args):
        S, T, N, loc = _args(X, args, 'RRIL')
        X.oblige('requires', land(lt(R0, S), lt(R0, T), lt(I0, N)), 'precondition S>0, T>0, N>0 of a matrix builder')
        _dyn(X, loc, cols, N, lambda i, c: app(pre + 'S', (S, T, i, c), 'R'), lambda i, j: app(pre + 'U', (S, T, i, j), 'R'),
             lambda i, j: app(pre + 'Uinv', (S, T, N, i, j), 'R'), lambda i, c: R0)
    return h


def epsilon(X):
    for d in X.prog.decl.values():
        if d.get('kind') == 'VarDecl' and d.get('name') == 'EPSILON' and X.prog.owner.get(d['id']) == 'Constant<double>':
            loc = X.const_decl(d)
            if loc.root not in X.st.v: X.st.v[loc.root] = X.const_roots[loc.root]
            return X.read(loc)
    raise Unsupported('no EPSILON')


def cop(X, this, args):
    S, T, N, loc, h, gx, gz, m, tot = _args(X, args, 'RRILRRRRR')
    X.oblige('requires', land(lt(R0, S), lt(R0, T), lt(I0, N)), 'precondition S>0, T>0, N>0 of a matrix builder')
    eps = epsilon(X)
    X.oblige('requires', land(lt(eps, absr(gz)), lt(eps, tot), le(R0, m), le(m, tot)),
             'precondition of computeCopDynamic on gravity and masses')
    k = div(m, tot)
    hg = div(h, gz)
    el = lambda w: (lambda i, j: mul(k, sub(app('pos' + w, (S, T, i, j), 'R'), mul(hg, app('acc' + w, (S, T, i, j), 'R')))))
    _dyn(X, loc, 3, N, el('S'), el('U'), lambda i, j: app('copUinv', (S, T, N, h, gz, m, tot, i, j), 'R'),
         lambda i, c: neg(mul(k, hg, gx)))


def jerk(X, this, args):
    N, loc = _args(X, args, 'IL')
    X.oblige('requires', lt(I0, N), 'precondition N>0 of computeJerkDynamic')
    ident = lambda i, j: ite(eq(i, j), R1, R0)
    _dyn(X, loc, 3, N, lambda i, c: R0, ident, ident, lambda i, c: R0)


BUILDERS = {'computePosDynamic': builder('pos', 3), 'computeVelDynamic': builder('vel', 3), 'computeAccDynamic': builder('acc', 3),
            'computeOrder2PosDynamic': builder('pos2', 2), 'computeOrder2VelDynamic': builder('vel2', 2),
            'computeCopDynamic': cop, 'computeJerkDynamic': jerk}


def inverse_lu(X, this, args):
    """the cut inverse, a function of the entries of the matrix and of the threshold (contract shown in C01)"""
    a, loc, eps = argval(X, args[0]), args[1][1], lift(X.to_sort(X.scalar(argval(X, args[2])), 'R'), 'R')
    if not isinstance(a, Mat) or args[1][0] != 'l': raise Unsupported('arguments of inverseLU')
    X.oblige('requires', eq(a.rows, a.cols), 'square matrix given to inverseLU')
    body = a.at(var('#r'), var('#c'))
    X.write(loc, Mat(a.rows, a.cols, lambda i, j: app('inverseLU', (a.rows, mk('lam', (body,), 'R'), eps, i, j), 'R'), 'R'))


def any_points(X, this, args):
    """extractVertices: any list of points at all"""
    ln = var('hull!%d' % mark(), 'I')
    X.p.assume(le(I0, ln))
    nm = ln.a[0] + '.at'
    return Vec(ln, lambda i: Mat(I(2), I1, lambda r, c: app(nm, (i, r), 'R')), 'Eigen::Matrix<double, 2, 1>')


def factor_of(X, m):
    b = m.at(var('#r'), var('#c'))
    # memory that was not initialised goes under one name (it is outside the matrix); only the factor depends on it
    b = subst_terms(b, {t: app('junk?', t.a[1], t.sort)
                        for t in subterms(b, lambda t: t.op == 'app' and t.a[0].startswith('junk!'))})
    r = app('normFactor%d' % b.id, (m.rows, m.cols), 'R')
    X.functions_of_matrix[r] = m
    X.p.assume(le(R1, r))
    return r


def norm_factor(X, this, args):
    """QPMatrices::getNormalizationFactor: at least one, a function of the matrix and the threshold (C15)"""
    m = argval(X, args[0])
    if not isinstance(m, Mat): raise Unsupported('arguments of getNormalizationFactor')
    if not cval_is(X, args[1]): raise Unsupported('threshold of getNormalizationFactor')
    return factor_of(X, m)


def cval_is(X, a): return X.scalar(argval(X, a)).op == 'c'


def normalisation(X, this, args):
    """ZebulonWalkgen::computeNormalizationFactor: two factors of at least one, each a function of its matrix alone
    (shown by the harness `normalisation' of C17); nothing else changes"""
    v = X.read(this)
    f = dict(v.f)
    for a, nm in zip(args, ('invObjNormFactor_', 'invCtrNormFactor_')):
        m = argval(X, a)
        if not isinstance(m, Mat) or nm not in f: raise Unsupported('arguments of computeNormalizationFactor')
        r = factor_of(X, m)
        f[nm] = r
    X.write(this, Struct(v.cls, f))


def polygon_of(X, loc, args):
    """ConvexPolygon(points): some polygon, a function of the points given (they are only read; C04 and C05 tell which)"""
    if len(args) != 1: return False
    p = argval(X, args[0])
    if not isinstance(p, Vec): return False
    k = var('#k')
    v = p.at(k)
    X.p.push()
    X.p.assume(le(I0, k)); X.p.assume(lt(k, p.n))
    c = [resolve(X.p.ctx, v.at(I(r), I0)) for r in (0, 1)]
    X.p.pop()
    X.write(loc, symbolic(X, 'ConvexPolygon<double>', 'polygonOf%d_%d_%d' % (c[0].id, c[1].id, p.n.id)))


# ---------------------------------------------------------------- qpOASES (external, specs/QProblem.hpp): any answer
OASES = 'ghost:oases'


def oases(X):
    if OASES not in X.st.v:
        z = lambda r, c: Mat(r, c, lambda i, j: R0)
        m = Struct('QPMatrices<double>', {'Q': z(I0, I0), 'p': z(I0, I1), 'xl': z(I0, I1), 'xu': z(I0, I1),
                                          'A': z(I0, I0), 'bu': z(I0, I1), 'bl': z(I0, I1)})
        X.st.v[OASES] = Struct('VcOases', {'m': m, 'nv': I0, 'nc': I0, 'inits': I0, 'hots': I0, 'early': FALSE, 'nWSR': I0,
                                           'ret': I0, 'primal': z(I0, I1)})
    return Loc(OASES)


def oases_contracts(X):
    from . import harness
    harness.VC['vcOases'] = lambda X, argn, e: oases(X)

    def reset(X, argn, e):
        g = oases(X)
        for f, v in (('inits', I0), ('hots', I0), ('early', FALSE)): X.write(g.add(('f', f)), v)
    harness.VC['vcOasesReset'] = reset
    harness.VC['vcStream'] = lambda X, argn, e: ('ptr', X.alloc(Opaque('stream', {}), 'stream'))

    def ctor(X, loc, args):
        if len(args) != 2: return False
        nv, nc = (X.to_sort(X.scalar(argval(X, a)), 'I') for a in args)
        X.write(loc, Opaque('Oases', {'nv': nv, 'nc': nc, 'ready': FALSE}))

    def mem(X, a, rows, cols, what):
        """the matrix behind a pointer given to the solver"""
        v = argval(X, a)
        if not isinstance(v, Opaque) or v.tag != 'data': raise Unsupported('pointer given to qpOASES')
        m = X.read(v.data['loc'])
        X.oblige('requires', land(eq(m.rows, rows), eq(m.cols, cols)), 'size of the %s given to qpOASES' % what)
        return m

    def call(X, this, args, hot):
        o, loc = this
        if loc is None: raise Unsupported('solver without a location')
        nv, nc = o.data['nv'], o.data['nc']
        names = (['p'] if hot else ['Q', 'p', 'A']) + ['xl', 'xu', 'bl', 'bu']
        if len(args) < len(names) + 1 or len(args) > len(names) + 2: raise Unsupported('arguments of qpOASES')
        size = {'Q': (nv, nv), 'p': (nv, I1), 'A': (nc, nv), 'xl': (nv, I1), 'xu': (nv, I1), 'bl': (nc, I1), 'bu': (nc, I1)}
        g = X.read(oases(X))
        m = g.f['m']
        for n, a in zip(names, args): m = m.with_(n, mem(X, a, size[n][0], size[n][1], n))
        it = args[len(names)]
        if it[0] != 'l': raise Unsupported('iteration limit of qpOASES')
        lim = X.to_sort(X.scalar(X.read(it[1])), 'I')
        k = mark()
        X.write(it[1], var('nWSR!%d' % k, 'I'))
        ret = var('returnValue!%d' % k, 'I')
        f = dict(g.f, m=m, nv=nv, nc=nc, nWSR=lim, ret=ret,
                 primal=Mat(nv, I1, lambda i, j: app('primal!%d' % k, (i,), 'R')))
        if hot: f.update(hots=add(f['hots'], I1), early=lor(f['early'], lnot(o.data['ready'])))
        else: f['inits'] = add(f['inits'], I1)
        X.write(oases(X), Struct('VcOases', f))
        X.write(loc, Opaque('Oases', dict(o.data, ready=o.data['ready'] if hot else TRUE)))
        return ret

    def primal(X, this, args):
        o, loc = this
        d = argval(X, args[0])
        if not isinstance(d, Opaque) or d.tag != 'data': raise Unsupported('pointer given to qpOASES')
        x = X.read(d.data['loc'])
        X.oblige('requires', eq(x.rows, o.data['nv']), 'memory for the solution')
        g = X.read(oases(X))
        k = mark()
        ok = eq(g.f['ret'], I0)
        X.write(d.data['loc'], merge(ok, g.f['primal'], Mat(x.rows, I1, lambda i, j: app('unsolved!%d' % k, (i,), 'R'))))
        return ite(ok, I0, var('notSolved!%d' % k, 'I'))
    C = X.contracts
    C['ctor:QProblem'] = ctor
    C['Oases:init'] = lambda X, this, args: call(X, this, args, False)
    C['Oases:hotstart'] = lambda X, this, args: call(X, this, args, True)
    C['Oases:getPrimalSolution'] = primal
    C['Oases:setPrintLevel'] = lambda X, this, args: I0
    C['Oases:getNV'] = lambda X, this, args: this[0].data['nv']
    C['Oases:getNC'] = lambda X, this, args: this[0].data['nc']


# ---------------------------------------------------------------- the humanoid generator's table of solvers
def table(X, this, args):
    """HumanoidWalkgen::computeConstantPart: tables of programs and of solvers of the sizes the invariant tells (shown by
    the harness `tables' of C18, bounded); the maxima depend on the supervisor and the configuration alone"""
    v = X.read(this)
    f = dict(v.f)
    n = 'table!%d' % mark()
    ln, nv, nc = var(n, 'I'), (lambda i: app(n + '.nv', (i,), 'I')), (lambda i: app(n + '.nc', (i,), 'I'))
    for a in (n + '.nv', n + '.nc'): X.p.ctx.axioms[a] = (lambda a: lambda i: [le(I0, app(a, (i,), 'I'))])(a)
    X.p.assume(le(I0, ln))
    m = lambda nm, i, r, c: Mat(r, c, lambda k, l: app(n + '.' + nm, (i, k, l), 'R'))
    prog = lambda i: Struct('QPMatrices<double>', {
        'Q': m('Q', i, nv(i), nv(i)), 'p': m('p', i, nv(i), I1), 'xl': m('xl', i, nv(i), I1), 'xu': m('xu', i, nv(i), I1),
        'A': m('A', i, nc(i), nv(i)), 'bu': m('bu', i, nc(i), I1), 'bl': m('bl', i, nc(i), I1)})
    solver = lambda i: Opaque('QP', {'nv': nv(i), 'nc': nc(i), 'init': app(n + '.init', (i,), 'B'),
                                     'Q': m('oldQ', i, nv(i), nv(i)), 'A': m('oldA', i, nc(i), nv(i))})
    f['qpMatrixVec_'] = Vec(ln, prog, 'QPMatrices<double>')
    f['qpoasesSolverVec_'] = Vec(ln, solver, 'QP')
    fs = f['feetSupervisor_'].data
    for k, o in (('maximumNbOfSteps_', fs['N']),
                 ('maximumNbOfConstraints_', app('hum.most', (fs['v'], f['config_'].f['withCopConstraints'],
                                                              f['config_'].f['withFeetConstraints']), 'I'))): f[k] = o
    X.write(this, Struct(v.cls, f))


def vc_table(X, argn, e):
    """the invariant at one index: there is a program and a solver of that size"""
    a, b = X.rv(argn[0]), X.rv(argn[1])
    i, nv, nc = (X.to_sort(X.scalar(X.rv(x)), 'I') for x in argn[2:5])
    for v in (a, b):
        X.p.assume(le(I0, i))
        X.p.assume(lt(i, v.n))
    m, q = a.at(i), b.at(i)
    X.p.assume(eq(m.f['p'].rows, nv))
    X.p.assume(eq(m.f['bl'].rows, nc))
    X.p.assume(eq(q.data['nv'], nv))
    X.p.assume(eq(q.data['nc'], nc))


def humanoid_contracts(X):
    from . import harness
    harness.VC['vcTable'] = vc_table
    X.contracts['HumanoidWalkgen<double>::computeConstantPart'] = table
    X.contracts['QPMatrices<double>::getNormalizationFactor'] = norm_factor


def setup(prop):
    if prop in ('C01', 'C05'): return None

    def f(X):
        if prop == 'C04': X.contracts['ConvexPolygon<double>::extractVertices'] = any_points
        if prop in ('C12', 'C13', 'C18') and not X.name.startswith('feet_'): feet.install(X)
        if prop == 'C18': humanoid_contracts(X)
        if prop == 'C19': oases_contracts(X)
        if prop == 'C17': X.contracts['ctor:ConvexPolygon<double>'] = polygon_of
        if prop == 'C17' and X.name != 'normalisation':
            X.contracts['ZebulonWalkgen<double>::computeNormalizationFactor'] = normalisation
        X.contracts['inverseLU'] = inverse_lu
        for n, h in BUILDERS.items(): X.contracts['ConstantJerkDynamic<double>::' + n] = h
    return f
