"""HumanoidFeetSupervisor behind its contract: an abstract value.

The functions built on top of it (objectives, constraints, humanoid generator) only see observers.  Every observer is
an uninterpreted function of the abstract state v; the contract promises no more than sizes, signs and the one
transposition each: N samples, M >= 0 previewed steps, V of N x M with its transpose, V0 of N x 1, square rotation with
its transpose, polygons with a non-negative number of half-planes and coefficient vectors of that length.  A polygon
or support-state reference is only good until the next call of its getter (the supervisor rebuilds both in place)."""
from .terms import *
from .values import *
from . import harness
from .harness import argval

CLS = 'HumanoidFeetSupervisor<double>'


def mat(nm, args, r, c): return Mat(r, c, lambda i, j: app(nm, tuple(args) + (i, j), 'R'))


def val(v, N, T): return Opaque('Feet', {'v': v, 'N': N, 'T': T})


def poly(i): return Opaque('Poly', {'id': i})


def lam(m):
    return mk('lam', (m.at(var('#r'), var('#c')),), m.sort)


def arg_terms(X, args):
    """an argument as terms: a function of its value"""
    out = []
    for a in args:
        v = argval(X, a)
        if isinstance(v, T): out.append(v)
        elif isinstance(v, Mat): out += [v.rows, v.cols, lam(v)]
        elif isinstance(v, Opaque) and v.tag == 'Poly': out.append(v.data['id'])
        elif isinstance(v, Struct):
            for l in flatten(v):
                if l.arity < 0: raise Unsupported('argument of the feet supervisor')
                t = l.fn(tuple(var('#%d' % k) for k in range(l.arity)))
                out.append(mk('lam', (t,), t.sort) if l.arity else t)
        else: raise Unsupported('argument of the feet supervisor')
    return tuple(out)


def install(X):
    C = X.contracts
    ax = X.p.ctx.axioms
    nonneg = lambda nm: (lambda *a: [le(I0, app(nm, a, 'I'))])
    for nm in ('feet.M', 'feet.copmax', 'feet.kinmax', 'poly.n', 'poly.nv'): ax[nm] = nonneg(nm)
    M = lambda o: app('feet.M', (o['v'],), 'I')

    def obs(name, f):
        C['Feet:' + name] = lambda X, this, args: f(X, this[0].data, args)

    def int_arg(X, a): return X.to_sort(X.scalar(argval(X, a)), 'I')

    obs('getNbSamples', lambda X, o, a: o['N'])
    obs('getSamplingPeriod', lambda X, o, a: o['T'])
    obs('getNbPreviewedSteps', lambda X, o, a: M(o))
    obs('getStepPeriod', lambda X, o, a: app('feet.stepPeriod', (o['v'],), 'R'))
    obs('getSampleWeightMatrix', lambda X, o, a: mat('feet.W', (o['v'],), o['N'], o['N']))
    obs('isInDS', lambda X, o, a: app('feet.inDS', (o['v'],), 'B'))
    obs('getNbOfCallsBeforeNextSample', lambda X, o, a: app('feet.calls', (o['v'],), 'I'))
    obs('getMaximumNbOfCopConstraints', lambda X, o, a: app('feet.copmax', (o['v'],), 'I'))
    obs('getMaximumNbOfKinematicConstraints', lambda X, o, a: app('feet.kinmax', (o['v'],), 'I'))
    obs('getRotationMatrix', lambda X, o, a: mat('feet.R', (o['v'],), mul(I(2), o['N']), mul(I(2), o['N'])))
    obs('getRotationMatrixT', lambda X, o, a: Mat(mul(I(2), o['N']), mul(I(2), o['N']),
                                                  lambda i, j: app('feet.R', (o['v'], j, i), 'R')))
    for s in ('LeftFootState', 'RightFootState'):
        for d in 'XYZ':
            obs('get%s%s' % (s, d), (lambda nm: lambda X, o, a: mat(nm, (o['v'],), I(3), I1))('feet.%s%s' % (s, d)))

    def dynamic(X, o, a):
        v, N, m = o['v'], o['N'], M(o)
        U = lambda i, j: app('feet.V', (v, i, j), 'R')
        return Struct('LinearDynamic<double>', {
            'S': Mat(N, I1, lambda i, j: app('feet.V0', (v, i), 'R')), 'U': Mat(N, m, U),
            'UT': Mat(m, N, lambda i, j: U(j, i)), 'Uinv': mat('feet.Vinv', (v,), N, m),
            'UTinv': mat('feet.VTinv', (v,), m, N), 'K': Mat(N, I1, lambda i, j: R0)})
    obs('getFeetPosLinearDynamic', dynamic)

    def shared(name, root, f):
        """the result lives in one place of the supervisor: a later call overwrites it"""
        def h(X, this, args):
            o, loc = this
            r = 'ghost:feet.%s.%s' % (root, loc.root + ''.join(str(p[1]) for p in loc.path) if loc is not None else 'tmp')
            X.st.v[r] = f(X, o.data, args)
            return Loc(r)
        C['Feet:' + name] = h

    def cop(X, o, a):
        i = int_arg(X, a[0])
        if not X.quiet: X.oblige('requires', land(le(I0, i), lt(i, o['N'])), 'sample of the horizon given to getCopConvexPolygon')
        return poly(app('feet.cop', (o['v'], i), 'I'))

    def kin(X, o, a):
        i = int_arg(X, a[0])
        if not X.quiet: X.oblige('requires', land(le(I0, i), lt(i, M(o))), 'previewed step given to getKinematicConvexPolygon')
        return poly(app('feet.kin', (o['v'], i), 'I'))
    shared('getCopConvexPolygon', 'cop', cop)
    obs('getKinematicConvexPolygon', kin)

    def support(d):
        def h(X, this, args):
            o, loc = this
            key = loc.root + ''.join(str(p[1]) for p in loc.path) if loc is not None else 'tmp'
            v = o.data['v']
            mine, other = ('ghost:feet.support%s.%s' % (x, key) for x in (d, 'XY'['XY'.index(d) - 1]))
            X.st.v[mine] = val_ = mat('feet.support' + d, (v,), I(3), I1)
            if other in X.st.v: X.st.v[other] = merge(app('feet.sharedSupport', (v,), 'B'), val_, X.st.v[other])
            return Loc(mine)
        C['Feet:getSupportFootState' + d] = h
    support('X')
    support('Y')

    # ---------------------------------------------------------------- the polygons it returns
    pobs = lambda name, f: C.__setitem__('Poly:' + name, lambda X, this, args: f(this[0].data['id']))
    n = lambda i: app('poly.n', (i,), 'I')
    pobs('getNbGeneralConstraints', n)
    pobs('getNbVertices', lambda i: app('poly.nv', (i,), 'I'))
    pobs('getGeneralConstraintsMatrixCoefsForX', lambda i: mat('poly.ax', (i,), n(i), I1))
    pobs('getGeneralConstraintsMatrixCoefsForY', lambda i: mat('poly.ay', (i,), n(i), I1))
    pobs('getGeneralConstraintsConstantPart', lambda i: mat('poly.b', (i,), n(i), I1))
    for b in ('XSup', 'XInf', 'YSup', 'YInf'):
        pobs('get%sBound' % b, (lambda b: lambda i: app('poly.' + b, (i,), 'R'))(b))

    # ---------------------------------------------------------------- construction and mutators
    def ctor(X, loc, args):
        vs = [argval(X, a) for a in args]
        if len(vs) == 1 and isinstance(vs[0], Opaque):
            X.write(loc, vs[0])
            return
        if not vs: N, T_ = I1, R1
        elif len(vs) == 2: N, T_ = X.to_sort(vs[0], 'I'), X.to_sort(vs[1], 'R')
        else: raise Unsupported('constructor of the feet supervisor')
        v = app('feet.new', (N, T_), 'I')
        X.p.assume(eq(app('feet.M', (v,), 'I'), I0))
        X.write(loc, val(v, N, T_))
    C['ctor:' + CLS] = ctor

    def mutator(name, f=None):
        def h(X, this, args):
            o, loc = this
            if loc is None: raise Unsupported('mutator on a temporary')
            d = dict(o.data)
            ts = arg_terms(X, args)
            d['v'] = app('feet.' + name, (o.data['v'],) + ts, 'I')
            if f: f(X, d, args, o.data)
            X.write(loc, Opaque('Feet', d))
        C['Feet:' + name] = h

    def setN(X, d, a, o):
        n = int_arg(X, a[0])
        X.oblige('requires', lt(I0, n), 'number of samples > 0')
        d['N'] = n
        X.p.assume(eq(app('feet.M', (d['v'],), 'I'), app('feet.M', (o['v'],), 'I')))

    def keepM(X, d, a, o): X.p.assume(eq(app('feet.M', (d['v'],), 'I'), app('feet.M', (o['v'],), 'I')))

    def setT(X, d, a, o):
        d['T'] = X.to_sort(X.scalar(argval(X, a[0])), 'R')
        keepM(X, d, a, o)
    mutator('setNbSamples', setN)
    mutator('setSamplingPeriod', setT)
    names = ['setStepPeriod', 'setInitialDoubleSupportLength', 'setMove', 'computeConstantPart', 'updateFeetStates']
    for s in ('Left', 'Right'):
        names += ['set%sFoot%s' % (s, x) for x in (
            'KinematicConvexPolygon', 'CopConvexPolygon', 'StateX', 'StateY', 'StateZ', 'MaxHeight', 'YawUpperBound',
            'YawLowerBound', 'YawSpeedUpperBound', 'YawAccelerationUpperBound')]
    for x in names: mutator(x, keepM)

    def timeline(X, this, args):
        o, loc = this
        if args[0][0] != 'l': raise Unsupported('updateTimeline on a temporary')
        x = X.read(args[0][1])
        N = o.data['N']
        X.oblige('requires', le(mul(I(2), N), x.rows), 'decision vector of at least 2N entries given to updateTimeline')
        ts = arg_terms(X, args)
        d = dict(o.data, v=app('feet.updateTimeline', (o.data['v'],) + ts, 'I'))
        m = M(d)
        X.write(args[0][1], Mat(add(mul(I(2), N), mul(I(2), m)), I1, lambda i, j: app('feet.variable', (d['v'], i), 'R')))
        X.write(loc, Opaque('Feet', d))
    C['Feet:updateTimeline'] = timeline

    X.adts = {CLS: lambda X, nm: anyval(X, nm), 'HumanoidFeetSupervisor': lambda X, nm: anyval(X, nm)}


def anyval(X, nm):
    v, N, T_ = var(nm + '.v', 'I'), var(nm + '.N', 'I'), var(nm + '.T', 'R')
    X.p.assume(lt(I0, N))
    X.p.assume(lt(R0, T_))
    return val(v, N, T_)
