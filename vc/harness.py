"""Contract harnesses: the vc* vocabulary for the symbolic engine and the per-harness runner."""
import time, traceback, os, sys
from .terms import *
from .values import *
from .prover import Prover, Split, ParamSplit, Undecided, STAT
from . import astload
from .tidy import tidy
from .astload import tname
from .interp import Interp, Obligation, AssumeFalse, strip_type

VC = {}


def vcfn(f):
    VC[f.__name__] = f
    return f


def name_of(X, e):
    x = e
    while x.get('kind') != 'StringLiteral':
        if x['kind'] not in ('ImplicitCastExpr', 'ParenExpr'):
            v = X.rv(x)
            return v.data if isinstance(v, Opaque) and v.tag == 'str' else 'x'
        x = [y for y in x['inner'] if y][0]
    return x.get('value', '"x"').strip('"')


def inp(X, nm):
    n = nm.replace(' ', '_')
    c = X.inputs.get(n, 0)
    X.inputs[n] = c + 1
    return n if c == 0 else '%s#%d' % (n, c + 1)


@vcfn
def vcReal(X, argn, e): return var(inp(X, name_of(X, argn[0])), 'R')


@vcfn
def vcPos(X, argn, e):
    v = var(inp(X, name_of(X, argn[0])), 'R')
    X.p.assume(lt(R0, v))
    return v


@vcfn
def vcNonNeg(X, argn, e):
    v = var(inp(X, name_of(X, argn[0])), 'R')
    X.p.assume(le(R0, v))
    return v


@vcfn
def vcRange(X, argn, e):
    v = var(inp(X, name_of(X, argn[0])), 'R')
    lo, hi = (lift(X.scalar(X.rv(a)), 'R') for a in argn[1:])
    X.p.assume(le(lo, v)); X.p.assume(le(v, hi))
    return v


@vcfn
def vcInt(X, argn, e):
    v = var(inp(X, name_of(X, argn[0])), 'I')
    X.p.assume(le(X.scalar(X.rv(argn[1])), v))
    return v


@vcfn
def vcIndex(X, argn, e):
    v = var(inp(X, name_of(X, argn[0])), 'I')
    n = X.to_sort(X.scalar(X.rv(argn[1])), 'I')
    X.p.assume(le(I0, v)); X.p.assume(lt(v, n))
    if X.p.ctx.inconsistent(): raise AssumeFalse('empty index range')
    return v


@vcfn
def vcBool(X, argn, e): return var(inp(X, name_of(X, argn[0])), 'B')


def mat_in(X, nm, r, c):
    n = inp(X, nm)
    return Mat(r, c, lambda i, j: app(n, (i, j), 'R'))


@vcfn
def vcVec(X, argn, e): return mat_in(X, name_of(X, argn[0]), X.scalar(X.rv(argn[1])), I1)
@vcfn
def vcMat(X, argn, e): return mat_in(X, name_of(X, argn[0]), X.scalar(X.rv(argn[1])), X.scalar(X.rv(argn[2])))
@vcfn
def vcVec2(X, argn, e): return mat_in(X, name_of(X, argn[0]), I(2), I1)
@vcfn
def vcVec3(X, argn, e): return mat_in(X, name_of(X, argn[0]), I(3), I1)
@vcfn
def vcVec4(X, argn, e): return mat_in(X, name_of(X, argn[0]), I(4), I1)


def points(X, argn, d):
    n = inp(X, name_of(X, argn[0]))
    ln = X.to_sort(X.scalar(X.rv(argn[1])), 'I')
    memo = {}

    def get(i):
        if i.id not in memo:
            memo[i.id] = Mat(I(d), I1, lambda r, c: app(n, (i, r), 'R'))
        return memo[i.id]
    return Vec(ln, get, 'Eigen::Matrix<double, %d, 1>' % d)


@vcfn
def vcPoints(X, argn, e): return points(X, argn, 2)
@vcfn
def vcPoints3(X, argn, e): return points(X, argn, 3)


@vcfn
def vcRequire(X, argn, e):
    q = X.quiet
    X.quiet += 1
    try:
        c = X.boolv(argn[0])
    finally:
        X.quiet = q
    X.p.assume(c)
    if X.collect:
        if not X.quiet: X.collect[-1].append(((), c))
    if X.p.ctx.inconsistent(): raise AssumeFalse('precondition')
    return None


@vcfn
def vcEnsure(X, argn, e):
    nm = name_of(X, argn[0])
    c = X.boolv(argn[1])
    X.post(nm, c)


@vcfn
def vcEnsureEq(X, argn, e):
    nm = name_of(X, argn[0])
    a, b = X.scalar(X.rv(argn[1])), X.scalar(X.rv(argn[2]))
    X.post(nm, eq(lift(a, 'R'), lift(b, 'R')))


@vcfn
def vcLemmaEq(X, argn, e):
    nm = name_of(X, argn[0])
    a, b = X.scalar(X.rv(argn[1])), X.scalar(X.rv(argn[2]))
    c = eq(lift(a, 'R'), lift(b, 'R'))
    if X.post(nm, c): X.p.assume(c)


@vcfn
def vcEnsureEqI(X, argn, e):
    nm = name_of(X, argn[0])
    a, b = X.scalar(X.rv(argn[1])), X.scalar(X.rv(argn[2]))
    X.post(nm, eq(X.to_sort(a, 'I'), X.to_sort(b, 'I')))


def same_function(X, f, g):
    """two values of the same function of a matrix are equal when the matrices are, element by element"""
    r = X.same_functions.get((f, g))
    if r is None:
        # a success holds under the current assumptions only and is not kept
        a, b = X.functions_of_matrix[f], X.functions_of_matrix[g]
        X.p.push()
        try:
            r = X.p.prove(eq(a.rows, b.rows)) and X.p.prove(eq(a.cols, b.cols))
            if r:
                i, j = fresh('i'), fresh('j')
                for v, n in ((i, b.rows), (j, b.cols)):
                    X.p.assume(le(I0, v)); X.p.assume(lt(v, n))
                if not X.p.ctx.inconsistent():
                    r = X.p.prove(eq(tidy(X.p, a.at(i, j)), tidy(X.p, b.at(i, j))))
        except Undecided: r = False
        finally:
            X.p.pop()
        if not r: X.same_functions[f, g] = r
    return r


def unify(X, x, y):
    if not X.functions_of_matrix or x is y: return x
    fx, fy = ([t for t in subterms(z, lambda t: t in X.functions_of_matrix)] for z in (x, y))
    m = {}
    for f in fx:
        if f in fy: continue
        for g in fy:
            if g not in fx and same_function(X, f, g):
                m[f] = g
                break
    return subst_terms(x, m) if m else x


def same_mat(X, nm, a, b):
    X.post(nm + ' rows', eq(a.rows, b.rows))
    X.post(nm + ' cols', eq(a.cols, b.cols))
    X.p.push()
    try:
        i, j = fresh('i'), fresh('j')
        for v, n in ((i, b.rows), (j, b.cols)):
            X.p.assume(le(I0, v)); X.p.assume(lt(v, n))
        if not X.p.ctx.inconsistent():
            x, y = a.at(i, j), b.at(i, j)
            # memory neither has initialised holds any value
            if not (X.post_kind == 'state' and all(t.op == 'app' and t.a[0].startswith('junk!') for t in (x, y))):
                if x is not y: x, y = tidy(X.p, unify(X, x, y)), tidy(X.p, y)
                X.post(nm + ' elements', eq(x, y))
    finally:
        X.p.pop()


@vcfn
def vcSameM(X, argn, e):
    same_mat(X, name_of(X, argn[0]), X.rv(argn[1]), X.rv(argn[2]))


VC['vcSameMrm'] = VC['vcSameV'] = vcSameM


class Pairing:
    """compared roots and the pairs of referenced locations already under comparison"""
    def __init__(self, ra, rb, nm='', mask=()):
        self.ra, self.rb, self.seen, self.nm, self.mask = ra, rb, set(), nm, mask

    def masked(self, nm): return nm[len(self.nm):] in self.mask

    def rel(self, l, r):
        if isinstance(r, Loc) and isinstance(l, Loc) and l.root == r.root and l.path[:len(r.path)] == r.path:
            return l.path[len(r.path):]
        return None


def same_val(X, nm, a, b, pr=None):
    if a is b and not isinstance(a, Loc): return
    if isinstance(a, T) and isinstance(b, T):
        if a.sort != b.sort: raise Unsupported('sorts differ')
        if not (pr and pr.masked(nm)): X.post(nm, eq(unify(X, a, b), b))
    elif isinstance(a, Mat) and isinstance(b, Mat):
        if pr and pr.masked(nm + '#el'):
            if not pr.masked(nm + '#dim'):
                X.post(nm + ' rows', eq(a.rows, b.rows))
                X.post(nm + ' cols', eq(a.cols, b.cols))
        else: same_mat(X, nm, a, b)
    elif isinstance(a, Struct) and isinstance(b, Struct) and a.cls == b.cls:
        for k in a.f: same_val(X, nm + '.' + k, a.f[k], b.f[k], pr)
    elif isinstance(a, Vec) and isinstance(b, Vec):
        X.post(nm + '.size', eq(a.n, b.n))
        X.p.push()
        try:
            i = fresh('i')
            X.p.assume(le(I0, i)); X.p.assume(lt(i, b.n))
            if not X.p.ctx.inconsistent(): same_val(X, nm + '[i]', a.at(i), b.at(i), pr)
        finally:
            X.p.pop()
    elif isinstance(a, Opaque) and isinstance(b, Opaque) and a.tag == b.tag == 'QP':
        for k in ('nv', 'nc'): same_val(X, nm + '.' + k, a.data[k], b.data[k], pr)
        if 'init' in a.data:
            if not (pr and pr.masked(nm + '.init')): X.post(nm + '.init', eq(a.data['init'], b.data['init']))
            X.p.push()
            try:
                X.p.assume(a.data['init'])      # before the first call there is nothing to keep
                if not X.p.ctx.inconsistent():
                    for k in ('Q', 'A'): same_val(X, nm + '.' + k, a.data[k], b.data[k], pr)
            finally:
                X.p.pop()
    elif isinstance(a, Opaque) and isinstance(b, Opaque) and a.tag == b.tag:
        if isinstance(a.data, dict):
            for k in a.data: same_val(X, nm + '.' + k, a.data[k], b.data[k], pr)
    elif isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'ptr':
        same_val(X, nm, a[1], b[1], pr)
    elif isinstance(a, Loc) and isinstance(b, Loc):
        pr = pr or Pairing(None, None)
        if (a, b) in pr.seen: return
        pr.seen.add((a, b))
        pa, pb = pr.rel(a, pr.ra), pr.rel(b, pr.rb)
        if (pa is None) != (pb is None) or pa is not None and pa != pb:
            X.post(nm + ' refers to the corresponding object', FALSE)
        elif pa is None and a != b:
            same_val(X, nm, X.read(a), X.read(b), pr)
    elif isinstance(a, Null) and isinstance(b, Null): pass
    else:
        raise Unsupported('cannot compare %s' % nm)


def whole(X, argn, kind):
    nm = name_of(X, argn[0])
    la, lb = X.lv(argn[1]), X.lv(argn[2])
    old, X.post_kind = X.post_kind, kind
    try:
        same_val(X, nm, X.read(la), X.read(lb), Pairing(la, lb, nm, X.forgot if kind == 'state' else ()))
    finally:
        X.post_kind = old


@vcfn
def vcSame(X, argn, e): whole(X, argn, 'post')
@vcfn
def vcSameState(X, argn, e): whole(X, argn, 'state')


# ------------------------------------------------------------------ states reachable by any number of calls
def changed(X, a, b, nm, mask):
    """the parts of a value that differ between b (before) and a (after)"""
    if a is b: return
    if isinstance(a, T) and isinstance(b, T):
        if a is not b: mask.add(nm)
    elif isinstance(a, Mat) and isinstance(b, Mat):
        if not (X.p.ctx.entails(eq(a.rows, b.rows)) and X.p.ctx.entails(eq(a.cols, b.cols))):
            mask.add(nm + '#dim'); mask.add(nm + '#el')
        else:
            i, j = fresh('i'), fresh('j')
            x, y = a.at(i, j), b.at(i, j)
            if x is not y:
                X.p.push()
                for v, n in ((i, a.rows), (j, a.cols)):
                    X.p.assume(le(I0, v)); X.p.assume(lt(v, n))
                if not X.p.ctx.inconsistent() and tidy(X.p, x) is not tidy(X.p, y): mask.add(nm + '#el')
                X.p.pop()
    elif isinstance(a, Struct) and isinstance(b, Struct) and a.cls == b.cls:
        for k in a.f: changed(X, a.f[k], b.f[k], nm + '.' + k, mask)
    elif isinstance(a, Opaque) and isinstance(b, Opaque) and a.tag == b.tag == 'QP':
        if a.data['init'] is not b.data['init']: mask.add(nm + '.init')
    elif isinstance(a, Vec) and isinstance(b, Vec):
        i, m = fresh('i'), set()
        if a.n is not b.n: m.add('#len')
        else: changed(X, a.at(i), b.at(i), '', m)
        if m: raise Unsupported('what a call changes in %s %s %s' % (nm, sorted(m)[:3], show(a.n,4)[:100]))
    elif isinstance(a, (Loc, Null)) or isinstance(a, Opaque) or isinstance(a, tuple): pass
    else: raise Unsupported('what changed in %s' % nm)


def forget(X, v, nm, mask, pre):
    if isinstance(v, T): return app(pre + nm, (), v.sort) if nm in mask else v
    if isinstance(v, Mat):
        if nm + '#el' not in mask: return v
        rows, cols = v.rows, v.cols
        if nm + '#dim' in mask:
            rows, cols = app(pre + nm + '#rows', (), 'I'), app(pre + nm + '#cols', (), 'I')
            X.p.assume(le(I0, rows)); X.p.assume(le(I0, cols))
        return Mat(rows, cols, lambda i, j: app(pre + nm, (i, j), v.sort), v.sort)
    if isinstance(v, Vec): return v
    if isinstance(v, Struct): return Struct(v.cls, {k: forget(X, x, nm + '.' + k, mask, pre) for k, x in v.f.items()})
    if isinstance(v, Opaque) and v.tag == 'QP' and nm + '.init' in mask:
        return Opaque('QP', dict(v.data, init=app(pre + nm + '.init', (), 'B')))
    return v


@vcfn
def vcQuietly(X, argn, e):
    on = X.rv(argn[0])
    if on is TRUE: X.quiet += 1
    elif on is FALSE: X.quiet -= 1
    else: raise Unsupported('vcQuietly of a symbolic condition')


@vcfn
def vcForgetLike(X, argn, e):
    """w, after, before: everything of w that a call changes (going from before to after) gets an arbitrary value; an
    initialised solver holds the matrices of w"""
    w, a, b = (X.lv(x) for x in argn[:3])
    mask = set()
    changed(X, X.read(a), X.read(b), '', mask)
    if X.forgot and X.forgot != mask: raise Unsupported('what a call changes depends on the configuration')
    X.forgot = mask
    do_forget(X, w, X.rv(argn[3]))


@vcfn
def vcForgetAgain(X, argn, e):
    """as the earlier vcForgetLike did"""
    if not X.forgot: raise Unsupported('vcForgetAgain before vcForgetLike')
    do_forget(X, X.lv(argn[0]), X.rv(argn[1]))


def do_forget(X, w, m):
    v = forget(X, X.read(w), '', X.forgot, 'any!%d' % mark())

    def keep(x):
        if isinstance(x, Struct): return Struct(x.cls, {k: keep(y) for k, y in x.f.items()})
        if isinstance(x, Opaque) and x.tag == 'QP': return Opaque('QP', dict(x.data, Q=m.f['Q'], A=m.f['A']))
        return x
    X.write(w, keep(v) if isinstance(v, Struct) else v)


def symbolic(X, qt, nm, dims=None):
    """an arbitrary value of a type: every field symbolic"""
    h = X.adts.get(strip_type(qt))
    if h: return h(X, nm)
    t = X.default(qt)
    def go(v, pre):
        if isinstance(v, T): return app(pre, (), v.sort)
        if isinstance(v, Struct): return Struct(v.cls, {k: go(x, pre + '.' + k) for k, x in v.f.items()})
        if isinstance(v, (Mat, Vec)):
            leaf = {}
            for l in flatten(v):
                n = pre + '.' + '.'.join(l.path).replace('#', '')
                if l.path[-1] in ('#rows', '#cols', '#len'):
                    c = l.fn(tuple(fresh('q') for _ in range(l.arity)))
                    if c.op == 'c' and c is not I0: leaf[l.path] = (lambda c: lambda ix: c)(c)
                    else:
                        if l.arity == 0: X.p.assume(le(I0, app(n, (), 'I')))
                        leaf[l.path] = (lambda n: lambda ix: app(n, tuple(ix), 'I'))(n)
                elif l.arity >= 0:
                    leaf[l.path] = (lambda n, s: lambda ix: app(n, tuple(ix), s))(n, l.sort)
                else: raise Unsupported('arbitrary ' + qt)
            return unflatten(v, leaf)
        raise Unsupported('arbitrary value of ' + qt)
    return go(t, nm)


@vcfn
def vcAny(X, argn, e):
    return symbolic(X, tname(e), inp(X, name_of(X, argn[0])))


class Harness(Interp):
    def __init__(self, prog):
        Interp.__init__(self, prog)
        self.inputs = {}
        self.functions_of_matrix = {}
        self.same_functions = {}
        self.posts = 0
        self.post_kind = 'post'

    def post(self, nm, cond):
        t0 = time.time()
        self.posts += 1
        ok, det = False, ''
        if self.quiet: return
        if cond is TRUE: ok = True
        else:
            try:
                ok = self.p.prove(cond)
                if not ok: det = 'refused: %s' % show(cond, 6)[:600]
            except Undecided as u:
                det = 'undecided: %s' % u
        self.obls.append(Obligation('ensures %s' % nm, self.post_kind, ok, det, time.time() - t0, cond))
        return ok

    def vc_call(self, name, argn, e):
        return VC[name](self, argn, e)


def harnesses(prog, pre='vch_'):
    out = {}
    for d in prog.decl.values():
        if d.get('kind') == 'FunctionDecl' and d.get('name', '').startswith(pre) and prog.body(d):
            out[d['name'][4:]] = d
    return out


def run_harness(prog, name, setup=None, budget=240):
    """returns dict: obligations, status"""
    X = Harness(prog)
    X.name = name
    X.p.deadline = time.time() + budget
    qp_contracts(X)
    if setup: setup(X)
    t0 = time.time()
    d = harnesses(prog)[name]
    res = {'name': name, 'error': None}
    try:
        X.call_body(prog.body(d), None, [])
    except AssumeFalse as a:
        res['error'] = 'vacuous: contradictory assumptions (%s)' % a
    except (Unsupported, Undecided) as u:
        res['error'] = '%s: %s in %s' % (type(u).__name__, u, X.where_err or X.where())
    except (Split, ParamSplit) as s:
        res['error'] = 'undecided case distinction %s' % s
    except RecursionError:
        res['error'] = 'recursion limit'
    except Exception as ex:
        res['error'] = 'engine: %s' % ''.join(traceback.format_exception_only(type(ex), ex)).strip()
        res['trace'] = traceback.format_exc()
    res['secs'] = time.time() - t0
    res['obls'] = [(o.name, o.kind, o.ok, o.detail, o.secs) for o in X.obls]
    res['posts'] = X.posts
    res['fns'] = sorted(X.used_fns)
    res['contracts'] = sorted(X.used_contracts)
    res['partial'] = getattr(X, 'partial', 0)
    res['havoc'] = getattr(X, 'nhavoc', 0)
    res['stat'] = dict(STAT)
    # the assumptions collected on the way must be satisfiable
    if res['error'] is None and X.p.ctx.inconsistent():
        res['error'] = 'vacuous: contradictory assumptions'
    return res


# ------------------------------------------------------------------ the QP solver (external): ghost record
QPROOT = 'ghost:qp'


def ghost_qp(X):
    if QPROOT not in X.st.v:
        z = lambda r, c: Mat(r, c, lambda i, j: R0)
        m = Struct('QPMatrices<double>', {'Q': z(I0, I0), 'p': z(I0, I1), 'xl': z(I0, I1), 'xu': z(I0, I1),
                                          'A': z(I0, I0), 'bu': z(I0, I1), 'bl': z(I0, I1)})
        X.st.v[QPROOT] = Struct('VcQP', {'m': m, 'warm': FALSE, 'maxIter': I0, 'nv': I0, 'nc': I0, 'solves': I0,
                                         'sol': z(I0, I1), 'ok': FALSE})
    return Loc(QPROOT)


@vcfn
def vcQP(X, argn, e): return ghost_qp(X)


@vcfn
def vcQPReset(X, argn, e):
    X.write(ghost_qp(X).add(('f', 'solves')), I0)


def argval(X, a):
    return a[1] if a[0] == 'v' else X.read(a[1])


def c_make(X, this, args):
    nv, nc = (X.to_sort(X.scalar(argval(X, a)), 'I') for a in args[:2])
    z = Mat(I0, I0, lambda i, j: R0)
    return Opaque('QP', {'nv': nv, 'nc': nc, 'init': FALSE, 'Q': z, 'A': z})


def c_solve(X, this, args):
    o, loc = this
    m = argval(X, args[0])
    g = X.read(ghost_qp(X))
    nv, nc = o.data['nv'], o.data['nc']
    if not X.quiet:
        dims = land(eq(m.f['Q'].rows, nv), eq(m.f['Q'].cols, nv), eq(m.f['p'].rows, nv), eq(m.f['xl'].rows, nv),
                    eq(m.f['xu'].rows, nv), eq(m.f['A'].cols, nv), eq(m.f['A'].rows, nc), eq(m.f['bl'].rows, nc),
                    eq(m.f['bu'].rows, nc))
        X.oblige('requires', dims, 'QP solver called with consistent dimensions')
    solloc = args[2][1]
    old = X.read(solloc)
    if not X.quiet: X.oblige('requires', eq(old.rows, nv), 'solution vector of the size of the program')
    warm = argval(X, args[3]) if len(args) > 3 else FALSE
    useold = land(o.data['init'], warm)
    Q, A = merge(useold, o.data['Q'], m.f['Q']), merge(useold, o.data['A'], m.f['A'])
    if loc is None: raise Unsupported('solver without a location')
    X.write(loc, Opaque('QP', dict(o.data, init=TRUE, Q=Q, A=A)))
    cnt = g.f['solves']
    sol = Mat(old.rows, I1, lambda r, c: app('qp_sol', (cnt, r), 'R'))
    ok = app('qp_ok', (cnt,), 'B')
    X.write(solloc, sol)
    X.write(ghost_qp(X), Struct('VcQP', {'m': m.with_('Q', Q).with_('A', A), 'warm': warm,
                                         'maxIter': X.to_sort(X.scalar(argval(X, args[1])), 'I'), 'nv': nv, 'nc': nc,
                                         'solves': add(cnt, I1), 'sol': sol, 'ok': ok}))
    return ok


def qp_contracts(X):
    X.contracts['makeQPSolver'] = c_make
    X.contracts['virtual:solve'] = c_solve
    X.contracts['virtual:getNbVar'] = lambda X, this, args: this[0].data['nv']
    X.contracts['virtual:getNbCtr'] = lambda X, this, args: this[0].data['nc']
