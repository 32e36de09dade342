"""Loop rules.  For a loop the engine derives a closed-form invariant for every location the body modifies
(state at the start of iteration k as a function of k), proves that it is inductive (the derivation rules are
only applied after their side conditions have been discharged by the prover), and continues with the state after
the last iteration.  Locations for which no closed form is found are havocked, keeping candidate invariants that
the prover shows inductive.  No bound on the number of iterations is ever used (except that loops whose trip count
is a literal constant are unrolled)."""
from .terms import *
from .values import *
from .prover import Split, ParamSplit, Undecided
import itertools

MAX_UNROLL = 12


class LeafInfo:
    __slots__ = ('root', 'path', 'arity', 'sort', 'name', 'entry', 'next', 'ix', 'F', 'ent', 'rec')


def flat_state(st, roots):
    out = {}
    for r in roots:
        v = st.v[r]
        for l in flatten(v):
            out[(r,) + l.path] = l
    return out


def same(a, b, ix):
    if a.arity != b.arity: return False
    if a.arity < 0:
        x, y = a.fn(()), b.fn(())
        return x is y or x == y
    return a.fn(ix) is b.fn(ix)


def build(X, st0, roots, fns):
    """state st0 with leaf functions replaced by fns[(root,)+path]"""
    st = st0.copy()
    byroot = {}
    for key, f in fns.items(): byroot.setdefault(key[0], {})[key[1:]] = f
    for r, d in byroot.items():
        st.v[r] = rebuild(st0.v[r], d)
    return st


def rebuild(v, d):
    """v with the leaves of d (path -> function) replaced; untouched parts are shared"""
    if not d: return v
    if isinstance(v, Struct):
        sub_ = {}
        for p, f in d.items(): sub_.setdefault(p[0], {})[p[1:]] = f
        return Struct(v.cls, {k: rebuild(x, sub_.get(k)) for k, x in v.f.items()})
    allf = {l.path: l.fn for l in flatten(v)}
    allf.update(d)
    return unflatten(v, allf)


def diff(a, b, pre=()):
    """pairs of leaves (path, la, lb) of two values of the same shape that may differ"""
    if a is b: return
    if isinstance(a, Struct) and isinstance(b, Struct) and a.f.keys() == b.f.keys():
        for k in a.f: yield from diff(a.f[k], b.f[k], pre + (k,))
        return
    L1 = {l.path: l for l in flatten(a)}
    L2 = {l.path: l for l in flatten(b)}
    if set(L1) != set(L2): raise Unsupported('loop changes the shape of %s' % (pre,))
    for path in L1: yield pre + path, L1[path], L2[path]


def next_state(X, outs):
    """merge the outcomes that continue with the next iteration"""
    nx = [o for o in outs if o.kind in ('next', 'continue')]
    if not nx: return None
    st = nx[-1].state
    for o in reversed(nx[:-1]):
        st = X.merge_states(o.cond, o.state, st)
    return st


def run_body(X, st, cond, inc, body, k, keep=False):
    """one iteration from state st (symbolic k).  returns (cond term, next state, outcomes);  keep: leave the facts
    found on the way in the context (the caller pops them)"""
    X.st = st.copy()
    c = X.boolv(cond) if cond is not None else TRUE
    if not keep: X.p.push()
    try:
        if c is not TRUE: X.p.assume(c)
        outs = X.exec(body)
        ns = next_state(X, outs)
        if ns is not None:
            X.st = ns
            if inc is not None:
                X.rv_void(inc)
            ns = X.st
        return c, ns, outs
    finally:
        if not keep: X.p.pop()


def exec_loop(X, cond, inc, body):
    from .interp import Outcome, AssumeFalse, State
    u = try_unroll(X, cond, inc, body)
    if u is not None: return u
    st0 = X.st.copy()
    X.st = st0.copy()
    c0 = X.boolv(cond) if cond is not None else TRUE
    if X.decide(c0) is False:
        return [Outcome('next', TRUE, X.st)]
    k = fresh('it')
    leaves = {}        # key -> LeafInfo
    roots0 = list(st0.v)
    frame_vars0 = dict(X.frames[-1]['vars'])

    # ---- find the modified leaves
    def entry_leaves():
        d = {}
        for r in roots0:
            if st0.v[r] is None: continue
            for l in flatten(st0.v[r]): d[(r,) + l.path] = l
        return d
    E = entry_leaves()
    X.quiet += 1
    savest = X.st
    try:
        for _round in range(12):
            fns = {key: mkph(li, k) for key, li in leaves.items()}
            stk = build(X, st0, roots0, fns)
            X.p.push()
            try:
                X.p.assume(le(I0, k))
                X.frames[-1]['vars'] = dict(frame_vars0)
                c, ns, outs = run_body(X, stk, cond, inc, body, k)
            finally:
                X.p.pop()
            changed = False
            cand_states = ([ns] if ns is not None else []) + [o.state for o in outs if o.kind in ('break', 'ret')]
            for r in roots0:
                ent = st0.v[r]
                for s2 in cand_states:
                    if r not in s2.v: continue
                    v = s2.v[r]
                    if v is stk.v.get(r) and v is not None: continue
                    if ent is None: continue
                    for path, l1, l2 in diff(stk.v[r], v):
                        key = (r,) + path
                        if key in leaves: continue
                        ix = tuple(fresh('ix') for _ in range(max(0, l1.arity)))
                        if not same(l1, l2, ix):
                            if l1.arity < 0 or l1.sort is None:
                                raise Unsupported('loop modifies a non-numeric value %s' % (key,))
                            li = LeafInfo()
                            li.root, li.path, li.arity, li.sort = r, path, l1.arity, l1.sort
                            li.name = 'lp!%d' % mark()
                            li.ent = E[key]
                            li.F = None
                            leaves[key] = li
                            changed = True
            if not changed: break
        else:
            raise Unsupported('modified locations do not stabilise')
        # ---- symbolic next values
        X.p.push()
        try:
            X.p.assume(le(I0, k))
            solve(X, st0, leaves, k, cond, inc, body, roots0, frame_vars0)
        finally:
            X.p.pop()
    finally:
        X.quiet -= 1
        X.st = savest
        X.frames[-1]['vars'] = dict(frame_vars0)
    # ---- trip count
    def state_at(t):
        fns = {key: (lambda li: lambda ix: li.F(t, tuple(ix)))(li) for key, li in leaves.items()}
        return build(X, st0, roots0, fns)
    houd = [li for li in leaves.values() if isinstance(getattr(li, 'next', None), Havoc)]
    X.quiet += 1
    X.p.push()
    try:
        X.p.assume(le(I0, k))
        X.st = state_at(k)
        mk0 = mark()
        ck = close_over(X.boolv(cond), k, mk0) if cond is not None else TRUE
        X.frames[-1]['vars'] = dict(frame_vars0)
        X.newfor = None
        n, facts = trip_count(X, ck, k)
        newfor = X.newfor
    finally:
        X.p.pop()
        X.quiet -= 1
    # early exits?
    X.quiet += 1
    X.p.push()
    try:
        X.p.assume(le(I0, k)); X.p.assume(lt(k, n))
        for f in facts: pass
        add_invs(X, houd, k, leaves)
        X.frames[-1]['vars'] = dict(frame_vars0)
        mk0 = mark()
        c, ns, outs = run_body(X, state_at(k), cond, inc, body, k)
    finally:
        X.p.pop()
        X.quiet -= 1
    exits = [o for o in outs if o.kind in ('break', 'ret')]
    for o in exits: o.cond = close_over(o.cond, k, mk0)
    m = n
    exitf = []
    if exits:
        E_k = lor(*[o.cond for o in exits])
        m = fresh('ex')
        exitf = [le(I0, m), le(m, n)]
    # ---- obligations of the body, for an arbitrary iteration k
    pure, got, k2 = only_requires(body), [], fresh('l')
    X.p.push()
    try:
        X.p.assume(le(I0, k)); X.p.assume(lt(k, m))
        for f in exitf: X.p.assume(f)
        X.p.assume(ck)
        add_invs(X, houd, k, leaves)
        for f in mono_facts(X, leaves, k, n): X.p.assume(f)
        for e in exits: X.p.ctx.foralls.append(((k2,), land_imp(le(I0, k2), lt(k2, k), subst(lnot(e.cond), {k: k2}))))
        if not X.p.ctx.inconsistent():
            X.frames[-1]['vars'] = dict(frame_vars0)
            if pure: X.collect.append([])
            mk0 = mark()
            try:
                run_body(X, state_at(k), cond, inc, body, k)
            finally:
                if pure: got = X.collect.pop()
    finally:
        X.p.pop()
    for vs, c in got:
        # a loop of preconditions: they hold for every index
        q = ((k,) + vs, land_imp(le(I0, k), lt(k, m), close_over(c, k, mk0, vs)))
        (X.collect[-1] if X.collect else X.p.ctx.foralls).append(q)
    X.frames[-1]['vars'] = dict(frame_vars0)
    for f in exitf: X.p.assume(f)
    for f in facts: X.p.assume(f)
    if newfor and not exits: X.p.ctx.foralls.append(newfor)
    add_invs(X, houd, m, leaves)
    if not exits:
        X.st = state_at(n)
        trim(X, leaves, n, lambda fns: build(X, st0, roots0, fns))
        ce = None
        if isinstance(cond, dict) and (houd or n.op == 'v'):
            X.quiet += 1
            try:
                st = X.st
                ce = X.boolv(cond)
                X.st = st
            finally:
                X.quiet -= 1
            X.p.assume(lnot(ce))
        return [Outcome('next', TRUE, X.st)]
    # early exits: m is the first iteration with an exit, or n
    res = []
    st_end = state_at(m)
    for f in mono_facts(X, leaves, m, n): pass
    atend = eq(m, n)
    for f in [lor(atend, subst(E_k, {k: m}))]: X.p.assume(f)
    # no exit before m:  instantiated on demand through the axiom table
    for f in exits: X.p.ctx.foralls.append(((k2,), land_imp(le(I0, k2), lt(k2, m), subst(lnot(f.cond), {k: k2}))))
    res.append(Outcome('next', atend, st_end))
    X.p.push()
    try:
        X.p.assume(lt(m, n))
        X.frames[-1]['vars'] = dict(frame_vars0)
        X.quiet += 0
        c, ns, outs2 = run_body(X, state_at(m), cond, inc, body, m)
    finally:
        X.p.pop()
    for o in outs2:
        if o.kind == 'break':
            res.append(Outcome('next', land(lt(m, n), o.cond), o.state))
        elif o.kind == 'ret':
            res.append(Outcome('ret', land(lt(m, n), o.cond), o.state, o.val))
    X.frames[-1]['vars'] = dict(frame_vars0)
    return res


def land_imp(*cs):
    """cs[0] & ... => cs[-1]"""
    return lor(*([lnot(c) for c in cs[:-1]] + [cs[-1]]))


def only_requires(s):
    """a statement that only states preconditions (VC_FORALL)"""
    if not isinstance(s, dict): return False
    k, inner = s.get('kind'), [c for c in s.get('inner', []) if c]
    if k == 'ForStmt': return only_requires(inner[-1])
    if k == 'CompoundStmt': return bool(inner) and all(only_requires(c) for c in inner)
    if k == 'ExprWithCleanups': return only_requires(inner[0])
    if k == 'CallExpr':
        f = inner[0]
        while f.get('kind') == 'ImplicitCastExpr': f = f['inner'][0]
        return f.get('referencedDecl', {}).get('name') == 'vcRequire'
    return False


def trim(X, leaves, n, mk):
    """elements of a container outside its length cannot be observed (every access carries a bounds obligation):
    resolve the case distinctions on the element index that hold throughout the range"""
    fns, hit, groups = {}, False, {}
    for key, li in leaves.items():
        fns[key] = (lambda li: lambda ix: li.F(n, tuple(ix)))(li)
        if '[]' in key and li.arity >= 1: groups.setdefault(key[:key.index('[]')], []).append(key)
    for pre, keys in groups.items():
        lk = pre + ('#len',)
        if lk in leaves: ln = leaves[lk].F(n, ())
        else: ln = [l for l in flatten(X.st.v[pre[0]]) if l.path == lk[1:]][0].fn(())
        i0 = fresh('ix')
        X.p.push()
        try:
            X.p.assume(le(I0, i0)); X.p.assume(lt(i0, ln))
            for key in keys:
                li = leaves[key]
                ix = (i0,) + tuple(fresh('ix') for _ in range(li.arity - 1))
                t = r = li.F(n, ix)
                while r.op == 'ite':
                    d = X.decide(r.a[0])
                    if d is None: break
                    r = r.a[1] if d else r.a[2]
                if r is not t:
                    hit = True
                    fns[key] = (lambda ix, r: lambda jx: subst(r, dict(zip(ix, jx))))(ix, r)
        finally:
            X.p.pop()
    if hit: X.st = mk(fns)


def mkph(li, k):
    return lambda ix: app(li.name, (k,) + tuple(ix), li.sort)


def try_unroll(X, cond, inc, body):
    from .interp import Outcome
    if cond is None: return None
    st0 = X.st.copy()
    fv = dict(X.frames[-1]['vars'])
    X.quiet += 1
    try:
        X.st = st0.copy()
        c = X.boolv(cond)
    finally:
        X.quiet -= 1
        X.st = st0.copy()
    if c is not TRUE: return None
    # dry run to see whether the condition stays constant
    X.quiet += 1
    X.p.push()
    try:
        X.st = st0.copy()
        for q in range(MAX_UNROLL + 1):
            c = X.boolv(cond)
            if c is FALSE: break
            if c is not TRUE: return None
            X.frames[-1]['vars'] = dict(fv)
            outs = X.exec(body)
            if any(o.kind in ('break', 'ret') for o in outs): return None
            X.st = next_state(X, outs)
            if inc is not None: X.rv_void(inc)
        else:
            return None
    except (Split, ParamSplit, Undecided):
        return None
    finally:
        X.p.pop()
        X.quiet -= 1
        X.st = st0.copy()
        X.frames[-1]['vars'] = dict(fv)
    for q in range(MAX_UNROLL + 1):
        c = X.boolv(cond)
        if c is FALSE: break
        X.frames[-1]['vars'] = dict(fv)
        outs = X.exec(body)
        X.st = next_state(X, outs)
        if inc is not None: X.rv_void(inc)
    X.frames[-1]['vars'] = dict(fv)
    return [Outcome('next', TRUE, X.st)]


# ------------------------------------------------------------------ solving
class Havoc:
    """unsolved leaf; invs: list of functions value -> Bool proved inductive"""
    def __init__(self): self.invs = []


def paths(t, own, lim=96):
    """decompose an ite tree: list of (cond list, value)"""
    out = []

    def go(t, cs):
        if len(out) > lim: raise Unsupported('too many paths in a loop body')
        if t.op == 'ite':
            go(t.a[1], cs + [t.a[0]]); go(t.a[2], cs + [lnot(t.a[0])])
        else:
            out.append((cs, t))
    go(t, [])
    return out


def lift_own(t, name):
    """case distinctions around the location's own value, pulled out of sums and products"""
    memo = {}

    def go(t):
        if name not in t.syms or t.op not in ('ite', '+', '*'): return t
        r = memo.get(t.id)
        if r is not None: return r
        if t.op == 'ite': r = ite(t.a[0], go(t.a[1]), go(t.a[2]))
        else:
            xs = [go(x) for x in t.a]
            j = next((j for j, x in enumerate(xs) if x.op == 'ite' and name in x.syms), None)
            f = add if t.op == '+' else mul
            if j is None: r = f(*xs)
            else:
                c, a, b = xs[j].a
                put = lambda v: go(f(*(xs[:j] + [v] + xs[j + 1:])))
                r = ite(c, put(a), put(b))
        memo[t.id] = r
        return r
    return go(t)


def delta(t, h):
    """t == h + d  -> d, or None"""
    if t is h: return const(0, h.sort)
    if h.sort == 'I':
        d = sub(t, h)
        return d if h.a[0] not in d.syms else None
    if h.sort == 'R' and t.op == '+':
        n = [x for x in t.a if x is h]
        if len(n) == 1:
            r = add(*[x for x in t.a if x is not h])
            return r if h.a[0] not in r.syms else None
    return None


def solve(X, st0, leaves, k, cond, inc, body, roots0, fv0):
    p = X.p
    order = list(leaves.values())
    names = {li.name: li for li in order}
    for li in order:
        li.ix = tuple(fresh('ix') for _ in range(li.arity))
    pending = list(order)
    rounds = 0
    cond_facts = []
    while pending:
        rounds += 1
        if rounds > 40: raise Unsupported('loop solver does not converge')
        # run the body with solved leaves in closed form, others as placeholders
        fns = {}
        for key, li in leaves.items():
            fns[key] = (lambda li: (lambda ix: li.F(k, tuple(ix))) if li.F else mkph(li, k))(li)
        stk = build(X, st0, roots0, fns)
        X.frames[-1]['vars'] = dict(fv0)
        hav = [li for li in order if isinstance(getattr(li, 'next', None), Havoc)]
        p.push()
        try:
            add_invs(X, hav, k, leaves)
            mk0 = mark()
            c, ns, outs = run_body(X, stk, cond, inc, body, k)
        finally:
            p.pop()
        c = close_over(c, k, mk0)
        if ns is None:
            # the body always leaves the loop: the modified values never reach another iteration
            for li in pending: li.F = (lambda li: lambda t, ix: li.ent.fn(ix))(li)
            return
        L2 = {}
        for r in {li.root for li in pending}:
            for l in flatten(ns.v[r]): L2[(r,) + l.path] = l
        progress = False
        unsolved = {li.name for li in pending}
        p.push()
        try:
            if not (c.syms & unsolved): p.assume(c)
            for li in sorted(pending, key=lambda l: (l.arity, l.name)):
                key = (li.root,) + li.path
                N0 = L2[key].fn(li.ix)
                N = close_over(N0, k, mk0)
                F = None
                if li.arity == 0 and N is not N0:
                    pass        # known only through the invariants of an inner loop
                elif li.arity == 0:
                    F = solve0(X, li, N, k, unsolved, order)
                else:
                    F = solveN(X, li, N, k, unsolved, c, in_range(li, L2))
                if F is not None:
                    li.F = F
                    pending.remove(li)
                    progress = True
        finally:
            p.pop()
        if progress: continue
        # nothing solvable: havoc one leaf (scalars last resort first)
        li = pick_havoc(pending, L2)
        hv = Havoc()
        li.next = hv
        hv.mark = mk0
        N = close_over(L2[(li.root,) + li.path].fn(li.ix), k, mk0)
        if li.arity == 0: hints(X, li, N, k)
        li.F = fold(li, N, k, unsolved) or (lambda li: lambda t, ix: app(li.name, (t,) + tuple(ix), li.sort))(li)
        pending.remove(li)
    # candidate invariants for the havocked leaves (Houdini)
    hav = [li for li in order if isinstance(getattr(li, 'next', None), Havoc)]
    if hav: houdini(X, st0, leaves, hav, k, cond, inc, body, roots0, fv0)


def fold(li, N, k, unsolved):
    """the sequence x(0) = entry value, x(t+1) = N(x(t), t) has no closed form: name it after N, so that the same
    recurrence is the same function wherever it occurs"""
    if li.arity != 0 or N.syms & (unsolved - {li.name}): return None
    own = app(li.name, (k,), li.sort)
    pv = sorted(subterms(N, lambda x: x.op == 'v' and '!' in x.a[0] and x is not k), key=lambda x: x.id)
    m = {v: var('?p%d' % i, v.sort) for i, v in enumerate(pv)}
    m[k] = var('?k', 'I')
    B = subst(subst_terms(N, {own: var('?own', li.sort)}), m)
    if li.name in B.syms: return None
    nm = 'fold!%d' % B.id
    x0 = li.ent.fn(())
    return lambda t, ix: x0 if t is I0 else app(nm, (x0, t) + tuple(pv), li.sort)


def pick_havoc(pending, L2):
    # prefer leaves that depend only on themselves
    un = {li.name for li in pending}
    best = None
    for li in pending:
        N = L2[(li.root,) + li.path].fn(li.ix)
        dep = len((N.syms & un) - {li.name})
        q = (dep, li.arity)
        if best is None or q < best[0]: best = (q, li)
    return best[1]


def solve0(X, li, N, k, unsolved, leaves):
    h = app(li.name, (k,), li.sort)
    x0 = li.ent.fn(())
    others = unsolved - {li.name}
    if li.sort != 'B':
        d = None
        dl = delta(N, h)
        if dl is None and N.op == 'ite':
            ps = paths(N, h)
            if all(delta(v, h) is not None for _, v in ps) and not any(li.name in c.syms for cs, _ in ps for c in cs):
                d = map_ite(N, lambda v: delta(v, h))
        else:
            d = dl
        if d is not None and not (d.syms & unsolved):
            # try to simplify the increment
            if k.a[0] not in d.syms:
                return lambda t, ix: add(x0, mul(lift(t, li.sort), d))
            key = subst(d, {k: var('#k')})
            def F(t, ix):
                return add(x0, mksum(I0, t, lambda l: subst(d, {k: l}), small=0))
            li.next = ('acc', d)
            li.rec = subst_terms(N, {h: F(k, ())})
            return F
    if not (N.syms & unsolved):
        # value of the previous iteration
        if k.a[0] not in N.syms:
            return lambda t, ix: ite(eq(t, I0), x0, N)
        V = lambda t: subst(N, {k: sub(t, I1)})
        if V(I0) is x0: return lambda t, ix: V(t)
        return lambda t, ix: x0 if t is I0 else ite(eq(t, I0), x0, V(t))
    # conditional overwrite at one iteration
    F = solveN(X, li, N, k, unsolved, TRUE)
    return F or twin(X, li, N, k, unsolved, leaves) or last_writer(X, li, N, k, unsolved)


def twin(X, li, N, k, unsolved, leaves):
    """the same value as a location that accumulates: same entry, same next value"""
    h = app(li.name, (k,), li.sort)
    if N.syms & (unsolved - {li.name}): return None
    for o in leaves:
        if o is li or o.F is None or o.arity or o.sort != li.sort or not hasattr(o, 'rec'): continue
        f = o.F(k, ())
        try:
            if X.p._prove(eq(li.ent.fn(()), o.F(I0, ())), 6) and X.p._prove(eq(subst_terms(N, {h: f}), o.rec), 6): return o.F
        except Undecided:
            pass
    return None


def last_writer(X, li, N, k, unsolved):
    """the value written by the last iteration that writes one: w(t) is that iteration, -1 if there is none"""
    h = app(li.name, (k,), li.sort)
    if N.op != 'ite': return None
    ps = paths(N, h)
    if any(c.syms & unsolved for cs, _ in ps for c in cs): return None
    if any(v is not h and v.syms & unsolved for _, v in ps): return None
    if any('!' in s and s.startswith(('lp!', 'junk!')) for s in N.syms - {li.name}): return None
    wr = lor(*[land(*cs) for cs, v in ps if v is not h])
    val = map_ite(N, lambda v: li.ent.fn(()) if v is h else v)
    pv = sorted(subterms(wr, lambda x: x.op == 'v'), key=lambda x: x.id)
    pv = [x for x in pv if x is not k and x.a[0][0] != '$']
    nm = 'last!%d!%d' % (wr.id, k.id)
    at = lambda q, ps: subst(wr, dict([(k, q)] + list(zip(pv, ps))))

    def ax(t, *ps):
        w = app(nm, (t,) + ps, 'I')
        return [le(I(-1), w), land_imp(le(I0, t), lt(w, t)), lor(eq(w, I(-1)), at(w, ps))]

    def tr(t, *ps):
        w = app(nm, (t,) + ps, 'I')
        l = fresh('l')
        return (l,), land_imp(le(I0, l), lt(w, l), lt(l, t), lnot(at(l, ps)))
    X.p.ctx.axioms[nm] = ax
    X.p.ctx.trig[nm] = tr
    x0 = li.ent.fn(())

    def F(t, ix):
        if t is I0: return x0
        w = app(nm, (t,) + tuple(pv), 'I')
        return ite(lt(w, I0), x0, subst(val, {k: w}))
    return F


def map_ite(t, f):
    if t.op == 'ite': return ite(t.a[0], map_ite(t.a[1], f), map_ite(t.a[2], f))
    return f(t)


def k_candidates(X, cs, k, ix=()):
    """expressions for k suggested by path conditions"""
    kn = k.a[0]
    out, seen = [], set()

    def addc(t):
        if kn in t.syms or t.id in seen: return
        seen.add(t.id); out.append(t)     # (out is rebound below)
    atoms = []
    for c in cs:
        atoms += subterms(c, lambda x: x.op in ('le0', 'eq0'))
    second = []
    for a in sorted(atoms, key=lambda a: a.op != 'eq0'):
        q = ipoly(a.a[0])
        co, rest, bad = {}, {}, False
        sums = []
        for m, cc in q.items():
            inn = [x for x in m if kn in x.syms]
            if not inn:
                rest[m] = cc
            elif len(inn) == 1 and inn[0] is k:
                r = list(m); r.remove(k)
                co[tuple(r)] = cc
            elif len(m) == 1 and m[0].op == 'sum' and m[0].a[2] is k and kn not in m[0].a[3].syms and m[0].a[1] is I0:
                sums.append((m[0], cc))
            elif len(m) == 1 and m[0].op in ('idiv', 'imod'):
                bad = True
            else:
                bad = True
        if len(sums) == 1 and not co:
            s, cc = sums[0]
            if abs(cc) == 1:
                # P(k) +- rest
                r = from_ipoly({m: -x / cc for m, x in rest.items()})
                second.append(('seg', s, r))
            continue
        if bad or not co or sums: continue
        cof = from_ipoly(co)
        rr = from_ipoly(rest)
        if cof.op == 'c' and abs(cval(cof)) == 1:
            e = mul(I(-cval(cof)), rr)
            (addc if a.op == 'eq0' else lambda e: second.append(('lin', e, None)))(e)
        else:
            # cof*k + rest:   k = floor(-rest/cof)
            second.append(('div', neg(rr), cof))
    first, out = out, []
    divs, segs = [], []
    def adds(t):
        if t is not None and kn not in t.syms and t.id not in seen:
            seen.add(t.id); segs.append(t)

    def addq(x, y):
        if X.p.ctx.entails(le(I1, y)): addc(idiv(x, y))
        elif X.p.ctx.entails(lt(y, I0)): addc(idiv(neg(x), neg(y)))
        else:
            addc(idiv(x, y)); addc(idiv(neg(x), neg(y)))
    for kind, x, y in second:
        out = divs if kind == 'div' else first
        if kind == 'div':
            # an element index below the stride does not change the quotient
            ix_ = [v for v in ix if v.a[0] in x.syms]
            for d in range(len(ix_), 0, -1):
                for sub_ in itertools.combinations(ix_, d):
                    x2 = subst(x, {v: I0 for v in sub_})
                    if x2 is not I0: addq(x2, y)
            addq(x, y)
        elif kind == 'lin':
            addc(x)
            addc(sub(x, I1)); addc(add(x, I1))
        else:
            adds(seg_of(X, x, y))
    names = {v.a[0] for v in ix}
    divs.sort(key=lambda t: (len(names & t.syms), str(t).count('+'), str(t).count('-')))
    return segs + first + divs


def seg_of(X, s, r):
    """s = sum_{l<k} cnt(l) as a function of its upper limit; unique k with P(k) <= r < P(k+1)"""
    v, lo, hi, body = s.a
    if any(x.startswith(('lp!', 'junk!')) for x in body.syms): return None
    nm = 'seg!%d!%d' % (body.id, v.id)
    pv = tuple(sorted(subterms(body, lambda x: x.op == 'v' and x.a[0][0] != '$'), key=lambda x: x.id))
    if nm not in X.p.rewr:
        def rw(prover, r, *ps):
            ctx = prover.ctx
            bd = subst(body, dict(zip(pv, ps)))
            P = lambda t: mksum(I0, t, lambda l: subst(bd, {v: l}), small=0)
            cands = [I1]
            for f in ctx.facts + [r]:
                for y in subterms(f, lambda y: y.op == 'sum' and y.a[3] is bd and y.a[0] is v): cands.append(y.a[2])
            seen = set()
            for q in cands:
                for q2 in (q, sub(q, I1)):
                    if q2.id in seen or any(x[0] == '$' for x in q2.syms): continue
                    seen.add(q2.id)
                    w = sub(r, P(q2))
                    if ctx.entails(le(I0, q2)) and ctx.entails(le(I0, w)) and ctx.entails(lt(w, subst(bd, {v: q2}))): return q2
            return None
        X.p.rewr[nm] = rw
    return app(nm, (r,) + pv, 'I')


def prove_q(X, goal, depth=10):
    try:
        return X.p.prove(goal, depth) if False else X.p._prove(goal, depth)
    except Undecided:
        return False


def prove_i(X, goal, depth=10):
    """with the universal facts"""
    try:
        return X.p.prove(goal, depth)
    except Undecided:
        return False


def in_range(li, L2):
    """the element at li.ix lies inside its container after the iteration (others cannot be observed)"""
    cs, n, path = [], 0, li.path
    for q, x in enumerate(path):
        if x == '[]':
            cs += [le(I0, li.ix[n]), lt(li.ix[n], L2[(li.root,) + path[:q] + ('#len',)].fn(li.ix[:n]))]
            n += 1
        elif x == '#el':
            for d, y in ((n, '#rows'), (n + 1, '#cols')):
                cs += [le(I0, li.ix[d]), lt(li.ix[d], L2[(li.root,) + path[:q] + (y,)].fn(li.ix[:n]))]
    return cs


def solveN(X, li, N, k, unsolved, c, rng=()):
    X.p.push()
    try:
        for f in rng: X.p.assume(f)
        return solveN1(X, li, N, k, unsolved, c)
    finally:
        X.p.pop()


def reachable(X, cs):
    X.p.push()
    try:
        for z in cs: X.p.assume(z)
        return not X.p.ctx.inconsistent()
    finally:
        X.p.pop()


def solveN1(X, li, N, k, unsolved, c):
    p = X.p
    ix = li.ix
    h = app(li.name, (k,) + ix, li.sort)
    e0 = li.ent.fn
    # shift: N = H(k, sigma(ix))
    if N.op == 'app' and N.a[0] == li.name and N is not h and N.a[1][0] is k:
        offs = [sub(a, b) for a, b in zip(N.a[1][1:], ix)]
        if all(o.op == 'c' for o in offs):
            return lambda t, jx: e0(tuple(add(j, mul(o, t)) for j, o in zip(jx, offs)))
        return None
    # fully overwritten in each iteration
    if not (N.syms & unsolved):
        V = lambda t, jx: subst(N, dict([(k, sub(t, I1))] + list(zip(ix, jx))))
        return lambda t, jx: ite(eq(t, I0), e0(jx), V(t, jx))
    N = lift_own(N, li.name)
    ps = [(cs, v) for cs, v in paths(N, h) if v is h or reachable(X, cs)]
    touched = [(cs, v) for cs, v in ps if v is not h]
    # own leaf may only be read at ix, other unsolved leaves not at all
    t2 = []
    for cs, v in touched:
        m = {}
        for x in cs + [v]:
            if x.syms & (unsolved - {li.name}): return None
            if li.name in x.syms:
                for y in subterms(x, lambda y: y.op == 'app' and y.a[0] == li.name):
                    if y is h or y in m: continue
                    if y.a[1][0] is not k: return None
                    p.push()
                    try:
                        for z in cs:
                            if li.name not in z.syms: p.assume(z)
                        ok = p.ctx.inconsistent() or prove_q(X, land(*[eq(a, b) for a, b in zip(y.a[1][1:], ix)]))
                    finally:
                        p.pop()
                    if not ok: return None
                    m[y] = h
        if m: cs, v = [subst_terms(x, m) for x in cs], subst_terms(v, m)
        t2.append((cs, v))
    touched = t2
    ps = touched
    guarded = any(li.name in x.syms for cs, v in ps for x in cs)
    # accumulation without a guard on the index
    gs = []
    for cs, v in touched:
        g = None
        if guarded: cs = [x for x in cs if li.name not in x.syms]
        C = land(*cs)
        for cand in k_candidates(X, cs, k, ix):
            p.push()
            try:
                p.assume(C)
                for i in ix: pass
                if p.ctx.inconsistent():
                    g = I0; break
                ok = prove_q(X, eq(k, cand))
            finally:
                p.pop()
            if ok:
                g = cand
                break
        gs.append(g)
    reads_own = any(li.name in v.syms for _, v in touched)
    if guarded:
        # the element is visited in at most one iteration (index part of the guards), where it still has its entry value
        if not gs or not all(g is not None for g in gs) or not same_g(gs): return None
        g = gs[0]
        pos = lor(*[land(*[x for x in cs if li.name not in x.syms]) for cs, _ in touched])
        N = h
        for cs, v in touched[::-1]: N = ite(land(*cs), v, N)

        def F3(t, jx):
            base = e0(jx)
            m0 = dict(zip(ix, jx))
            gg = subst(g, m0)
            m0[k] = gg
            return ite(land(le(I0, gg), lt(gg, t), subst(pos, m0)),
                       subst_app(subst(N, m0), li.name, lambda *a: base), base)
        return F3
    if all(g is not None for g in gs) and (not reads_own or len(touched) == 1 or same_g(gs)):
        Cs = [land(*cs) for cs, _ in touched]
        Vs = [v for _, v in touched]

        def F(t, jx):
            base = e0(jx)
            m0 = dict(zip(ix, jx))
            T, G, Vv = [], [], []
            for g, C, v in zip(gs, Cs, Vs):
                gg = subst(g, m0)
                m1 = dict(m0); m1[k] = gg
                T.append(land(le(I0, gg), lt(gg, t), subst(C, m1)))
                G.append(gg)
                vv = subst_terms(v, {h: None_app(li, k, ix)}) if False else v
                vv = subst_app(subst(v, m1), li.name, lambda *a: base)
                Vv.append(vv)
            r = base
            for q in range(len(T) - 1, -1, -1):
                later = TRUE
                for q2 in range(len(T)):
                    if q2 != q and G[q2] is not G[q]:
                        later = land(later, lor(lnot(T[q2]), lt(G[q2], G[q])))
                r = ite(land(T[q], later), Vv[q], r)
            return r
        return F
    # accumulation
    if li.sort != 'B' and not guarded and all(delta(v, h) is not None for _, v in ps):
        d = const(0, li.sort)
        for cs, v in touched[::-1]: d = ite(land(*cs), delta(v, h), d)
        if not (d.syms & unsolved):
            def F2(t, jx):
                return add(e0(jx), mksum(I0, t, lambda l: subst(d, dict([(k, l)] + list(zip(ix, jx)))), small=0))
            return F2
    return None


def same_g(gs):
    return all(g is gs[0] for g in gs)


# ------------------------------------------------------------------ trip count
def trip_count(X, c, k):
    """number of iterations: (term, facts)"""
    p = X.p
    kn = k.a[0]
    if c is FALSE: return I0, []
    conj = list(c.a) if c.op == 'and' else [c]
    best = None
    simple = True
    counts = []
    for a in conj:
        if kn not in a.syms:
            simple = False; break
        x = a
        if x.op == 'not' and x.a[0].op == 'eq0':
            q = ipoly(x.a[0].a[0])
            co = q.get((k,), 0)
            rest = from_ipoly({m: v for m, v in q.items() if m != (k,)})
            if abs(co) == 1 and kn not in rest.syms:
                e = mul(I(-co), rest)      # exits when k == e
                if p.ctx.entails(le(I0, e)):
                    counts.append(e); continue
            simple = False; break
        if x.op == 'le0':
            q = ipoly(x.a[0])
            co = q.get((k,), 0)
            rest = from_ipoly({m: v for m, v in q.items() if m != (k,)})
            if co > 0 and kn not in rest.syms:
                # co*k + rest <= 0
                if co == 1:
                    e = sub(I1, rest)
                else:
                    # floor(-rest/co)+1
                    nr = add(neg(rest), I(co))
                    if not p.ctx.entails(le(I0, nr)):
                        nr = ite(le(I0, nr), nr, I0)
                    e = idiv(nr, I(co))
                if p.ctx.entails(le(I0, e)): counts.append(e)
                elif p.ctx.entails(le(e, I0)): counts.append(I0)
                else: counts.append(ite(le(I0, e), e, I0))
                continue
        simple = False; break
    if simple and counts:
        n = counts[0]
        for e in counts[1:]: n = minr(n, e)
        return n, []
    n = fresh('n')
    # n is the first index where the condition fails (partial correctness: the loop is assumed to end)
    facts = [le(I0, n), subst(lnot(c), {k: n})]
    X.trip = getattr(X, 'trip', {})
    X.trip[n.a[0]] = (k, c)
    facts.append(lor(eq(n, I0), subst(c, {k: sub(n, I1)})))
    X.partial = getattr(X, 'partial', 0) + 1
    k2 = fresh('l')
    X.newfor = ((k2,), land_imp(le(I0, k2), lt(k2, n), subst(c, {k: k2})))
    return n, facts


def mono_facts(X, leaves, k, n):
    """prefix sums of non-negative counts are monotone: P(k)+cnt(k) <= P(n), 0 <= P(k)"""
    out = []
    done = set()
    for li in leaves.values():
        nx = getattr(li, 'next', None)
        if isinstance(nx, tuple) and nx[0] == 'acc' and li.sort == 'I':
            P = lambda t: sub(li.F(t, ()), li.ent.fn(()))
            s = P(k)
            if s.id in done: continue
            done.add(s.id)
            if s.op != 'sum': continue
            v, lo, hi, body = s.a
            l = fresh('l')
            X.p.push()
            try:
                X.p.assume(le(I0, l)); X.p.assume(lt(l, n))
                ok = prove_q(X, le(I0, subst(body, {v: l})))
            finally:
                X.p.pop()
            if ok:
                out += [le(I0, s), le(add(s, subst(body, {v: k})), P(n)), le(I0, subst(body, {v: k}))]
    return out


# ------------------------------------------------------------------ Houdini
def add_invs(X, hav, t, leaves):
    for li in hav:
        for f in li.next.invs:
            if li.arity == 0:
                X.p.assume(f(li.F(t, ()), t))


def hints(X, li, N, k):
    """candidate invariants from the conditions on a written value: what held of it when it was written"""
    hs = X.hints.setdefault((li.root,) + li.path, [])
    h = app(li.name, (k,), li.sort)
    x = var('?x', li.sort)
    for cs, v in paths(N, h):
        if v is h or v.op == 'c': continue
        for c in cs:
            for a in (c.a if c.op == 'and' else (c,)):
                f = subst_terms(a, {v: x})
                if f is not a and not any(s == k.a[0] or s[0] == '$' or s.startswith(('lp!', 'junk!')) for s in f.syms) and f not in hs:
                    hs.append(f)


def houdini(X, st0, leaves, hav, k, cond, inc, body, roots0, fv0):
    p = X.p
    def st_at(t):
        fns = {key: (lambda li: lambda ix: li.F(t, tuple(ix)))(li) for key, li in leaves.items()}
        return build(X, st0, roots0, fns)
    # candidates for scalars
    for li in hav:
        li.next.invs = []
        if li.arity != 0: continue
        x0 = li.ent.fn(())
        c = []
        if li.sort in ('I', 'R'):
            z = const(0, li.sort)
            c += [lambda x, t, x0=x0: le(x0, x), lambda x, t, x0=x0: le(x, x0), lambda x, t, z=z: le(z, x), lambda x, t, z=z: lt(z, x)]
            if li.sort == 'I':
                c += [lambda x, t, x0=x0: le(x, add(x0, t)), lambda x, t: le(x, t), lambda x, t: lt(x, t)]
        elif li.sort == 'B':
            c += [lambda x, t: x, lambda x, t: lnot(x)]
        for f in X.hints.get((li.root,) + li.path, []):
            if not any(made_since(s, li.next.mark) for s in f.syms):
                c.append(lambda x, t, f=f: subst(f, {var('?x', li.sort): x}))
        # entry
        c = [f for f in c if prove_q(X, f(x0, I0))]
        li.next.invs = c
    for _ in range(8):
        dropped = False
        p.push()
        try:
            p.assume(le(I0, k))
            add_invs(X, hav, k, leaves)
            X.frames[-1]['vars'] = dict(fv0)
            cc, ns, outs = run_body(X, st_at(k), cond, inc, body, k, keep=True)
            if ns is not None:
                for li in hav:
                    if li.arity != 0: continue
                    L2 = {l.path: l for l in flatten(ns.v[li.root])}
                    N = L2[li.path].fn(())
                    keep = []
                    for f in li.next.invs:
                        if prove_i(X, f(N, add(k, I1))): keep.append(f)
                        else: dropped = True
                    li.next.invs2 = keep
        finally:
            p.pop()
        for li in hav:
            if li.arity == 0 and hasattr(li.next, 'invs2'): li.next.invs = li.next.invs2
        if not dropped: break


def exec_range(X, s):
    inner = s['inner']
    # [init?, range decl, begin decl, end decl, cond, inc, loop var, body]
    xs = list(inner)
    body = xs[-1]; var_ = xs[-2]; inc = xs[-3]; cond = xs[-4]
    for d in xs[:-4]:
        if d: X.exec(d)
    b = {'kind': 'CompoundStmt', 'inner': [var_, body]}
    return exec_loop(X, cond, inc, b)
