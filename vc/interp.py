"""Symbolic execution of the clang AST: generates the verification conditions.

State: immutable values per root (variable / object).  Project functions are inlined unless a contract is
registered for them; Eigen, std and boost operations are given by axiomatised contracts (builtins)."""
import re
from fractions import Fraction
from .terms import *
from .values import *
from .prover import Prover, Split, ParamSplit, Undecided, p_term, p_add
from . import astload
from .astload import tname, norm_type, hasbody

SCALAR_T = {'double': 'R', 'float': 'R', 'int': 'I', 'long': 'I', 'unsigned int': 'I', 'unsigned long': 'I', 'bool': 'B',
            'long long': 'I', 'short': 'I', 'char': 'I', 'std::ptrdiff_t': 'I', 'Eigen::Index': 'I', 'Index': 'I',
            'size_t': 'I', 'std::size_t': 'I', 'unsigned long long': 'I', 'unsigned char': 'I', 'long double': 'R'}


def strip_type(t):
    t = norm_type(t)
    t = re.sub(r'\bconst\b|\bvolatile\b|\bmutable\b', '', t).strip()
    while t.endswith('&'): t = t[:-1].strip()
    return re.sub(r'\s+', ' ', t)


def split_targs(s):
    """template args of 'X<...>'"""
    i = s.index('<')
    d, cur, out = 0, '', []
    for ch in s[i + 1:]:
        if ch == '<': d += 1
        if ch == '>':
            if d == 0: break
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip()); cur = ''
        else:
            cur += ch
    out.append(cur.strip())
    return out


class State:
    __slots__ = ('v',)

    def __init__(self, v=None): self.v = dict(v or {})
    def copy(self): return State(self.v)


class Outcome:
    __slots__ = ('kind', 'cond', 'state', 'val')

    def __init__(self, kind, cond, state, val=None):
        self.kind, self.cond, self.state, self.val = kind, cond, state, val


class Obligation:
    __slots__ = ('name', 'kind', 'ok', 'detail', 'secs', 'goal')

    def __init__(self, name, kind, ok, detail='', secs=0.0, goal=None):
        self.name, self.kind, self.ok, self.detail, self.secs, self.goal = name, kind, ok, detail, secs, goal


class AssumeFalse(Exception):
    """path became infeasible"""


class Interp:
    def __init__(self, prog, prover=None):
        self.prog = prog
        self.p = prover or Prover()
        self.ctx = self.p.ctx
        self.st = State()
        self.obls = []
        self.quiet = 0
        self.collect = []       # universal preconditions being read (loops of vcRequire)
        self.frames = []
        self.contracts = {}        # 'Class<..>::method' or function name -> handler(interp, thisloc, argnodes)
        self.depth = 0
        self.fnstack = []
        self.used_fns = set()
        self.hints = {}
        self.forgot = set()
        self.used_contracts = set()
        self.consts = {}
        self.reads = None
        self.strict_bounds = True
        self.class_decl = {}
        self.where_err = None
        self.adts = {}

    # ------------------------------------------------------------ obligations
    def oblige(self, kind, cond, what):
        if self.quiet or cond is TRUE:
            if cond is TRUE and not self.quiet:
                self.obls.append(Obligation('%s %s' % (self.where(), what), kind, True))
            if cond is not TRUE: self.assume_soft(cond)
            return
        import time
        t0 = time.time()
        ok, det = False, ''
        try:
            ok = self.p.prove(cond)
            if not ok: det = 'not provable: %s' % cond
        except (Undecided,) as e:
            det = 'undecided: %s' % e
        self.obls.append(Obligation('%s %s' % (self.where(), what), kind, ok, det, time.time() - t0, cond))
        self.assume_soft(cond)

    def assume_soft(self, cond):
        """after being required, a condition may be used"""
        try:
            self.p.assume(cond)
        except Exception:
            raise

    def where(self):
        return self.fnstack[-1] if self.fnstack else '?'

    # ------------------------------------------------------------ state access
    def alloc(self, v, hint='t'):
        n = '%s@%d' % (hint, mark())
        self.st.v[n] = v
        return Loc(n)

    def read(self, loc):
        if isinstance(loc, Choice):
            return merge(loc.c, self.read(loc.a), self.read(loc.b))
        if loc.root not in self.st.v:
            raise Unsupported('read of unknown root %r' % loc)
        v = self.st.v[loc.root]
        for s in loc.path:
            v = self.step(v, s, loc)
        return v

    def step(self, v, s, loc=None):
        k = s[0]
        if k == 'f':
            if not isinstance(v, Struct) or s[1] not in v.f:
                raise Unsupported('field %s of %r' % (s[1], v))
            return v.f[s[1]]
        if k == 'i':
            return v.at(s[1])
        if k == 'cell':
            return v.at(s[1], s[2])
        if k == 'blk':
            _, r0, c0, h, w = s
            return Mat(h, w, lambda r, c: v.at(add(r, r0), add(c, c0)), v.sort)
        if k == 'T':
            return Mat(v.cols, v.rows, lambda r, c: v.at(c, r), v.sort)
        if k == 'diag':
            return Mat(v.rows, I1, lambda r, c: v.at(r, r), v.sort)
        raise Unsupported('step ' + k)

    def write(self, loc, val):
        if isinstance(loc, Choice):
            a = merge(loc.c, val, self.read(loc.a)); self.write(loc.a, a)
            b = merge(loc.c, self.read(loc.b), val); self.write(loc.b, b)
            return
        self.st.v[loc.root] = self.upd(self.st.v[loc.root], loc.path, val)

    def upd(self, v, path, val):
        if not path: return val
        s, rest = path[0], path[1:]
        k = s[0]
        if k == 'f':
            return v.with_(s[1], self.upd(v.f[s[1]], rest, val))
        if k == 'i':
            i = s[1]
            new = self.upd(v.at(i), rest, val)
            old = v
            return Vec(v.n, lambda j: merge(eq(j, i), new, old.at(j)), v.etype)
        if k == 'cell':
            _, r0, c0 = s
            old = v
            x = val if not isinstance(val, T) else lift(val, v.sort)
            return Mat(v.rows, v.cols, lambda r, c: ite(land(eq(r, r0), eq(c, c0)), x, old.at(r, c)), v.sort)
        if k == 'blk':
            _, r0, c0, h, w = s
            sub_ = self.step(v, s)
            new = self.upd(sub_, rest, val)
            old = v
            full_r = h is v.rows and r0 is I0
            full_c = w is v.cols and c0 is I0
            def el(r, c):
                cs = []
                if not full_r: cs += [le(r0, r), lt(r, add(r0, h))]
                if not full_c: cs += [le(c0, c), lt(c, add(c0, w))]
                return ite(land(*cs), new.at(sub(r, r0), sub(c, c0)), old.at(r, c))
            return Mat(v.rows, v.cols, el, v.sort)
        if k == 'T':
            t = self.upd(self.step(v, s), rest, val)
            return Mat(t.cols, t.rows, lambda r, c: t.at(c, r), v.sort)
        if k == 'diag':
            new = self.upd(self.step(v, s), rest, val)
            old = v
            return Mat(v.rows, v.cols, lambda r, c: ite(eq(r, c), new.at(r, I0), old.at(r, c)), v.sort)
        raise Unsupported('write step ' + k)

    # ------------------------------------------------------------ types and default values
    def junk(self, sort):
        return app('junk!%d' % mark(), (), sort)

    def mat_dims(self, t):
        a = split_targs(t)
        return a

    def default(self, t, init=True):
        """default-initialised value of type t (scalars indeterminate)"""
        t = strip_type(t)
        if t in SCALAR_T:
            return self.junk(SCALAR_T[t])
        if t.startswith('Eigen::Matrix<') or t.startswith('Matrix<'):
            a = split_targs(t)
            sort = SCALAR_T.get(a[0], 'R')
            r, c = int(a[1]), int(a[2])
            n = 'junk!%d' % mark()
            rows = I(r) if r >= 0 else I0
            cols = I(c) if c >= 0 else I0
            return Mat(rows, cols, lambda i, j: app(n, (i, j), sort), sort)
        if t.startswith('Eigen::Array<'):
            return self.default('Eigen::Matrix' + t[len('Eigen::Array'):])
        if t.startswith('std::vector<'):
            et = split_targs(t)[0]
            n = 'junk!%d' % mark()
            return Vec(I0, self.vec_junk(et, n), et)
        if t.startswith('boost::circular_buffer<'):
            et = split_targs(t)[0]
            n = 'junk!%d' % mark()
            return Vec(I0, self.vec_junk(et, n), et)
        if t.startswith('boost::ptr_vector<'):
            return Vec(I0, lambda i: Opaque('QP', {'nv': app('junkqp', (i,), 'I'), 'nc': app('junkqc', (i,), 'I')}), 'QP')
        if t.startswith('boost::scoped_ptr<') or t.startswith('std::unique_ptr<') or t.endswith('*'):
            return NULL
        if t.startswith('boost::noncopyable'):
            return Struct('noncopyable', {})
        cls = self.find_class(t)
        if cls is not None:
            return self.construct_default(t)
        if self.is_enum(t):
            return self.junk('I')
        raise Unsupported('default value of type ' + t)

    def vec_junk(self, et, n):
        memo = {}

        def get(i):
            v = memo.get(i.id)
            if v is None:
                e = strip_type(et)
                if e in SCALAR_T:
                    v = app(n, (i,), SCALAR_T[e])
                else:
                    # a representative default element with opaque contents
                    d = self.default(et)
                    v = unflatten(d, {l.path: (lambda l: lambda ix: app(n + '.' + '.'.join(l.path), (i,) + tuple(ix), l.sort)
                                               if not l.path or l.path[-1] not in ('#rows', '#cols', '#len') else l.fn(ix))(l)
                                      for l in flatten(d)})
                memo[i.id] = v
            return v
        return get

    def is_enum(self, t):
        return True if re.search(r'(PhaseType|Enum|Type)$', t) else any(
            d.get('kind') == 'EnumDecl' and (d.get('name') == t.split('::')[-1]) for d in self.prog.decl.values())

    def find_class(self, t):
        t = strip_type(t)
        if t in self.prog.classes: return self.prog.classes[t]
        for k in self.prog.classes:
            if k.endswith('::' + t): return self.prog.classes[k]
        return self.prog.classes.get(self.in_namespace(t))

    def class_name(self, t):
        t = strip_type(t)
        if t in self.prog.classes: return t
        for k in self.prog.classes:
            if k.endswith('::' + t): return k
        return self.in_namespace(t) or t

    def in_namespace(self, t):
        """classes of nested namespaces are indexed without them"""
        m = re.match(r'^vcqp::(\w+)$', t)
        return m.group(1) if m and m.group(1) in self.prog.classes else None

    def fields_of(self, cls):
        out = []
        node = self.find_class(cls)
        for b in node.get('bases', []):
            bt = strip_type(b['type'].get('desugaredQualType') or b['type'].get('qualType'))
            if self.find_class(bt) is not None:
                out += self.fields_of(bt)
        for c in node.get('inner', []):
            if c and c.get('kind') == 'FieldDecl':
                out.append(c)
        return out

    def ctors_of(self, cls):
        node = self.find_class(cls)
        return [c for c in node.get('inner', []) if c and c.get('kind') == 'CXXConstructorDecl']

    def construct_default(self, t):
        loc = self.alloc(None, 'obj')
        self.construct(loc, t, None, [])
        v = self.read(loc)
        del self.st.v[loc.root]
        return v

    def raw_struct(self, cls):
        f = {}
        for c in self.fields_of(cls):
            ft = strip_type(c['type'].get('desugaredQualType') or c['type']['qualType'])
            qt = c['type'].get('desugaredQualType') or c['type']['qualType']
            if '&' in qt.split('<')[0] or qt.rstrip().endswith('&'):
                f[c['name']] = None
            elif ft in SCALAR_T:
                f[c['name']] = self.junk(SCALAR_T[ft])
            elif ft.endswith('*'):
                f[c['name']] = NULL
            else:
                f[c['name']] = None     # filled below / by the constructor
        return Struct(self.class_name(cls), f)

    def construct(self, loc, cls, ctor_type, args, ctor=None):
        """run a constructor of a project class on loc; args: list of thunks evaluated values (('v',val)|('l',loc))"""
        cls = self.class_name(cls)
        h = self.contracts.get('ctor:' + cls)
        if h is not None:
            if h(self, loc, args) is not False:     # False: another constructor, with no contract
                self.used_contracts.add('ctor:' + cls)
                return
        if len(args) == 1:
            try:
                src = args[0][1] if args[0][0] == 'v' else self.read(args[0][1])
            except Unsupported:
                src = None
            if isinstance(src, Opaque) and abstract(src):
                self.write(loc, src)        # a copy of an abstract value is that value
                return
        cands = self.ctors_of(cls)
        d = ctor
        if d is None:
            want = re.sub(r'\s*noexcept(\(.*\))?$', '', norm_type(ctor_type or 'void ()'))
            for c in cands:
                ct = re.sub(r'\s*noexcept(\(.*\))?$', '', norm_type(c['type']['qualType']))
                if ct == want:
                    d = c
                    break
        if d is None and ctor_type is not None and args:
            cands2 = [c for c in cands if len([x for x in c.get('inner', []) if x.get('kind') == 'ParmVarDecl']) == len(args)]
            if len(cands2) == 1: d = cands2[0]
        raw = self.raw_struct(cls)
        node = self.prog.body(d) if d is not None else None
        # copy / move
        if args and len(args) == 1 and (node is None or node.get('isImplicit') or node.get('explicitlyDefaulted')):
            a = args[0]
            v = a[1] if a[0] == 'v' else self.read(a[1])
            if isinstance(v, Struct) and v.cls == cls:
                self.write(loc, v)
                return
        if node is None:
            # implicit default constructor: default member initialisers / default construct fields
            self.write(loc, raw)
            for c in self.fields_of(cls):
                if raw.f[c['name']] is None:
                    ini = [x for x in c.get('inner', []) if x and x.get('kind') not in ('FullComment',)]
                    self.write(loc.add(('f', c['name'])), self.default(c['type'].get('desugaredQualType') or c['type']['qualType']))
                elif c.get('hasInClassInitializer'):
                    ini = [x for x in c.get('inner', []) if x]
                    if ini:
                        self.write(loc.add(('f', c['name'])), self.conv(self.rv(ini[-1]), raw.f[c['name']]))
            return
        if args and len(args) == 1:
            a = args[0]
            v = a[1] if a[0] == 'v' else self.read(a[1])
            if isinstance(v, Struct) and v.cls == cls and not any(
                    x.get('kind') == 'CXXCtorInitializer' for x in node.get('inner', [])) and self.is_copy(node, cls):
                self.write(loc, v)
                return
        self.write(loc, raw)
        self.call_body(node, loc, args, ctor=True, cls=cls)

    def is_copy(self, node, cls):
        ps = [x for x in node.get('inner', []) if x.get('kind') == 'ParmVarDecl']
        return len(ps) == 1 and strip_type(tname(ps[0])).rstrip('&').strip() == cls

    # ------------------------------------------------------------ functions
    def qual(self, node):
        o = self.prog.owner.get(node['id'])
        if o is None:
            # definition out of class: use the mangled name of a sibling declaration
            m = node.get('mangledName')
            for d in self.prog.decl.values():
                if d.get('mangledName') == m and d['id'] in self.prog.owner:
                    o = self.prog.owner[d['id']]
                    break
        return (o + '::' if o else '') + node.get('name', '?')

    def call_body(self, node, this, args, ctor=False, cls=None):
        """args: list of ('v', value) / ('l', loc) / None(default)"""
        if self.depth > 60:
            raise Unsupported('recursion')
        q = self.qual(node)
        self.used_fns.add(q)
        frame = {'this': this, 'vars': {}, 'node': node}
        params = [x for x in node.get('inner', []) if x.get('kind') == 'ParmVarDecl']
        for i, pd in enumerate(params):
            qt = pd['type'].get('qualType', '')
            dt = pd['type'].get('desugaredQualType') or qt
            a = args[i] if i < len(args) else None
            if a is None:
                ini = [x for x in pd.get('inner', []) if x and not x['kind'].endswith('Comment')]
                if not ini: raise Unsupported('missing argument for ' + q)
                a = ('v', self.rv(ini[0]))
            isref = qt.rstrip().endswith('&') or dt.rstrip().endswith('&')
            if isref:
                loc = a[1] if a[0] == 'l' else self.alloc(self.coerce_ty(a[1], dt), pd.get('name', 'arg'))
            else:
                v = a[1] if a[0] == 'v' else self.read(a[1])
                loc = self.alloc(self.coerce_ty(v, dt), pd.get('name', 'arg'))
            frame['vars'][pd['id']] = loc
        self.frames.append(frame)
        self.fnstack.append(q)
        self.depth += 1
        npush = 0
        try:
            if ctor:
                self.ctor_inits(node, this, cls)
            body = [x for x in node.get('inner', []) if x.get('kind') == 'CompoundStmt'
                    or x.get('kind') == 'CXXTryStmt']
            rt = norm_type(node['type']['qualType'])
            frame['retref'] = rt.split('(')[0].strip().endswith('&')
            outs = self.exec_fn(body[0])
            val = self.finish(outs, q)
            return val
        except Exception:
            if not self.where_err: self.where_err = ' < '.join(self.fnstack[::-1][:4])
            raise
        finally:
            self.depth -= 1
            self.frames.pop()
            self.fnstack.pop()

    def finish(self, outs, q):
        """merge all outcomes of a function body"""
        live = [o for o in outs if o.kind in ('ret', 'next')]
        if not live:
            raise AssumeFalse(q)
        st, val = None, None
        for o in reversed(live):
            if st is None:
                st, val = o.state, o.val
            else:
                st = self.merge_states(o.cond, o.state, st)
                if isinstance(val, (Loc, Choice)) or isinstance(o.val, (Loc, Choice)):
                    val = merge(o.cond, o.val, val)
                elif val is None or o.val is None:
                    val = val if val is not None else o.val
                else:
                    val = merge(o.cond, o.val, val)
        self.st = st
        return val

    def merge_states(self, c, a, b):
        out = {}
        for k in a.v:
            if k in b.v:
                x, y = a.v[k], b.v[k]
                out[k] = x if x is y else self.merge_v(c, x, y)
            else:
                out[k] = a.v[k]
        for k in b.v:
            if k not in out: out[k] = b.v[k]
        return State(out)

    def merge_v(self, c, x, y):
        if isinstance(x, Struct) and isinstance(y, Struct) and x.cls == y.cls:
            return Struct(x.cls, {k: (x.f[k] if x.f[k] is y.f[k] else self.merge_v(c, x.f[k], y.f[k])) for k in x.f})
        if x is None: return y
        if y is None: return x
        return merge(c, x, y)

    def ctor_inits(self, node, this, cls):
        done = set()
        for x in node.get('inner', []):
            if x.get('kind') != 'CXXCtorInitializer': continue
            ini = [y for y in x.get('inner', []) if y]
            if 'anyInit' in x:
                nm = x['anyInit']['name']
                done.add(nm)
                ft = x['anyInit']['type']
                qt = ft.get('desugaredQualType') or ft.get('qualType')
                e = ini[0] if ini else None
                fl = this.add(('f', nm))
                if qt.rstrip().endswith('&'):
                    self.write(fl, self.lv(e))
                elif e is None:
                    self.write(fl, self.default(qt))
                else:
                    self.init_at(fl, qt, e)
            elif 'baseInit' in x:
                bt = strip_type(x['baseInit'].get('desugaredQualType') or x['baseInit'].get('qualType'))
                if self.find_class(bt) is not None and ini:
                    e = ini[0]
                    self.run_base_ctor(this, bt, e)
            else:
                # delegating constructor
                e = ini[0] if ini else None
                if e is not None:
                    self.init_at(this, cls, e)
        # remaining class-type fields (default)
        v = self.read(this)
        for c in self.fields_of(cls):
            if v.f.get(c['name'], 0) is None and c['name'] not in done:
                qt = c['type'].get('desugaredQualType') or c['type']['qualType']
                self.write(this.add(('f', c['name'])), self.default(qt))
            elif c['name'] not in done and c.get('hasInClassInitializer'):
                i2 = [y for y in c.get('inner', []) if y]
                if i2: self.write(this.add(('f', c['name'])), self.rv(i2[-1]))

    def run_base_ctor(self, this, bt, e):
        e = self.skip(e)
        if e['kind'] == 'CXXConstructExpr':
            args = [self.arg(a) for a in e.get('inner', []) if a]
            cands = self.ctors_of(bt)
            want = re.sub(r'\s*noexcept(\(.*\))?$', '', norm_type(e['ctorType']['qualType']))
            for c in cands:
                if re.sub(r'\s*noexcept(\(.*\))?$', '', norm_type(c['type']['qualType'])) == want:
                    n = self.prog.body(c)
                    if n: self.call_body(n, this, args, ctor=True, cls=self.class_name(bt))
                    return

    def init_at(self, loc, qt, e):
        e0 = self.skip(e)
        t = strip_type(qt)
        if e0['kind'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and self.find_class(t) is not None:
            args = [self.arg(a) for a in e0.get('inner', []) if a]
            self.construct(loc, t, e0['ctorType']['qualType'], args)
        else:
            self.write(loc, self.coerce_ty(self.rv(e), qt))

    def coerce_ty(self, v, qt):
        """convert value to declared type"""
        t = strip_type(qt)
        if t in SCALAR_T:
            v = self.scalar(v)
            s = SCALAR_T[t]
            return self.to_sort(v, s)
        if isinstance(v, Mat) and (t.startswith('Eigen::Matrix<') or t.startswith('Matrix<')):
            a = split_targs(t)
            r, c = int(a[1]), int(a[2])
            s = SCALAR_T.get(a[0], 'R')
            if r >= 0 and v.rows is not I(r):
                self.oblige('dim', eq(v.rows, I(r)), 'fixed rows match')
            if c >= 0 and v.cols is not I(c):
                self.oblige('dim', eq(v.cols, I(c)), 'fixed cols match')
            if s != v.sort and s == 'R':
                w = v
                return Mat(w.rows, w.cols, lambda i, j: i2r(w.at(i, j)), 'R')
            return Mat(v.rows if r < 0 else I(r), v.cols if c < 0 else I(c), v.fn, v.sort) if v.prod else v
        return v

    def to_sort(self, v, s):
        if v.sort == s: return v
        if s == 'R' and v.sort == 'I': return i2r(v)
        if s == 'I' and v.sort == 'R': return r2i(v)
        if s == 'B' and v.sort in ('I', 'R'): return ne(v, const(0, v.sort))
        if v.sort == 'B': return ite(v, const(1, s), const(0, s))
        raise Unsupported('conversion')

    def conv(self, v, like):
        if isinstance(v, T) and isinstance(like, T): return self.to_sort(v, like.sort)
        return v

    def scalar(self, v):
        if isinstance(v, T): return v
        if isinstance(v, Mat):
            return v.at(I0, I0)
        raise Unsupported('scalar expected, got %r' % (v,))

    # ------------------------------------------------------------ statements
    def exec_fn(self, body):
        return self.exec_seq([body], TRUE)

    def exec_seq(self, stmts, cond):
        """returns outcomes; self.st is the state on entry"""
        done = []
        cur = cond
        pushes = 0
        try:
            for k, s in enumerate(stmts):
                outs = self.exec(s)
                nxt = [o for o in outs if o.kind == 'next']
                oth = [o for o in outs if o.kind != 'next']
                for o in oth:
                    done.append(Outcome(o.kind, land(cur, o.cond), o.state, o.val))
                if not nxt:
                    return done
                if len(nxt) == 1:
                    self.st = nxt[0].state
                    c = nxt[0].cond
                else:
                    st = nxt[-1].state
                    for o in reversed(nxt[:-1]):
                        st = self.merge_states(o.cond, o.state, st)
                    self.st = st
                    c = lor(*[o.cond for o in nxt])
                if c is not TRUE:
                    cur = land(cur, c)
                    self.p.push(); pushes += 1
                    self.p.assume(c)
            done.append(Outcome('next', cur, self.st))
            return done
        finally:
            for _ in range(pushes): self.p.pop()

    def exec(self, s):
        if not s: return [Outcome('next', TRUE, self.st)]
        k = s['kind']
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(s)
        # expression statement
        self.rv_void(s)
        return [Outcome('next', TRUE, self.st)]

    def s_CompoundStmt(self, s):
        return self.exec_seq(s.get('inner', []), TRUE)

    def s_NullStmt(self, s): return [Outcome('next', TRUE, self.st)]
    def s_AttributedStmt(self, s): return self.exec(s['inner'][-1])

    def s_DeclStmt(self, s):
        for d in s['inner']:
            if d['kind'] == 'VarDecl': self.var_decl(d)
            elif d['kind'] in ('TypedefDecl', 'UsingDecl', 'UsingDirectiveDecl', 'TypeAliasDecl', 'StaticAssertDecl', 'EmptyDecl', 'UsingEnumDecl'): pass
            else: raise Unsupported('declaration ' + d['kind'])
        return [Outcome('next', TRUE, self.st)]

    def var_decl(self, d):
        qt = d['type'].get('qualType')
        dt = d['type'].get('desugaredQualType') or qt
        ini = [x for x in d.get('inner', []) if x and not x['kind'].endswith('Comment') and not x['kind'].endswith('Attr')]
        fr = self.frames[-1]
        if d.get('storageClass') == 'static' and not dt.startswith('const'):
            raise Unsupported('function-local static')
        if qt.rstrip().endswith('&') or dt.rstrip().endswith('&'):
            loc = self.lv(ini[0])
            fr['vars'][d['id']] = loc
            return
        t = strip_type(dt)
        m = re.match(r'(.*)\[(\d+)\]$', t)
        if m:
            self.arr_decl(d, m.group(1).strip(), int(m.group(2)), ini)
            return
        loc = self.alloc(None, d.get('name', 'v'))
        fr['vars'][d['id']] = loc
        if not ini:
            self.st.v[loc.root] = self.default(dt)
        else:
            self.init_at(loc, dt, ini[0])

    def arr_decl(self, d, et, n, ini):
        vals = None
        if ini:
            e = self.skip(ini[0])
            if e['kind'] != 'InitListExpr': raise Unsupported('array initialiser')
            vals = [self.coerce_ty(self.rv(x), et) for x in e.get('inner', []) if x]
            if et in SCALAR_T:
                while len(vals) < n: vals.append(const(0, SCALAR_T[et]))
        base = self.vec_junk(et, 'junk!%d' % mark())
        v = Vec(I(n), base, et)
        if vals:
            def get(i):
                r = base(i)
                for q, x in enumerate(vals): r = merge(eq(i, I(q)), x, r)
                return r
            v = Vec(I(n), get, et)
        self.frames[-1]['vars'][d['id']] = self.alloc(v, d.get('name', 'a'))

    def s_ReturnStmt(self, s):
        ini = [x for x in s.get('inner', []) if x]
        val = None
        if ini:
            if self.frames[-1].get('retref'):
                val = self.lv(ini[0])
            else:
                val = self.rv(ini[0])
                rt = norm_type(self.frames[-1]['node']['type']['qualType']).split('(')[0].strip()
                if strip_type(rt) in SCALAR_T: val = self.coerce_ty(val, rt)
        return [Outcome('ret', TRUE, self.st, val)]

    def s_BreakStmt(self, s): return [Outcome('break', TRUE, self.st)]
    def s_ContinueStmt(self, s): return [Outcome('continue', TRUE, self.st)]

    def branch(self, c, fthen, felse):
        d = self.decide(c)
        if d is True:
            return fthen()
        if d is False:
            return felse()
        st0 = self.st
        outs = []
        for cc, f in ((c, fthen), (lnot(c), felse)):
            self.st = st0.copy()
            self.p.push()
            try:
                self.p.assume(cc)
                try:
                    for o in f():
                        outs.append(Outcome(o.kind, land(cc, o.cond), o.state, o.val))
                except AssumeFalse:
                    pass
            finally:
                self.p.pop()
        return outs

    def decide(self, c):
        if c is TRUE: return True
        if c is FALSE: return False
        try:
            r = self.p.tri(c)
        except (Split, ParamSplit, Undecided):
            try: r = self.p.ctx.decide(c)
            except (Split, ParamSplit, Undecided): r = None
        return r

    def s_IfStmt(self, s):
        inner = [x for x in s['inner']]
        i = 0
        if s.get('hasInit'):
            self.exec(inner[0]); i = 1
        if s.get('hasVar'):
            self.exec(inner[i]); i += 1
        c = self.boolv(inner[i])
        th = inner[i + 1]
        el = inner[i + 2] if len(inner) > i + 2 else None
        nxt = lambda: [Outcome('next', TRUE, self.st)]
        return self.branch(c, lambda: self.exec(th), (lambda: self.exec(el)) if el else nxt)

    def s_SwitchStmt(self, s):
        inner = [x for x in s['inner'] if x]
        v = self.rv(inner[0])
        body = inner[-1]
        # flatten: list of (label or None, stmt)
        items = []

        def flat(x, labels):
            if x['kind'] == 'CaseStmt':
                lab = self.rv(x['inner'][0])
                flat(x['inner'][-1], labels + [lab])
            elif x['kind'] == 'DefaultStmt':
                flat(x['inner'][-1], labels + ['default'])
            else:
                items.append((labels, x))
        for x in body.get('inner', []): flat(x, [])
        cases = []
        for i, (labs, x) in enumerate(items):
            for l in labs: cases.append((l, i))

        def run(i):
            def f():
                outs = self.exec_seq([x for _, x in items[i:]], TRUE)
                return [Outcome('next' if o.kind == 'break' else o.kind, o.cond, o.state, o.val) for o in outs]
            return f
        default = [i for l, i in cases if l == 'default']
        labs = [(l, i) for l, i in cases if l != 'default']
        dflt = run(default[0]) if default else (lambda: [Outcome('next', TRUE, self.st)])

        def chain(n):
            if n == len(labs): return dflt()
            return self.branch(eq(v, labs[n][0]), run(labs[n][1]), lambda: chain(n + 1))
        return chain(0)

    def s_CXXTryStmt(self, s):
        # exceptions of the standard library are not modelled: the try body is executed
        return self.exec(s['inner'][0])

    def s_ForStmt(self, s):
        from .loops import exec_loop
        init, var, cond, inc, body = (s['inner'] + [None] * 5)[:5]
        if init: self.exec(init)
        return exec_loop(self, cond, inc, body)

    def s_WhileStmt(self, s):
        from .loops import exec_loop
        inner = s['inner']
        return exec_loop(self, inner[-2], None, inner[-1])

    def s_DoStmt(self, s):
        from .loops import exec_loop
        body, cond = s['inner'][0], s['inner'][1]
        outs = self.exec(body)
        if any(o.kind not in ('next',) for o in outs): raise Unsupported('do-while with jumps')
        self.st = outs[0].state
        return exec_loop(self, cond, None, body)

    def s_CXXForRangeStmt(self, s):
        from .loops import exec_range
        return exec_range(self, s)

    # ------------------------------------------------------------ expressions
    def skip(self, e):
        while e['kind'] in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr', 'SubstNonTypeTemplateParmExpr') or (
                e['kind'] in ('ImplicitCastExpr', 'CXXFunctionalCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'CXXConstCastExpr')
                and e.get('castKind') in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion')):
            e = [x for x in e['inner'] if x][0]
        return e

    def rv_void(self, e):
        e1 = self.skip(e)
        if e1['kind'] == 'ConditionalOperator' and self.is_assert(e1):
            self.do_assert(e1)
            return
        try:
            v = self.ev(e1)
            if isinstance(v, tuple) and v and v[0] == 'comma':
                pass
        except AssumeFalse:
            raise

    def is_assert(self, e):
        def find(x):
            if not x: return False
            if x.get('kind') == 'DeclRefExpr' and x.get('referencedDecl', {}).get('name') == '__assert_fail': return True
            return any(find(y) for y in x.get('inner', []))
        return find(e['inner'][2])

    def assert_text(self, e):
        out = []
        def find(x):
            if not x: return
            if x.get('kind') == 'StringLiteral': out.append(x.get('value', ''))
            for y in x.get('inner', []): find(y)
        find(e['inner'][2])
        return out[0] if out else '?'

    def do_assert(self, e):
        c = self.boolv(e['inner'][0])
        self.oblige('assert', c, 'assert(%s)' % self.assert_text(e).strip('"'))

    def boolv(self, e):
        v = self.rv(e)
        v = self.scalar(v)
        return self.to_sort(v, 'B')

    def arg(self, e):
        """('l', loc) for lvalues, else ('v', value)"""
        e1 = self.skip(e)
        if e1['kind'] == 'CXXDefaultArgExpr': return None
        if e.get('valueCategory') in ('lvalue', 'xvalue') or e1.get('valueCategory') in ('lvalue', 'xvalue'):
            try:
                r = self.ev(e1)
                if isinstance(r, (Loc, Choice)): return ('l', r)
                return ('v', r)
            except Unsupported:
                raise
        return ('v', self.rv(e))

    def lv(self, e):
        """location; temporaries are materialised"""
        r = self.ev(self.skip(e))
        if isinstance(r, (Loc, Choice)): return r
        return self.alloc(r, 'tmp')

    def rv(self, e):
        r = self.ev(e)
        if isinstance(r, (Loc, Choice)):
            if self.reads is not None: self.reads.append(r)
            r = self.read(r)
        return r

    def ev(self, e):
        k = e['kind']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('expression ' + k)
        return m(e)

    def inner1(self, e): return [x for x in e['inner'] if x][0]

    def e_ParenExpr(self, e): return self.ev(self.inner1(e))
    e_ExprWithCleanups = e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = e_ConstantExpr = e_ParenExpr
    e_SubstNonTypeTemplateParmExpr = lambda self, e: self.ev([x for x in e['inner'] if x and x['kind'] != 'NonTypeTemplateParmDecl'][-1])
    e_CXXDefaultArgExpr = e_ParenExpr
    def e_CXXDefaultInitExpr(self, e): return self.ev(self.inner1(e))

    def e_IntegerLiteral(self, e): return I(int(e['value']))
    def e_CharacterLiteral(self, e): return I(int(e['value']))
    def e_FloatingLiteral(self, e): return R(Fraction(e['value']))
    def e_CXXBoolLiteralExpr(self, e): return TRUE if e['value'] else FALSE
    def e_CXXNullPtrLiteralExpr(self, e): return NULL
    def e_GNUNullExpr(self, e): return NULL
    def e_StringLiteral(self, e): return Opaque('str', e.get('value', '"?"').strip('"'))
    def e_CXXThisExpr(self, e): return ('ptr', self.frames[-1]['this'])
    def e_CXXScalarValueInitExpr(self, e):
        return const(0, SCALAR_T[strip_type(tname(e))])
    def e_ImplicitValueInitExpr(self, e):
        return const(0, SCALAR_T[strip_type(tname(e))])

    def cast(self, e):
        ck = e.get('castKind')
        x = self.inner1(e)
        if ck in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'FunctionToPointerDecay', 'ConstructorConversion',
                  'UserDefinedConversion', 'ArrayToPointerDecay', 'LValueToRValueBitCast', 'BaseToDerived'):
            r = self.ev(x)
            return r
        if ck == 'LValueToRValue':
            return self.rv(x)
        if ck in ('IntegralCast',):
            v = self.rv(x)
            if isinstance(v, Mat): v = self.scalar(v)
            if isinstance(v, T) and v.sort == 'B': return ite(v, I1, I0)
            return v
        if ck == 'FloatingCast': return self.rv(x)
        if ck == 'IntegralToFloating': return i2r(self.to_sort(self.scalar(self.rv(x)), 'I'))
        if ck == 'FloatingToIntegral': return r2i(self.scalar(self.rv(x)))
        if ck in ('IntegralToBoolean', 'FloatingToBoolean'):
            return self.to_sort(self.scalar(self.rv(x)), 'B')
        if ck == 'PointerToBoolean':
            v = self.rv(x)
            return FALSE if v is NULL else TRUE
        if ck == 'NullToPointer': return NULL
        if ck == 'ToVoid':
            self.rv_void(x)
            return None
        raise Unsupported('cast ' + str(ck))
    e_ImplicitCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CStyleCastExpr = e_CXXConstCastExpr = cast

    def const_decl(self, d):
        """value of a namespace/class-scope constant"""
        key = d.get('mangledName') or d['id']
        if key in self.consts: return self.consts[key]
        cand = [d] + [x for x in self.prog.decl.values() if x.get('kind') == 'VarDecl' and x.get('mangledName') == d.get('mangledName')]
        for x in cand:
            ini = [y for y in x.get('inner', []) if y and not y['kind'].endswith(('Comment', 'Attr'))]
            if ini and x.get('init'):
                self.frames.append({'this': None, 'vars': {}})
                try:
                    v = self.coerce_ty(self.rv(ini[0]), x['type'].get('desugaredQualType') or x['type']['qualType'])
                finally:
                    self.frames.pop()
                loc = self.alloc(v, 'const_' + d['name'])
                self.consts[key] = loc
                self.const_roots = getattr(self, 'const_roots', {})
                self.const_roots[loc.root] = v
                return loc
        raise Unsupported('constant ' + d.get('name', '?'))

    def e_DeclRefExpr(self, e):
        rd = e['referencedDecl']
        i = rd['id']
        for fr in (self.frames[-1],):
            if i in fr['vars']: return fr['vars'][i]
        if rd['kind'] == 'EnumConstantDecl':
            return I(self.enum_value(i))
        if rd['kind'] == 'VarDecl':
            d = self.prog.decl.get(i)
            if d is not None:
                loc = self.const_decl(d)
                if loc.root not in self.st.v:
                    self.st.v[loc.root] = self.const_roots[loc.root]
                return loc
            if rd.get('name') in ('cerr', 'cout', 'clog'): return Opaque('stream')
        if rd['kind'] == 'NonTypeTemplateParmDecl':
            raise Unsupported('template parameter')
        raise Unsupported('reference to %s %s' % (rd['kind'], rd.get('name')))

    def enum_value(self, i):
        if not hasattr(self, '_enum'):
            self._enum = {}
            for d in self.prog.decl.values():
                if d.get('kind') == 'EnumDecl':
                    nxt = 0
                    for c in d.get('inner', []):
                        if c.get('kind') == 'EnumConstantDecl':
                            ini = [y for y in c.get('inner', []) if y and not y['kind'].endswith('Comment')]
                            if ini:
                                v = ini[0].get('value')
                                if v is None:
                                    v = self.rv(ini[0]).a[0]
                                nxt = int(v)
                            self._enum[c['id']] = nxt
                            nxt += 1
        if i not in self._enum: raise Unsupported('enum constant')
        return self._enum[i]

    def e_MemberExpr(self, e):
        b = self.ev(self.inner1(e))
        mid = e.get('referencedMemberDecl')
        d = self.prog.decl.get(mid)
        if d is not None and d.get('kind') == 'VarDecl':
            loc = self.const_decl(d)
            if loc.root not in self.st.v: self.st.v[loc.root] = self.const_roots[loc.root]
            return loc
        nm = e['name']
        loc = self.base_loc(b)
        loc = loc_map(loc, lambda l: l.add(('f', nm)))
        # reference members: stored as Loc
        return self.deref_member(loc)

    def deref_member(self, loc):
        if isinstance(loc, Choice):
            return Choice(loc.c, self.deref_member(loc.a), self.deref_member(loc.b))
        v = self.read(loc)
        if isinstance(v, (Loc, Choice)): return v
        return loc

    def base_loc(self, b):
        if isinstance(b, tuple) and b[0] == 'ptr': return b[1]
        if isinstance(b, (Loc, Choice)): return b
        if isinstance(b, (Struct, Mat, Vec, Opaque)): return self.alloc(b, 'tmp')
        raise Unsupported('member of %r' % (b,))

    # -- operators
    def arith(self, op, a, b, ety=None):
        if isinstance(a, (Iter,)) or isinstance(b, (Iter,)):
            return self.iter_arith(op, a, b)
        if isinstance(a, Mat) or isinstance(b, Mat):
            return self.mat_op(op, a, b)
        if op in ('==', '!=') and (a is NULL or b is NULL or isinstance(a, tuple)):
            r = TRUE if a is b else FALSE
            return r if op == '==' else lnot(r)
        a, b = self.scalar(a), self.scalar(b)
        if a.sort == 'B' and b.sort == 'B' and op in ('==', '!='):
            r = eq(a, b)
            return r if op == '==' else lnot(r)
        if a.sort == 'B': a = ite(a, I1, I0)
        if b.sort == 'B': b = ite(b, I1, I0)
        if a.sort != b.sort: a, b = lift(a, 'R'), lift(b, 'R')
        if op == '+': return add(a, b)
        if op == '-': return sub(a, b)
        if op == '*': return mul(a, b)
        if op == '/':
            if a.sort == 'I':
                self.oblige('div', ne(b, I0), 'integer divisor is not zero')
                if self.nonneg(a) and self.nonneg(b): return idiv(a, b)
                return ite(land(le(I0, a), le(I0, b)), idiv(a, b), app('tdiv', (a, b), 'I'))
            self.oblige('div', ne(b, R0), 'divisor is not zero')
            return div(a, b)
        if op == '%':
            self.oblige('div', ne(b, I0), 'modulo divisor is not zero')
            if self.nonneg(a) and self.nonneg(b): return imod(a, b)
            return ite(land(le(I0, a), le(I0, b)), imod(a, b), app('tmod', (a, b), 'I'))
        if op == '<': return lt(a, b)
        if op == '<=': return le(a, b)
        if op == '>': return lt(b, a)
        if op == '>=': return le(b, a)
        if op == '==': return eq(a, b)
        if op == '!=': return lnot(eq(a, b))
        raise Unsupported('operator ' + op)

    def nonneg(self, a):
        try:
            return self.p.prove(le(I0, a))
        except Undecided:
            return False

    def e_BinaryOperator(self, e):
        op = e['opcode']
        l, r = e['inner']
        if op == '=':
            if l.get('type', {}).get('qualType', '').rstrip().endswith('*'):
                loc = self.lv(l)
                self.write(loc, self.rv(r))
                return loc
            v = self.rv(r)
            loc = self.lv(l)
            cur = self.read(loc)
            self.write(loc, self.conv(self.scalar(v) if isinstance(cur, T) else v, cur))
            return loc
        if op == '&&' or op == '||':
            a = self.boolv(l)
            d = self.decide(a)
            if op == '&&':
                if d is False: return FALSE
                b = self.guarded(a, r)
                return land(a, b)
            if d is True: return TRUE
            b = self.guarded(lnot(a), r)
            return lor(a, b)
        if op == ',':
            self.rv_void(l)
            return self.ev(r)
        a, b = self.rv(l), self.rv(r)
        return self.arith(op, a, b)

    def guarded(self, c, e):
        """evaluate a side-effect free boolean under a path condition"""
        if c is TRUE: return self.boolv(e)
        self.p.push()
        try:
            self.p.assume(c)
            st = self.st
            v = self.boolv(e)
            return v
        finally:
            self.p.pop()

    def e_CompoundAssignOperator(self, e):
        op = e['opcode'][:-1]
        l, r = e['inner']
        v = self.rv(r)
        loc = self.lv(l)
        cur = self.read(loc)
        nv = self.arith(op, cur, self.scalar(v))
        self.write(loc, self.conv(nv, cur))
        return loc

    def e_UnaryOperator(self, e):
        op = e['opcode']
        x = self.inner1(e)
        if op == '-':
            v = self.rv(x)
            if isinstance(v, Mat): return self.mat_scale(R(-1), v)
            return neg(v)
        if op == '+': return self.rv(x)
        if op == '!': return lnot(self.boolv(x))
        if op in ('++', '--'):
            loc = self.lv(x)
            cur = self.read(loc)
            if isinstance(cur, Iter):
                nv = Iter(cur.loc, add(cur.i, I(1 if op == '++' else -1)))
            else:
                nv = add(cur, const(1 if op == '++' else -1, cur.sort))
            self.write(loc, nv)
            return cur if e.get('isPostfix') else loc
        if op == '*':
            v = self.ev(x)
            if isinstance(v, tuple) and v[0] == 'ptr': return v[1]
            if isinstance(v, (Loc, Choice)):
                w = self.read(v)
                if isinstance(w, tuple) and w[0] == 'ptr': return w[1]
                if isinstance(w, Iter): return w.loc.add(('i', w.i))
            if isinstance(v, Iter): return v.loc.add(('i', v.i))
            raise Unsupported('dereference of %r' % (v,))
        if op == '&':
            return ('ptr', self.lv(x))
        if op == '__extension__': return self.ev(x)
        raise Unsupported('unary ' + op)

    def e_ConditionalOperator(self, e):
        if self.is_assert(e):
            self.do_assert(e)
            return None
        c = self.boolv(e['inner'][0])
        d = self.decide(c)
        if d is True: return self.ev(e['inner'][1])
        if d is False: return self.ev(e['inner'][2])
        vals = []
        for cc, x in ((c, e['inner'][1]), (lnot(c), e['inner'][2])):
            self.p.push()
            try:
                self.p.assume(cc)
                vals.append(self.rv(x) if e.get('valueCategory') != 'lvalue' else self.lv(x))
            finally:
                self.p.pop()
        a, b = vals
        if isinstance(a, (Loc, Choice)): return merge(c, a, b)
        return merge(c, a, b)

    def e_ArraySubscriptExpr(self, e):
        b = self.ev(e['inner'][0])
        i = self.scalar(self.rv(e['inner'][1]))
        loc = self.base_loc(b)
        v = self.read(loc)
        if isinstance(v, tuple) and v[0] == 'ptr':
            loc = v[1]; v = self.read(loc)
        if isinstance(v, Vec):
            self.bound(i, v.n, 'array index')
            return loc.add(('i', i))
        raise Unsupported('subscript')

    def bound(self, i, n, what):
        if self.quiet: return
        self.oblige('bounds', land(le(I0, i), lt(i, n)), what + ' in range')

    # -- calls
    def callee(self, e):
        x = e['inner'][0]
        while x['kind'] in ('ImplicitCastExpr', 'ParenExpr'): x = self.inner1(x)
        return x

    def e_CallExpr(self, e):
        c = self.callee(e)
        if c['kind'] == 'DeclRefExpr':
            rd = c['referencedDecl']
            d = self.prog.decl.get(rd['id'])
            name = rd.get('name')
            if name.startswith('vc'):
                from .harness import VC
                if name in VC: return VC[name](self, e['inner'][1:], e)
            if d is not None and d.get('kind') in astload.FNK:
                return self.call_project(d, None, e['inner'][1:])
            return self.std_call(name, e['inner'][1:], e, rd)
        if c['kind'] == 'MemberExpr':      # static member through object
            d = self.prog.decl.get(c.get('referencedMemberDecl'))
            if d is not None: return self.call_project(d, None, e['inner'][1:])
        raise Unsupported('call of ' + c['kind'])

    def call_project(self, d, this, argn, args=None):
        q = self.qual(d)
        if args is None: args = [self.arg(a) for a in argn]
        h = self.contracts.get(q)
        if h is not None:
            self.used_contracts.add(q)
            return h(self, this, args)
        node = self.prog.body(d)
        if d.get('virtual') and isinstance(this, Loc):
            v = self.read(this)
            if isinstance(v, Struct) and self.find_class(v.cls) is not None:
                for c in self.find_class(v.cls).get('inner', []):       # the most derived class is the value's own
                    if c and c.get('kind') == 'CXXMethodDecl' and c['name'] == d['name'] and self.prog.body(c) is not None:
                        node = self.prog.body(c)
        if node is None:
            raise Unsupported('no body for ' + q)
        if node.get('isImplicit') or node.get('explicitlyDefaulted') or (node['name'] == 'operator=' and not self.user_body(node)):
            if node['name'] == 'operator=':
                a = args[0]
                self.write(this, a[1] if a[0] == 'v' else self.read(a[1]))
                return this
        r = self.call_body(node, this, args)
        return r

    def user_body(self, node):
        return not node.get('isImplicit')

    def e_CXXMemberCallExpr(self, e):
        m = e['inner'][0]
        while m['kind'] in ('ParenExpr', 'ImplicitCastExpr'): m = self.inner1(m)
        if m['kind'] != 'MemberExpr': raise Unsupported('member call')
        d = self.prog.decl.get(m.get('referencedMemberDecl'))
        base = self.inner1(m)
        if d is not None and d.get('kind') in astload.FNK:
            b = self.ev(base)
            if isinstance(b, tuple) and b[0] == 'ptr': this = b[1]
            elif isinstance(b, (Loc, Choice)):
                this = b
                v = self.read(b) if not isinstance(b, Choice) else None
                if m.get('isArrow') and isinstance(v, tuple) and v[0] == 'ptr': this = v[1]
            elif isinstance(b, Opaque):
                return self.opaque_call(b, d, e)
            else:
                this = self.alloc(b, 'tmp')
            if isinstance(this, Loc):
                v = self.read(this)
                if isinstance(v, Opaque): return self.opaque_call(v, d, e, this)
            if isinstance(this, Choice):
                return self.call_choice(d, this, e)
            return self.call_project(d, this, e['inner'][1:])
        return self.std_member(m['name'], base, e['inner'][1:], e, m)

    def call_choice(self, d, ch, e):
        """call through a conditional reference (const observers): evaluate on both"""
        args = [self.arg(a) for a in e['inner'][1:]]
        st0 = self.st
        res = []
        for cc, l in ((ch.c, ch.a), (lnot(ch.c), ch.b)):
            self.st = st0.copy()
            self.p.push()
            try:
                self.p.assume(cc)
                if isinstance(l, Choice):
                    e2 = dict(e)
                    v = self.call_choice(d, l, e)
                else:
                    v = self.call_project(d, l, None, args)
                res.append((v, self.st))
            finally:
                self.p.pop()
        (a, sa), (b, sb) = res
        self.st = self.merge_states(ch.c, sa, sb)
        if a is None and b is None: return None
        return merge(ch.c, a, b)

    def opaque_call(self, o, d, e, loc=None):
        nm = ('virtual:' if o.tag == 'QP' else o.tag + ':') + d['name']
        args = [self.arg(a) for a in e['inner'][1:]]
        if d['name'] == 'operator=' and loc is not None:
            self.write(loc, args[0][1] if args[0][0] == 'v' else self.read(args[0][1]))
            return loc
        h = self.contracts.get(nm)
        if h is None: raise Unsupported('call of ' + nm)
        self.used_contracts.add(nm)
        return h(self, (o, loc), args)

    def e_CXXOperatorCallExpr(self, e):
        c = self.callee(e)
        rd = c['referencedDecl']
        op = rd['name'][len('operator'):]
        d = self.prog.decl.get(rd['id'])
        argn = e['inner'][1:]
        if d is not None and d.get('kind') in astload.FNK:
            if d['kind'] == 'CXXMethodDecl':
                this = self.lv(argn[0])
                if isinstance(this, Loc) and op == '=':
                    v = self.read(this)
                    if isinstance(v, Opaque):
                        self.write(this, self.rv(argn[1]))
                        return this
                return self.call_project(d, this, argn[1:])
            return self.call_project(d, None, argn)
        return self.std_operator(op, argn, e)

    def e_CXXConstructExpr(self, e):
        t = strip_type(tname(e))
        argn = [x for x in e.get('inner', []) if x]
        if self.find_class(t) is not None:
            loc = self.alloc(None, 'obj')
            self.construct(loc, t, e['ctorType']['qualType'], [self.arg(a) for a in argn])
            return loc
        return self.std_construct(t, argn, e)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_InitListExpr(self, e):
        t = strip_type(tname(e))
        xs = [x for x in e.get('inner', []) if x]
        if t in SCALAR_T: return self.coerce_ty(self.rv(xs[0]), t) if xs else const(0, SCALAR_T[t])
        if self.find_class(t) is not None:
            raw = self.raw_struct(t)
            loc = self.alloc(raw, 'agg')
            for c, x in zip(self.fields_of(t), xs):
                self.init_at(loc.add(('f', c['name'])), c['type'].get('desugaredQualType') or c['type']['qualType'], x)
            return loc
        raise Unsupported('initialiser list of ' + t)

    def e_CXXNewExpr(self, e):
        x = [c for c in e.get('inner', []) if c]
        if e.get('isArray') or len(x) != 1: raise Unsupported('new')
        c = self.skip(x[0])
        if c['kind'] != 'CXXConstructExpr': raise Unsupported('new')
        v = self.ev(c)
        return ('ptr', v if isinstance(v, Loc) else self.alloc(v, 'heap'))

    noalias_loc = None

    def pop_noalias(self, loc):
        n, self.noalias_loc = self.noalias_loc, None
        return n is not None and n == loc

    # -------- builtins live in builtins.py
    from .builtins import (std_call, std_member, std_operator, std_construct, mat_op, mat_scale, mat_mul, mat_add,
                           assign_mat, shape, iter_arith, ref_mat, comma_init, msum_all)


def loc_map(l, f):
    if isinstance(l, Choice): return Choice(l.c, loc_map(l.a, f), loc_map(l.b, f))
    return f(l)
