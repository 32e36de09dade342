"""Symbolic values used by the VC generator."""
import itertools
from .terms import *


class Unsupported(Exception):
    """construct outside the verified subset"""


class Mat:
    """matrix value: symbolic dimensions, element closure"""
    __slots__ = ('rows', 'cols', 'fn', 'sort', 'memo', 'prod')

    def __init__(self, rows, cols, fn, sort='R', prod=False):
        self.rows, self.cols, self.fn, self.sort = rows, cols, fn, sort
        self.memo = {}
        self.prod = prod        # contains an unevaluated product / transpose (for aliasing obligations)

    def at(self, r, c):
        k = (r.id, c.id)
        v = self.memo.get(k)
        if v is None:
            v = self.fn(r, c)
            self.memo[k] = v
        return v

    def __repr__(self): return 'Mat(%s x %s)' % (self.rows, self.cols)


class Struct:
    __slots__ = ('cls', 'f')

    def __init__(self, cls, f):
        self.cls, self.f = cls, f

    def with_(self, name, v):
        g = dict(self.f)
        g[name] = v
        return Struct(self.cls, g)

    def __repr__(self): return 'Struct(%s)' % self.cls


class Vec:
    """std::vector / circular_buffer: symbolic length, element closure"""
    __slots__ = ('n', 'fn', 'memo', 'etype', 'proto')

    def __init__(self, n, fn, etype=None, proto=None):
        self.n, self.fn, self.etype = n, fn, etype
        self.memo = {}
        self.proto = proto      # some element: only its shape is used

    def shape(self):
        if self.proto is None: self.proto = self.at(fresh('pi'))
        return self.proto

    def at(self, i):
        v = self.memo.get(i.id)
        if v is None:
            v = self.fn(i)
            self.memo[i.id] = v
        return v

    def __repr__(self): return 'Vec(%s)' % self.n


class Loc:
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root, self.path = root, tuple(path)

    def add(self, *p): return Loc(self.root, self.path + p)
    def __eq__(self, o): return isinstance(o, Loc) and self.root == o.root and self.path == o.path
    def __hash__(self): return hash((self.root, self.path))
    def __repr__(self): return '&%s%s' % (self.root, ''.join('.%s' % (x[1] if x[0] == 'f' else str(x)) for x in self.path))


class Null:
    def __repr__(self): return 'null'


NULL = Null()


class Opaque:
    """value with identity only (QP solver object, stream, ...)"""
    __slots__ = ('tag', 'data')

    def __init__(self, tag, data=None):
        self.tag, self.data = tag, data

    def __repr__(self): return 'Opaque(%s)' % self.tag


class Iter:
    """iterator into a container location"""
    __slots__ = ('loc', 'i')

    def __init__(self, loc, i):
        self.loc, self.i = loc, i


def clamp_idx(v):
    return v


def mat_const(rows, cols, x, sort='R'): return Mat(rows, cols, lambda r, c: x, sort)


def merge(c, a, b):
    """ite(c,a,b) on values"""
    if a is b: return a
    if c is TRUE: return a
    if c is FALSE: return b
    if isinstance(a, T) and isinstance(b, T):
        return ite(c, a, b)
    if isinstance(a, Mat) and isinstance(b, Mat):
        return Mat(ite(c, a.rows, b.rows), ite(c, a.cols, b.cols), lambda r, k: ite(c, a.at(r, k), b.at(r, k)), a.sort)
    if isinstance(a, Struct) and isinstance(b, Struct) and a.cls == b.cls:
        return Struct(a.cls, {k: merge(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, Vec) and isinstance(b, Vec):
        return Vec(ite(c, a.n, b.n), lambda i: merge(c, a.at(i), b.at(i)), a.etype, a.proto if a.proto is not None else b.proto)
    if isinstance(a, Iter) and isinstance(b, Iter) and a.loc == b.loc:
        return Iter(a.loc, ite(c, a.i, b.i))
    if isinstance(a, Loc) and isinstance(b, Loc):
        if a == b: return a
        return Choice(c, a, b)
    if isinstance(a, (Loc, Choice)) and isinstance(b, (Loc, Choice)):
        return Choice(c, a, b)
    if a is None or b is None:
        return a if b is None else b
    if isinstance(a, Opaque) and isinstance(b, Opaque) and a.tag == b.tag:
        if a.data is b.data or a.tag == 'str': return a
        if isinstance(a.data, dict) and isinstance(b.data, dict) and a.data.keys() == b.data.keys():
            return Opaque(a.tag, {k: merge(c, a.data[k], b.data[k]) for k in a.data})
    raise Unsupported('cannot merge %r and %r' % (a, b))


class Choice:
    """conditional reference"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b): self.c, self.a, self.b = c, a, b
    def __repr__(self): return 'Choice(%s,%s,%s)' % (self.c, self.a, self.b)


# ------------------------------------------------------------------ flattening (used by the loop rules)
class Leaf:
    __slots__ = ('path', 'arity', 'sort', 'fn')

    def __init__(self, path, arity, sort, fn):
        self.path, self.arity, self.sort, self.fn = path, arity, sort, fn


def flatten(v, probe=None):
    """leaves of a value; fn maps a tuple of Int index terms to a term.  Template elements of containers are probed
    with a fresh index."""
    if isinstance(v, T):
        return [Leaf((), 0, v.sort, lambda ix: v)]
    if isinstance(v, Mat):
        return [Leaf(('#rows',), 0, 'I', lambda ix: v.rows), Leaf(('#cols',), 0, 'I', lambda ix: v.cols),
                Leaf(('#el',), 2, v.sort, lambda ix: v.at(*ix))]
    if isinstance(v, Struct):
        out = []
        for k in v.f:
            for l in flatten(v.f[k]):
                out.append(Leaf((k,) + l.path, l.arity, l.sort, l.fn))
        return out
    if isinstance(v, Vec):
        out = [Leaf(('#len',), 0, 'I', lambda ix: v.n)]
        memo = {}

        def leafs(i):
            r = memo.get(i.id)
            if r is None:
                r = {l.path: l for l in flatten(v.at(i))}
                memo[i.id] = r
            return r
        for l in flatten(v.shape()):
            path = l.path
            out.append(Leaf(('[]',) + path, l.arity + 1, l.sort,
                            (lambda path: lambda ix: leafs(ix[0])[path].fn(ix[1:]))(path)))
        return out
    if isinstance(v, Iter):
        return [Leaf(('#it',), 0, 'I', lambda ix: v.i)]
    if abstract(v):
        return [Leaf(('#o', k), 0, x.sort, (lambda x: lambda ix: x)(x)) for k, x in sorted(v.data.items())]
    return [Leaf(('#obj',), -1, None, lambda ix: v)]


def abstract(v):
    return isinstance(v, Opaque) and v.tag in ('Feet', 'Poly')


def unflatten(v, fns, pre=()):
    """rebuild a value shaped like v with leaves from fns: path -> function(ix)"""
    if isinstance(v, T):
        return fns[pre](())
    if isinstance(v, Mat):
        el = fns[pre + ('#el',)]
        return Mat(fns[pre + ('#rows',)](()), fns[pre + ('#cols',)](()), lambda r, c: el((r, c)), v.sort)
    if isinstance(v, Struct):
        return Struct(v.cls, {k: unflatten(v.f[k], fns, pre + (k,)) for k in v.f})
    if isinstance(v, Vec):
        tmpl = v.shape()

        pl = len(pre) + 1
        mine = [(path[pl:], f) for path, f in fns.items() if path[:pl] == pre + ('[]',)]

        def get(i):
            return unflatten(tmpl, {path: (lambda f: lambda ix: f((i,) + tuple(ix)))(f) for path, f in mine}, ())
        return Vec(fns[pre + ('#len',)](()), get, v.etype, tmpl)
    if isinstance(v, Iter):
        return Iter(v.loc, fns[pre + ('#it',)](()))
    if abstract(v):
        return Opaque(v.tag, {k: fns[pre + ('#o', k)](()) for k in v.data})
    return fns[pre + ('#obj',)](())
