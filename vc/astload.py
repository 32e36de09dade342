"""Loads the clang AST of every library translation unit of /repo (double instantiation) and indexes it.

The program text that is verified is what clang parses from /repo/src at the moment of the run; nothing is
transcribed by hand.  All .cpp files are parsed in one unity translation unit and the class templates are
instantiated by the project's own MPC_WALKGEN_INSTANTIATE_CLASS_TEMPLATE lines, redirected to <double>."""
import glob, hashlib, json, os, pickle, re, subprocess, tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

FLAGS = ['-std=c++14', '-w', '-DMPC_WALKGEN_API_H', '-DMPC_WALKGEN_API=', '-DMPC_WALKGEN_MACRO_H',
         '-DMPC_WALKGEN_INSTANTIATE_CLASS_TEMPLATE(x)=template class x<double>',
         '-I' + REPO, '-I' + REPO + '/qpsolver', '-I/usr/include/eigen3', '-I' + REPO + '/src', '-I' + HERE + '/specs']

FNK = ('CXXMethodDecl', 'CXXConstructorDecl', 'FunctionDecl', 'CXXDestructorDecl', 'CXXConversionDecl')


def sources():
    fs = sorted(glob.glob(REPO + '/src/**/*.cpp', recursive=True))
    return [f for f in fs if not f.endswith('qpsolverfactory.cpp')]


def tree_hash():
    h = hashlib.sha256()
    for root in ('src', 'mpc-walkgen', 'qpsolver'):
        for f in sorted(glob.glob('%s/%s/**/*' % (REPO, root), recursive=True)):
            if os.path.isfile(f) and re.search(r'\.(h|hxx|hpp|cpp|in)$', f):
                h.update(f.encode())
                h.update(open(f, 'rb').read())
    for f in sorted(x for x in glob.glob(HERE + '/specs/**/*', recursive=True) if os.path.isfile(x)):
        h.update(f.encode())
        h.update(open(f, 'rb').read())
    return h.hexdigest()


class ExtractError(Exception):
    pass


def dump(specs=()):
    d = tempfile.mkdtemp(prefix='vcast')
    try:
        u = d + '/unity.cpp'
        with open(u, 'w') as f:
            for s in sources():
                f.write('#include "%s"\n' % s)
            for s in specs:
                f.write('#include "%s/specs/%s"\n' % (HERE, s))
        p = subprocess.run(['clang++'] + FLAGS + ['-fsyntax-only', '-fno-access-control', '-Xclang', '-ast-dump=json', '-Xclang',
                            '-ast-dump-filter=MPCWalkgen', u], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode != 0:
            raise ExtractError('clang: ' + p.stderr.decode()[-2000:])
        return p.stdout.decode()
    finally:
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)


def parse(s):
    d = json.JSONDecoder()
    i, n, docs = 0, len(s), []
    while i < n:
        while i < n and s[i] != '{':
            i += 1
        if i >= n:
            break
        o, i = d.raw_decode(s, i)
        docs.append(o)
    return docs


def hasbody(m):
    return any(c.get('kind') in ('CompoundStmt', 'CXXTryStmt') for c in m.get('inner', []) if c)


def norm_type(s):
    s = re.sub(r'\bMPCWalkgen::', '', s or '')
    s = re.sub(r'\bclass |\bstruct |\btypename ', '', s)
    return s.strip()


def tname(node):
    t = node.get('type', {})
    return norm_type(t.get('desugaredQualType') or t.get('qualType'))


class Program:
    """index of declarations"""

    def __init__(self, docs):
        self.decl = {}          # id -> decl node (any)
        self.bodies = {}        # mangledName -> node with body
        self.owner = {}         # decl id -> class qualified instantiation name
        self.classes = {}       # class name e.g. LIPModel<double> -> node
        self.files = {}
        for o in docs:
            self._walk(o, None)

    def _clsname(self, o, cls):
        n = o.get('name')
        if o['kind'] == 'ClassTemplateSpecializationDecl':
            args = [c for c in o.get('inner', []) if c.get('kind') == 'TemplateArgument']
            n = '%s<%s>' % (n, ', '.join(norm_type(a.get('type', {}).get('qualType', '?')) for a in args))
        elif cls:
            n = cls + '::' + (n or '?')
        return n

    def _walk(self, o, cls, dep=False):
        k = o.get('kind')
        if k is None:
            return
        i = o.get('id')
        ncls = cls
        if k in ('ClassTemplateSpecializationDecl', 'CXXRecordDecl'):
            ncls = self._clsname(o, cls)
            if o.get('completeDefinition') or any(c.get('kind') == 'FieldDecl' for c in o.get('inner', []) if c):
                self.classes.setdefault(ncls, o)
        if k.endswith('Decl'):
            if i not in self.decl or (k in FNK and hasbody(o)):
                self.decl[i] = o
            if i not in self.owner and ncls is not None:
                self.owner[i] = cls if k in ('ClassTemplateSpecializationDecl', 'CXXRecordDecl') else ncls
            if k in FNK and o.get('mangledName') and hasbody(o):
                self.bodies.setdefault(o['mangledName'], o)
        for c in o.get('inner', []):
            if c:
                self._walk(c, ncls)

    def owner_of(self, fn):
        """class instantiation that owns a method: previousDecl/parentDecl or index"""
        for i in (fn.get('parentDeclContextId'), ):
            if i and i in self.decl:
                pass
        return self.owner.get(fn['id'])

    def body(self, decl):
        """the defining node for a (possibly body-less) function declaration"""
        d = self.decl.get(decl['id'], decl)
        if hasbody(d):
            return d
        m = d.get('mangledName')
        return self.bodies.get(m)


_cache = {}


def load(specs=()):
    specs = tuple(specs)
    if specs not in _cache:
        s = None
        c = os.environ.get('VERIF_ASTCACHE')
        if c:
            p = os.path.join(c, 'ast-%s-%s.json' % ('_'.join(specs), tree_hash()[:24]))
            if os.path.exists(p):
                s = open(p).read()
        if s is None:
            s = dump(specs)
            if c:
                os.makedirs(c, exist_ok=True)
                with open(p + '.tmp%d' % os.getpid(), 'w') as f:
                    f.write(s)
                os.rename(p + '.tmp%d' % os.getpid(), p)
        _cache[specs] = Program(parse(s))
    return _cache[specs]
