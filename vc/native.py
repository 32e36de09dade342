"""Native side of the contract harnesses: the spec file compiled together with /repo's sources.

Used to replay a failed obligation on the real code and, for harnesses labelled bounded, as the bounded stand-in."""
import glob, os, re, subprocess, tempfile, time
from . import astload
from .astload import REPO, HERE, norm_type

CXX = ['g++', '-std=c++14', '-O0', '-w', '-DVC_NATIVE', '-D_GLIBCXX_ASSERTIONS', '-ftrivial-auto-var-init=pattern']


def same_code(prog):
    """vcCmp overloads over all fields of every library class, from the AST"""
    out, fwd = [], []
    seen = set()
    for f in glob.glob(HERE + '/specs/*.*'):
        seen.update(re.findall(r'^\s*struct (\w+)', open(f).read(), re.M))     # the harnesses' own types
    for name, node in prog.classes.items():
        if not re.match(r'^\w+<double>(::\w+)?$', name) and not re.match(r'^[A-Z]\w+$', name): continue
        if 'Template' in node.get('kind', '') and node['kind'] == 'ClassTemplateDecl': continue
        if name + '<double>' in prog.classes or '<' not in name and name.split('::')[0] + '<double>' in prog.classes: continue
        if not any(c and c.get('kind') == 'FieldDecl' for c in node.get('inner', [])) and not node.get('bases'): continue
        if name in seen or name.startswith(('Vc', 'vc', 'QPSolver', 'QPOases', 'QProblem')): continue
        if node['kind'] == 'CXXRecordDecl' and '<' not in name and not node.get('completeDefinition'): continue
        seen.add(name)
        body = []
        for b in node.get('bases', []):
            t = norm_type(b['type'].get('desugaredQualType') or b['type'].get('qualType'))
            if t in prog.classes: body.append('    vcCmp(n + ".base", (const %s&)a, (const %s&)b);' % (t, t))
        for c in node.get('inner', []):
            if not c or c.get('kind') != 'FieldDecl': continue
            t = c['type'].get('desugaredQualType') or c['type']['qualType']
            if t.rstrip().endswith(('&', '*')): continue
            body.append('    vcCmp(n + ".%s", a.%s, b.%s);' % (c['name'], c['name'], c['name']))
        fwd.append('  inline void vcCmp(const std::string& n, const %s& a, const %s& b);' % (name, name))
        out.append('  inline void vcCmp(const std::string& n, const %s& a, const %s& b)\n  {\n%s\n  }' % (name, name, '\n'.join(body)))
    return 'namespace MPCWalkgen {\n%s\n#include "vc_cmp.h"\n%s\n}\n' % ('\n'.join(fwd), '\n'.join(out))


def build(spec, prog, outdir):
    u = os.path.join(outdir, 'native.cpp')
    exe = os.path.join(outdir, 'native')
    with open(u, 'w') as f:
        f.write('#include "vc_pre.h"\n#define private public\n#define protected public\n')
        for s in astload.sources(): f.write('#include "%s"\n' % s)
        f.write('#include "vc.h"\n')
        f.write('#undef private\n#undef protected\n')
        f.write(same_code(prog))
        f.write('#include "%s/specs/%s"\nVC_MAIN()\n' % (HERE, spec))
    fl = [x for x in astload.FLAGS if not x.startswith(('-std', '-w'))]
    p = subprocess.run(CXX + fl + [u, '-o', exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0: return None, p.stdout.decode(errors='replace')[-3000:]
    return exe, ''


def run(exe, harness, seed, trials, timeout):
    """('PASS', n) | ('FAIL', text) | ('NONE', why)"""
    try:
        p = subprocess.run([exe, harness, str(seed), str(trials), str(int(max(1, timeout)))], stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, timeout=timeout + 60)
    except subprocess.TimeoutExpired:
        return 'NONE', 'timeout'
    o = p.stdout.decode(errors='replace')
    m = re.search(r'^FAIL %s .*' % re.escape(harness), o, re.M | re.S)
    if m: return 'FAIL', m.group(0)
    m = re.search(r'^PASS %s trials=(\d+) rejected=(\d+)' % re.escape(harness), o, re.M)
    if m: return 'PASS', int(m.group(1))
    return 'NONE', 'exit %s: %s' % (p.returncode, o[-300:])
