#!/usr/bin/env python3
"""Developer tool: plant one bug.  seed.py SPEC.py...   (SPEC sets ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO)

Makes /verif/seeded/ID from the specification and confirms it in a scratch copy of /repo:
the patch applies, builds, passes the stable tests, and the demonstration passes without and
fails with it.  No check reads this file or its output.
"""
import json, os, shutil, subprocess, sys, tempfile
SH = '''#!/bin/bash
# cwd: the repository, after its build
set -e
H=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
g++ -std=c++14 -O0 -w -DMPC_WALKGEN_API_H -DMPC_WALKGEN_API= -I. -Iqpsolver -I/usr/include/eigen3 \\
  "$H/demo.cpp" _build/libmpc-walkgen.a -o "$D/demo"
timeout 120 "$D/demo"
'''
HEAD = '''#include <cstdio>
#include <cmath>
#include <vector>
typedef double S;
static int bad = 0;
static void near(const char* what, double got, double want, double tol = 1e-9)
{
  if (!(std::fabs(got - want) <= tol*(1 + std::fabs(want))))
  { std::printf("%s: got %.12g, expected %.12g\\n", what, got, want); bad = 1; }
}
'''
def run(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def build(repo, cm):
    r = run('cmake', '-S', cm, '-B', repo + '/_build', '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=None',
            '-DCMAKE_CXX_FLAGS=-O1 -Wno-error', env=dict(os.environ, CC='gcc', CXX='g++'))
    r2 = run('ninja', '-C', repo + '/_build')
    return r.returncode == 0 and r2.returncode == 0, r.stdout[-2000:] + r2.stdout[-3000:]
def main():
    W = '/tmp/m/seed'
    repo, cm = W + '/repo', W + '/cmake'
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    run('git', 'clone', '-q', '/repo', repo)
    shutil.copytree('/opt/vp/cmake', cm)
    f = cm + '/CMakeLists.txt'
    t = open(f).read().replace('set(REPO "/repo")', 'set(REPO "%s")' % repo)
    open(f, 'w').write(t)
    ok, out = build(repo, cm)
    assert ok, out
    for spec in sys.argv[1:]:
        ns = {}
        exec(open(spec).read(), ns)
        d = '/verif/seeded/' + ns['ID']
        os.makedirs(d, exist_ok=True)
        src = (HEAD if not ns.get('RAW') else '') + ns['DEMO'].lstrip('\n')
        open(d + '/demo.cpp', 'w').write(src)
        open(d + '/demo.sh', 'w').write(ns.get('SH', SH))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']},
                  open(d + '/meta.json', 'w'), indent=1)
        run('git', 'checkout', '-q', '--', '.', cwd=repo)
        build(repo, cm)
        r0 = run('bash', d + '/demo.sh', cwd=repo)
        for file, old, new in ns['EDITS']:
            p = repo + '/' + file
            s = open(p).read()
            assert s.count(old) == 1, (ns['ID'], file, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        open(d + '/patch.diff', 'w').write(run('git', 'diff', cwd=repo).stdout)
        ok, out = build(repo, cm)
        tests = run('ctest', '--test-dir', repo + '/_build', '-j8', '--timeout', '300')
        r1 = run('bash', d + '/demo.sh', cwd=repo)
        good = r0.returncode == 0 and ok and tests.returncode == 0 and r1.returncode != 0
        print(ns['ID'], 'GOOD' if good else 'BAD', 'clean', r0.returncode, 'build', ok, 'tests', tests.returncode, 'patched', r1.returncode)
        if not good:
            print(r0.stdout[-1500:], '' if ok else out, '' if tests.returncode == 0 else tests.stdout[-800:], r1.stdout[-500:])
            shutil.rmtree(d)
        else:
            print('   ', r1.stdout.strip().splitlines()[:2])
    shutil.rmtree(W, ignore_errors=True)
main()
