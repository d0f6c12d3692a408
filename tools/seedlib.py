"""Make and confirm a planted bug: mk(...) applies it to /repo, builds, tests, runs the demo and the check, undoes it."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run with cwd /repo after the build
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -include cstddef -DEIGEN_MAX_CPP_VER=03 -Iinclude -Iurdf_parser/include -Iurdf_parser/tinyxml \\
  -I/usr/include/eigen3 "$d/demo.cpp" _build/libtinyfk.a $(find _build -name 'liburdfdom_model.a') $(find _build -name 'libtinyxml.a') -o "$t/demo" || exit 99
cd "$t" && timeout 120 ./demo
'''
PRE = '''#include "tinyfk.hpp"
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <limits>
using namespace tinyfk;
static int bad = 0;
#define CHECK(c) do { if (!(c)) { std::printf("failed line %d: %s\\n", __LINE__, #c); bad = 1; } } while (0)
static bool near(double a, double b, double e = 1e-6) { return std::fabs(a - b) <= e * (1 + std::fabs(a) + std::fabs(b)); }
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)

R = '/tmp/seedlib/r'   # scratch copy of /repo
def scratch():
    if not os.path.isdir(R):
        os.makedirs(os.path.dirname(R), exist_ok=True)
        sh('cp -a /repo %s; rm -rf %s/_build' % (R, R))
        r = sh('cd %s && CC=gcc CXX=g++ cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Release -DBUILD_TEST=ON "-DCMAKE_CXX_FLAGS_RELEASE=-O1 -DNDEBUG -include cstddef -DEIGEN_MAX_CPP_VER=03" '
               '-DBUILD_PYTHON_INTERFACE=OFF -DBENCH_KDL=OFF -DCMAKE_POLICY_VERSION_MINIMUM=3.5' % R)
        assert r.returncode == 0, r.stderr[-800:]
    sh('git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f FETCH_HEAD' % (R, R))

def build():
    return sh('ninja -C %s/_build' % R)

def tests():
    t = sh('timeout 200 ctest --test-dir %s/_build -j4 --timeout 60' % R)
    return t

def confirm(id, check=True):
    d = os.path.join(V, 'seeded', id)
    m = json.load(open(d + '/meta.json'))
    out = []
    scratch()
    assert build().returncode == 0
    r = sh('bash %s/demo.sh' % d, cwd=R)
    out.append('clean=%d' % r.returncode)
    if r.returncode: print(r.stdout[-1500:], r.stderr[-1500:])
    a = sh('git -C %s apply %s/patch.diff' % (R, d))
    assert a.returncode == 0, a.stderr
    try:
        bl = build()
        out.append('build=%d' % bl.returncode)
        if bl.returncode: print(bl.stdout[-1500:])
        t = tests()
        out.append('tests=%d' % t.returncode)
        if t.returncode: print(t.stdout[-1500:])
        r = sh('bash %s/demo.sh' % d, cwd=R)
        out.append('patched=%d' % r.returncode)
        if check:
            c = sh('VFA_REPO=%s python3 checks/run.py %s' % (R, m['property']), cwd=V)
            out.append('check=%d' % c.returncode)
            v = [l for l in c.stdout.split('\n') if l.startswith(('violated', 'UNDECIDED'))]
            out.append(' | '.join(l[:160] for l in v[:3]))
    finally:
        sh('git -C %s checkout -q -- .' % R)
    print(id, *out, flush=True)

def mk(id, prop, needs, breaks, edits, demo=None, sh_text=None, check=True, files=None):
    d = os.path.join(V, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    scratch()
    try:
        for f, a, b in edits:
            p = os.path.join(R, f)
            s = open(p).read()
            assert s.count(a) == 1, (id, f, a, s.count(a))
            open(p, 'w').write(s.replace(a, b))
        open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % R).stdout)
    finally:
        sh('git -C %s checkout -q -- .' % R)
    if demo is not None:
        open(d + '/demo.cpp', 'w').write(PRE + demo)
    for n, t in (files or {}).items():
        open(os.path.join(d, n), 'w').write(t)
    open(d + '/demo.sh', 'w').write(sh_text or DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    confirm(id, check)

if __name__ == '__main__':
    for i in sys.argv[1:] or sorted(os.listdir(os.path.join(V, 'seeded'))):
        confirm(i)
