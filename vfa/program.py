"""The analysed program: every translation unit of /repo extracted by the clang
plugin (resolved AST with types), merged into one function/record index."""
import json
import os
import re
import subprocess
import tempfile
import shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VFA_REPO', '/repo')
PLUGIN = os.path.join(VERIF, 'build', 'libextract.so')


class Broken(Exception):
    """the analysis itself cannot run (missing anchor, extraction failed)"""


CORE = ['src/tinyfk.cpp', 'src/kinematics.cpp']
URDF = ['urdf_parser/src/pose.cpp', 'urdf_parser/src/model.cpp', 'urdf_parser/src/link.cpp', 'urdf_parser/src/joint.cpp']
XML = ['urdf_parser/tinyxml/tinystr.cpp', 'urdf_parser/tinyxml/tinyxml.cpp', 'urdf_parser/tinyxml/tinyxmlerror.cpp',
       'urdf_parser/tinyxml/tinyxmlparser.cpp']
WRAP = ['src/wrapper.cpp']


def build_plugin():
    src = os.path.join(VERIF, 'extractor', 'extract.cpp')
    if os.path.exists(PLUGIN) and os.path.getmtime(PLUGIN) >= os.path.getmtime(src):
        return
    os.makedirs(os.path.dirname(PLUGIN), exist_ok=True)
    tmp = PLUGIN + '.%d' % os.getpid()
    subprocess.check_call(['clang++-18', '-O1', '-std=c++17', '-fPIC', '-shared', '-fno-rtti',
                           '-I/usr/lib/llvm-18/include', src, '-o', tmp])
    os.rename(tmp, PLUGIN)


def flags(repo):
    return ['-std=gnu++14', '-DNDEBUG', '-include', 'cstddef', '-DEIGEN_MAX_CPP_VER=03', '-DEIGEN_NO_DEBUG',
            '-I%s/third_party' % repo, '-I%s/urdf_parser/include' % repo, '-I%s/urdf_parser/tinyxml' % repo,
            '-I%s/urdf_parser/include/urdf_parser' % repo,
            '-I/usr/include/eigen3', '-I%s/include' % repo, '-I' + repo, '-I' + os.path.join(VERIF, 'stubs')]


def sources(repo):
    """the C++ files of the four library parts (files added later to those folders are included)"""
    out = []
    for d in ('src', 'urdf_parser/src', 'urdf_parser/tinyxml'):
        p = os.path.join(repo, d)
        for f in sorted(os.listdir(p)):
            if f.endswith(('.cpp', '.cc', '.cxx')) and f not in ('main.cpp',):
                out.append(d + '/' + f)
    return out


SPEC = os.path.join(VERIF, 'spec')


def extract_one(repo, rel, out):
    spec = rel.startswith(SPEC + '/')
    cmd = ['clang++-18', '-fsyntax-only', '-w', '-fplugin=' + PLUGIN, '-Xclang', '-plugin-arg-vfx', '-Xclang', 'root=' + repo,
           '-Xclang', '-plugin-arg-vfx', '-Xclang', 'out=' + out, '-Xclang', '-plugin-arg-vfx', '-Xclang', 'root2=' + SPEC + '/',
           '-fno-access-control', '-ferror-limit=0'] + flags(repo) + [os.path.join(repo, rel)]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    errs = []
    if p.returncode != 0 and spec:
        # a reference function that no longer fits the tree is set aside, not the whole file
        for m in re.finditer(r'^(/[^:\n]*):(\d+):\d+: (?:fatal )?error: (.*)$', p.stdout, re.M):
            if m.group(1) != rel:
                raise Broken('cannot parse %s:\n%s' % (rel, p.stdout[-3000:]))
            errs.append((int(m.group(2)), m.group(3)))
    if (p.returncode != 0 and not errs) or not os.path.exists(out):
        raise Broken('cannot parse %s:\n%s' % (rel, p.stdout[-3000:]))
    with open(out) as f:
        d = json.load(f)
    d['errlines'] = errs
    return d


class TU:
    __slots__ = ('name', 'types', 'files', 'd')


class Fn:
    __slots__ = ('d', 'tu', 'id', 'q', 'n', 'params', 'body', '_hash', 'error')

    def __init__(self, d, tu):
        self.d = d
        self.tu = tu
        self.id = d['id']
        self.q = d['q']
        self.n = d['n']
        self.params = d.get('params', [])
        self.body = d.get('body')
        self.error = None

    @property
    def file(self):
        f = self.tu.files[self.d['file']]
        return f

    @property
    def line(self):
        return self.d['line']

    def where(self):
        f = self.file
        if f.startswith(REPO + '/'):
            f = f[len(REPO) + 1:]
        return '%s:%d' % (f, self.line)

    def __repr__(self):
        return '<Fn %s>' % self.id


class Program:
    def __init__(self, rels=None, repo=REPO):
        self.repo = repo
        self.tus = []
        self.fns = {}
        self.by_q = {}
        self.records = {}
        self.globals = {}
        self.rel_list = rels
        rels = rels if rels is not None else sources(repo)
        build_plugin()
        tmp = tempfile.mkdtemp(prefix='vfa_')
        try:
            with ThreadPoolExecutor(8) as ex:
                futs = [(r, ex.submit(extract_one, repo, r, os.path.join(tmp, r.replace('/', '_') + '.json'))) for r in rels]
                for r, f in futs:
                    self._add(r, f.result())
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

    def _add(self, rel, d):
        tu = TU()
        tu.name = rel
        tu.types = d['types']
        tu.files = d['files']
        tu.d = d
        self.tus.append(tu)
        for i, t in enumerate(tu.types):
            t['tu'] = tu
        for r in d['records']:
            if r['s'] not in self.records:
                r['tu'] = tu
                self.records[r['s']] = r
        for f in d['functions']:
            if f['id'] in self.fns and self.fns[f['id']].body is not None:
                continue
            fn = Fn(f, tu)
            for l, msg in d.get('errlines', ()):
                if tu.files[f['file']] == rel and f['line'] <= l <= f['lend']:
                    fn.body = None
                    fn.error = 'line %d: %s' % (l, msg)
            self.fns[f['id']] = fn
            self.by_q.setdefault(f['q'], []).append(fn)
        for g in d.get('globals', []):
            self.globals[(rel, g.get('id'))] = (g, tu)
            if g.get('q'):
                self.globals.setdefault(g['q'], (g, tu))

    # ------------------------------------------------------------------
    def get(self, q, nparams=None, pred=None, optional=False):
        c = [f for f in self.by_q.get(q, []) if f.body is not None]
        if nparams is not None:
            c = [f for f in c if len(f.params) == nparams]
        if pred:
            c = [f for f in c if pred(f)]
        if len(c) == 1:
            return c[0]
        if optional:
            return None
        raise Broken('anchor %s: %d definitions found' % (q, len(c)))

    def strip(self, t):
        """type dict without references"""
        while t['k'] in ('ref', 'rref'):
            t = t['tu'].types[t['e']]
        return t

    def rec_of(self, t):
        """record description for type dict t (None for library records)"""
        s = t['s']
        if s.startswith('const '):
            s = s[6:]
        r = self.records.get(s)
        return r

    def all_fields(self, rec):
        """[(declaring record s, field dict, tu)] including bases"""
        out = []
        for b in rec.get('bases', []):
            bt = rec['tu'].types[b['t']]
            br = self.rec_of(bt)
            if br is not None:
                out += self.all_fields(br)
        for f in rec['fields']:
            out.append((rec['s'], f, rec['tu']))
        return out

    def all_bases(self, s):
        out = [s]
        r = self.records.get(s)
        if r:
            for b in r.get('bases', []):
                bs = r['tu'].types[b['t']]['s']
                out += self.all_bases(bs)
        return out

    def fns_in(self, *rels):
        out = []
        for f in self.fns.values():
            fl = f.file
            for r in rels:
                if fl.endswith(r):
                    out.append(f)
        return out


def walk(n):
    """all nodes of a JSON tree"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if 'k' in x:
                yield x
            for key, v in x.items():
                if isinstance(v, (dict, list)) and key not in ('fn',):
                    st.append(v)
        elif isinstance(x, list):
            st.extend(x)
