"""Value-flow analysis of the resolved AST: every function is evaluated once over
value terms; control-flow joins become gated values, loops become closed forms."""
import os
from fractions import Fraction
from .terms import *
from . import terms as TM
from .values import *
from .solve import *
from .solve import INF
from . import program as PG

EXC_BASE = {
    'std::runtime_error': 'std::exception', 'std::logic_error': 'std::exception',
    'std::invalid_argument': 'std::logic_error', 'std::out_of_range': 'std::logic_error',
    'std::length_error': 'std::logic_error', 'std::domain_error': 'std::logic_error',
    'std::range_error': 'std::runtime_error', 'std::overflow_error': 'std::runtime_error',
    'std::underflow_error': 'std::runtime_error', 'std::bad_alloc': 'std::exception',
}


def float_const(v):
    """decimal meaning of a literal; recognised multiples of pi become exact"""
    import math
    if v != v or v in (math.inf, -math.inf):
        return num(mk('app', 'nan' if v != v else 'inf', sort='r')) if v != -math.inf else neg(num(mk('app', 'inf', sort='r')))
    if abs(v) > 1e-3:
        for k, p in ((v / math.pi, TM.num(TM.PI)), (v * math.pi, TM.p_inv(TM.num(TM.PI)))):
            for d in (1, 2, 3, 4, 6, 8, 180):
                r = round(k * d)
                if r != 0 and abs(r) < 1000 and abs(k * d - r) < 1e-13 * abs(r):
                    return TM.p_scale(p, Fraction(r, d))
    return const(Fraction(repr(v)))


_nid = [0]


def nid(n):
    """identity of a syntax node, the same on every run"""
    if n is None:
        return 0
    i = n.get('_id')
    if i is None:
        _nid[0] += 1
        i = n['_id'] = _nid[0]
    return i


class State:
    __slots__ = ('env', 'pc', 'lits')

    def __init__(self, env, pc=TRUE, lits=()):
        self.env = env
        self.pc = pc
        self.lits = lits

    def copy(self):
        return State(dict(self.env), self.pc, self.lits)


class Exit:
    __slots__ = ('pc', 'st', 'val', 'info')

    def __init__(self, pc, st, val=None, info=None):
        self.pc = pc
        self.st = st
        self.val = val
        self.info = info


class Frame:
    __slots__ = ('fn', 'tu', 'depth', 'bind', 'this', 'caps', 'site')


class Ctx:
    """where abrupt exits of the code being evaluated are collected"""
    __slots__ = ('ret', 'thr', 'brk', 'cnt')

    def __init__(self, ret, thr, brk=None, cnt=None):
        self.ret, self.thr, self.brk, self.cnt = ret, thr, brk, cnt

    def with_(self, **kw):
        c = Ctx(self.ret, self.thr, self.brk, self.cnt)
        for k, v in kw.items():
            setattr(c, k, v)
        return c


def assume(t, lits):
    for a, v in lits:
        if t.op != 'ite':
            break
        t = restrict(t, a, v)
    return t


def cube_lits(c):
    out = []
    while c.op == 'ite':
        a, h, l = c.args
        if l is FALSE:
            out.append((a, True))
            c = h
        elif h is FALSE:
            out.append((a, False))
            c = l
        else:
            break
    return tuple(out)


def merge_env(c, e1, e2):
    out = {}
    for k, v in e1.items():
        w = e2.get(k)
        if w is None:
            if isinstance(k, tuple):
                out[k] = vmux(c, v, init_heap(k))
            else:
                out[k] = v
        elif v is w:
            out[k] = v
        else:
            out[k] = vmux(c, v, w)
    for k, w in e2.items():
        if k not in e1:
            out[k] = vmux(c, init_heap(k), w) if isinstance(k, tuple) else w
    return out


_heap_init = {}


def init_heap(k):
    v = _heap_init.get(k)
    if v is None:
        raise Unsupported('heap field %r' % (k,))
    return v


def LOC(*a):
    return mk('loc', *a, sort='p')


def ADDR(base, path=()):
    return mk('addr', base, tuple(path), sort='p')


_ck = TM.cache()


def concrete_keys(has):
    """keys of a dictionary with finitely many constant string keys, in order, or None"""
    if has in _ck:
        return _ck[has]
    r = None
    if has.op == 'lam' and has.args[1] == ('s',):
        K = kvar(97, 's')
        body = lam_read(has, [K])
        conds = cond_support(body)
        keys, good = set(), True
        for c in conds:
            o = [x for x in c.args if x is not K] if c.op == 'eq' and K in c.args else []
            if len(o) == 1 and o[0].op == 'str':
                keys.add(o[0])
            else:
                good = False
        if good:
            rest = body
            for c in conds:
                rest = restrict(rest, c, False)
            if rest is FALSE:
                ks = [k for k in keys if lam_read(has, [k]) is TRUE]
                if all(lam_read(has, [k]) in (TRUE, FALSE) for k in keys):
                    r = sorted(ks, key=lambda k: k.args[0].encode())
    _ck[has] = r
    return r


class Interp:
    MAXDEPTH = 60
    MAXREC = 12

    def __init__(self, prog):
        self.P = prog
        self.models = {}
        self.summaries = {}
        self.lvstack = []
        self.allocated = {}
        self.track = False
        self.objtype = {}
        self.pcs = []
        self.notes = []
        self.analysed = set()
        self.callsites = 0
        self.loops = 0
        self.hints = {}
        self.trace = os.environ.get('VFA_TRACE')
        self._tyc = {}
        _heap_init.clear()
        from . import models
        models.install(self)

    # ------------------------------------------------------------------ types
    def T(self, fr, i):
        return fr.tu.types[i]

    def sub(self, t, i):
        return t['tu'].types[i]

    def deref_type(self, t):
        while t['k'] in ('ref', 'rref'):
            t = self.sub(t, t['e'])
        return t

    def targs(self, t):
        return [self.sub(t, a['t']) if 't' in a else a.get('i') for a in t.get('args', [])]

    def is_smart(self, t):
        return t['k'] == 'rec' and t.get('rec') in ('std::shared_ptr', 'std::weak_ptr', 'std::unique_ptr')

    def pointee(self, t):
        if t['k'] == 'ptr':
            return self.sub(t, t['e'])
        if self.is_smart(t):
            return self.targs(t)[0]
        return None

    def recname(self, t):
        s = t['s']
        return s[6:] if s.startswith('const ') else s

    def symval(self, t, root):
        """symbolic value of type t rooted at the term `root` (an app term without sort)"""
        t = self.deref_type(t)
        k = t['k']
        n, a = root.args[0], root.args[1:]
        if k == 'float':
            return num(TM._mkapp(n, a, 'r')) if True else None
        if k in ('int', 'uint', 'enum', 'char'):
            if n[:1] == '.' or n[:4] == 'arg:':
                if k == 'uint' and TM.nonneg_names.get(n, True):
                    TM.nonneg_names[n] = True
                elif k != 'uint':
                    TM.nonneg_names[n] = False
            return _n(TM._mkapp(n, a, 'i'))
        if k == 'bool':
            r = TM._mkapp(n, a, 'b')
            return r if r.op in ('b', 'ite') else ite_atom(mk('truth', r))
        if k == 'ptr':
            return TM._mkapp(n, a, 'p')
        if k == 'array':
            L = self._symlam(self.sub(t, t['e']), root)
            return vec(const(t.get('n', 0)), L)
        if k == 'rec':
            r = t.get('rec')
            if r in ('std::shared_ptr', 'std::weak_ptr', 'std::unique_ptr'):
                return TM._mkapp(n, a, 'p')
            if r in ('std::basic_string', 'std::string', 'std::basic_string_view'):
                return TM._mkapp(n, a, 's')
            if r in ('std::vector', 'std::deque', 'std::list', 'std::stack', 'std::queue', 'std::initializer_list'):
                return vec(_n(TM._mkapp('size', (root,), 'i')), self._symlam(self.targs(t)[0], root))
            if r == 'std::array':
                return vec(const(self.targs(t)[1]), self._symlam(self.targs(t)[0], root))
            if r in ('std::map', 'std::unordered_map'):
                kt, vt = self.targs(t)[:2]
                ks = self.keysort(kt)
                K = kvar(90, ks)
                has = lam([K], ite_atom(mk('truth', mk('app', 'has', root, kval(K), sort='b'))))
                return mdict(_n(TM._mkapp('size', (root,), 'i')), has, self._symlam(vt, root, ks))
            if r in ('std::set', 'std::unordered_set'):
                ks = self.keysort(self.targs(t)[0])
                K = kvar(90, ks)
                has = lam([K], ite_atom(mk('truth', mk('app', 'has', root, kval(K), sort='b'))))
                return mdict(_n(TM._mkapp('size', (root,), 'i')), has, lam_const((ks,), TRUE))
            if r == 'std::pair':
                at = self.targs(t)
                return struct('std::pair', [('first', self.symval(at[0], mk('app', '.first', root))),
                                            ('second', self.symval(at[1], mk('app', '.second', root)))])
            if r == 'Eigen::Matrix':
                d = self.eigen_dims(t)
                rr = const(d[0]) if d[0] >= 0 else _n(mk('app', 'rows', root, sort='i'))
                cc = const(d[1]) if d[1] >= 0 else _n(mk('app', 'cols', root, sort='i'))
                K = [kvar(90, 'i'), kvar(91, 'i')]
                return mat(rr, cc, lam(K, num(mk('app', 'at', root, kval(K[0]), kval(K[1]), sort='r'))))
            rec = self.P.rec_of(t)
            if rec is not None:
                fs = []
                for _r, f, tu in self.P.all_fields(rec):
                    fs.append((f['n'], self.symval(tu.types[f['t']], mk('app', '.' + f['n'], root))))
                return struct(rec['s'], fs)
            return TM._mkapp(n, a, 'p')
        return TM._mkapp(n, a, 'p')

    def _symlam(self, et, root, ks='i'):
        K = kvar(90, ks)
        i = 90
        while K in free_lvs(root):
            i += 1
            K = kvar(i, ks)
        return lam([K], self.symval(et, mk('app', 'at', root, kval(K))))

    def keysort(self, t):
        t = self.deref_type(t)
        if t['k'] in ('int', 'uint', 'enum', 'char', 'bool'):
            return 'i'
        if t['k'] == 'float':
            return 'r'
        if t['k'] == 'rec' and t.get('rec') == 'std::basic_string':
            return 's'
        return 'p'

    def eigen_dims(self, t):
        a = self.targs(t)
        return int(a[1]), int(a[2])

    def default(self, t, fr, st, ctx):
        """value-initialised object of type t"""
        t = self.deref_type(t)
        k = t['k']
        if k == 'float' or k in ('int', 'uint', 'enum', 'char'):
            return ZERO
        if k == 'bool':
            return FALSE
        if k in ('ptr', 'nullptr'):
            return NULL
        if k == 'array':
            return vec(const(t.get('n', 0)), lam_const(('i',), self.default(self.sub(t, t['e']), fr, st, ctx)))
        if k == 'rec':
            r = t.get('rec')
            if self.is_smart(t):
                return NULL
            if r == 'std::basic_string':
                return mk('str', '')
            if r in ('std::basic_stringstream', 'std::basic_ostringstream', 'std::basic_istringstream'):
                from .models import stream
                return stream(mk('str', ''))
            if r == 'std::locale':
                return mk('app', 'GLOBAL', sort='p')
            if r in ('std::vector', 'std::deque', 'std::list', 'std::stack', 'std::queue'):
                return self.empty_vec(self.targs(t)[0])
            if r == 'std::array':
                return vec(const(self.targs(t)[1]), lam_const(('i',), self.default(self.targs(t)[0], fr, st, ctx)))
            if r in ('std::map', 'std::unordered_map', 'std::set', 'std::unordered_set'):
                ks = self.keysort(self.targs(t)[0])
                return mdict(ZERO, lam_const((ks,), FALSE), lam_const((ks,), mk('undef')))
            if r == 'std::pair':
                a = self.targs(t)
                return struct('std::pair', [('first', self.default(a[0], fr, st, ctx)), ('second', self.default(a[1], fr, st, ctx))])
            if r == 'Eigen::Matrix':
                d = self.eigen_dims(t)
                if d[0] >= 0 and d[1] >= 0:
                    return mat(const(d[0]), const(d[1]), lam_const(('i', 'i'), mk('undef')))
                return mat(const(max(d[0], 0)), const(max(d[1], 0)), lam_const(('i', 'i'), mk('undef')))
            rec = self.P.rec_of(t)
            if rec is not None:
                ctor = self.find_ctor(rec['s'], 0)
                loc = LOC('tmp', fr.depth, 'def', rec['s'])
                st.env[loc] = self.undef_value(t)
                a = ADDR(loc)
                if ctor is not None:
                    self.call_fn(ctor, a, [], st, ctx, fr, None)
                else:
                    self.default_fields(rec, a, fr, st, ctx)
                return self.load(st, a)
        return unk('default of ' + t['s'])

    def empty_vec(self, et):
        return vec(ZERO, lam_const(('i',), mk('undef')))

    def undef_value(self, t):
        t = self.deref_type(t)
        if t['k'] == 'rec':
            rec = self.P.rec_of(t)
            if rec is not None:
                return struct(rec['s'], [(f['n'], self.undef_value(tu.types[f['t']])) for _r, f, tu in self.P.all_fields(rec)])
            if t.get('rec') == 'std::pair':
                a = self.targs(t)
                return struct('std::pair', [('first', self.undef_value(a[0])), ('second', self.undef_value(a[1]))])
            if t.get('rec') == 'Eigen::Matrix':
                return self.default(t, None, None, None)
        if t['k'] == 'array':
            return vec(const(t.get('n', 0)), lam_const(('i',), self.undef_value(self.sub(t, t['e']))))
        return mk('undef')

    def default_fields(self, rec, a, fr, st, ctx):
        for b in rec.get('bases', []):
            br = self.P.rec_of(rec['tu'].types[b['t']])
            if br is not None:
                c = self.find_ctor(br['s'], 0)
                if c is not None:
                    self.call_fn(c, a, [], st, ctx, fr, None)
                else:
                    self.default_fields(br, a, fr, st, ctx)
        for f in rec['fields']:
            t = rec['tu'].types[f['t']]
            self.init_field(rec, f, t, a, fr, st, ctx)

    def init_field(self, rec, f, t, a, fr, st, ctx):
        fa = self.field_addr(a, rec['s'], f['n'])
        if f.get('init'):
            fr2 = self.mkframe(fr, rec['tu'], a)
            v = self.rv(f['init'], st, fr2, ctx)
            self.store(st, fa, v)
        elif t['k'] == 'rec':
            c = self.find_ctor(t['s'], 0) if self.track else None
            if c is not None and c.body is not None:
                self.call_fn(c, fa, [], st, ctx, fr, None)
                return
            v = self.default(t, fr, st, ctx)
            self.store(st, fa, v)
        elif t['k'] in ('ref', 'rref'):
            pass
        else:
            self.store(st, fa, self.undef_value(t))

    def mkframe(self, fr, tu, this):
        f2 = Frame()
        f2.fn = fr.fn
        f2.tu = tu
        f2.depth = fr.depth
        f2.bind = {}
        f2.this = this
        f2.caps = {}
        f2.site = fr.site
        return f2

    def find_ctor(self, rs, nargs):
        short = rs.split('<')[0].split('::')[-1]
        for f in self.P.fns.values():
            if f.d.get('kind') == 'ctor' and f.body is not None and len(f.params) == nargs \
                    and f.d.get('recT') is not None and self.recname(f.tu.types[f.d['recT']]) == rs and not f.d.get('copy'):
                return f
        return None

    # ------------------------------------------------------------------ memory
    def field_addr(self, a, rec, name):
        if a.op == 'ite':
            c, x, y = a.args
            return mux(ite_atom(c), self.field_addr(x, rec, name), self.field_addr(y, rec, name))
        if a.op == 'addr':
            return ADDR(a.args[0], a.args[1] + (('f', rec, name),))
        return ADDR(a, (('f', rec, name),))

    def elem_addr(self, a, *keys):
        if a.op == 'ite':
            c, x, y = a.args
            return mux(ite_atom(c), self.elem_addr(x, *keys), self.elem_addr(y, *keys))
        if a.op == 'addr':
            return ADDR(a.args[0], a.args[1] + (('e',) + keys,))
        return ADDR(a, (('e',) + keys,))

    def kv_addr(self, a, key, what='v'):
        if a.op == 'ite':
            c, x, y = a.args
            return mux(ite_atom(c), self.kv_addr(x, key, what), self.kv_addr(y, key, what))
        if a.op == 'addr':
            return ADDR(a.args[0], a.args[1] + ((what, key),))
        return ADDR(a, ((what, key),))

    def heap_key(self, rec, name, hint=None):
        # fields are named by the record that declares them
        for b in self.P.all_bases(self._recs(rec)):
            r = self.P.records.get(b)
            if r and any(f['n'] == name for f in r['fields']):
                k = ('h', b, name)
                if k not in _heap_init:
                    f = [f for f in r['fields'] if f['n'] == name][0]
                    K = kvar(95, 'p')
                    _heap_init[k] = lam([K], self.symval(r['tu'].types[f['t']], mk('app', '.' + name, K)))
                return k
        raise Unsupported('field %s of %s' % (name, rec))

    def _recs(self, rec):
        if rec in self.P.records:
            return rec
        for s, r in self.P.records.items():
            if r['q'] == rec:
                return s
        return rec

    def heap(self, st, k):
        v = st.env.get(k)
        return v if v is not None else init_heap(k)

    def load(self, st, a, t=None):
        if a.op == 'ite':
            c, x, y = a.args
            return vmux(ite_atom(c), self.load(st, x, t), self.load(st, y, t))
        if a.op == 'addr':
            base, path = a.args
            if base.op == 'loc':
                v = st.env.get(base)
                if v is None:
                    return unk('uninitialised location %s' % (base,))
            elif base.op in ('str', 'ite') and base.op == 'ite':
                c, x, y = base.args
                return vmux(ite_atom(c), self.load(st, ADDR(x, path), t), self.load(st, ADDR(y, path), t))
            else:
                if path and path[0][0] == 'f':
                    k = self.heap_key(path[0][1], path[0][2])
                    v = lam_read(self.heap(st, k), [base])
                    path = path[1:]
                elif path and path[0][0] == 'e' and len(path[0]) == 2:
                    # element of an array given by pointer
                    v = self.ptr_elem(st, base, path[0][1], t)
                    path = path[1:]
                elif not path:
                    return self.load(st, base, t)
                else:
                    return unk('load')
            for s in path:
                v = self.walk(v, s)
            return v
        if t is not None:
            t = self.deref_type(t)
            rec = self.P.rec_of(t)
            if rec is not None:
                fs = []
                for r, f, tu in self.P.all_fields(rec):
                    k = self.heap_key(r, f['n'])
                    fs.append((f['n'], lam_read(self.heap(st, k), [a])))
                return struct(rec['s'], fs)
            ck = ('cell', a)
            v = st.env.get(ck)
            if v is not None:
                return v
            if a.op == 'str' and self.deref_type(t)['k'] == 'char':
                from .models import char_at
                return char_at(a, ZERO)
            return self.symval(t, mk('app', 'deref', a))
        if a.op == 'fresh':
            v = st.env.get(a)
            if v is not None:
                return v
        return unk('load through pointer')

    def ptr_elem(self, st, base, idx, t):
        return self.symval(t, mk('app', 'at', base, idx)) if t is not None else unk('array element')

    def walk(self, v, s):
        if s[0] == 'f':
            return get_field(v, s[2])
        if s[0] == 'e':
            keys = s[1:]

            def f(x):
                if x.op == 'vec':
                    return lam_read(x.args[1], keys)
                if x.op == 'mat':
                    return lam_read(x.args[2], self.mat_keys(x, keys))
                if x.op == 'undef':
                    return x
                if x.op == 'app' and x.sort == 's':
                    return num(mk('app', 'charat', x, keys[0], sort='i'))
                if len(keys) == 1 and keys[0] is ZERO:
                    return x          # a single object as an array of one
                return unk('element of ' + x.op)
            return vlift(f, v)
        if s[0] == 'v':
            return vlift(lambda x: lam_read(x.args[2], [s[1]]) if x.op == 'dict' else unk('dict'), v)
        if s[0] == 'kv':
            return struct('std::pair', [('first', s[1]), ('second', self.walk(v, ('v', s[1])))])
        return unk('path')

    def mat_keys(self, m, keys):
        if len(keys) == 2:
            return keys
        r, c = m.args[0], m.args[1]
        if c is ONE:
            return (keys[0], ZERO)
        if r is ONE:
            return (ZERO, keys[0])
        return (keys[0], ZERO)

    def store(self, st, a, v, guard=TRUE):
        if guard is FALSE:
            return
        if a.op == 'ite':
            c, x, y = a.args
            cc = ite_atom(c)
            self.store(st, x, v, b_and(guard, cc))
            self.store(st, y, v, b_and(guard, b_not(cc)))
            return
        if a.op == 'addr':
            base, path = a.args
            if base.op == 'loc':
                old = st.env.get(base)
                if not path:
                    st.env[base] = v if guard is TRUE or old is None else vmux(guard, v, old)
                    return
                if old is None:
                    old = unk('store to unknown location')
                st.env[base] = self.upd(old, path, v, guard)
                return
            if base.op == 'ite':
                self.store(st, mux(ite_atom(base.args[0]), ADDR(base.args[1], path), ADDR(base.args[2], path)), v, guard)
                return
            if not path:
                self.store(st, base, v, guard)
                return
            if path[0][0] == 'f':
                k = self.heap_key(path[0][1], path[0][2])
                H = self.heap(st, k)
                if len(path) == 1:
                    nv = v
                else:
                    nv = self.upd(lam_read(H, [base]), path[1:], v, TRUE)
                st.env[k] = lam_set(H, [base], nv, guard)
                return
            raise Unsupported('store through %s' % (show(a)[:80],))
        if v.op == 'struct':
            for n, x in v.args[1]:
                try:
                    k = self.heap_key(v.args[0], n)
                except Unsupported:
                    continue
                st.env[k] = lam_set(self.heap(st, k), [a], x, guard)
            return
        if a.op == 'unk':
            raise Unsupported('store through unknown pointer')
        ck = ('cell', a)
        if ck not in _heap_init:
            _heap_init[ck] = mk('undef')
        old = st.env.get(ck)
        st.env[ck] = v if guard is TRUE else vmux(guard, v, old if old is not None else mk('undef'))

    def upd(self, old, path, v, guard):
        if not path:
            return v if guard is TRUE else vmux(guard, v, old)
        s = path[0]
        if old.op == 'ite':
            c, x, y = old.args
            return vmux(ite_atom(c), self.upd(x, path, v, guard), self.upd(y, path, v, guard))
        if s[0] == 'f':
            return set_field(old, s[2], self.upd(get_field(old, s[2]), path[1:], v, guard))
        if s[0] == 'e':
            if old.op == 'vec':
                cur = lam_read(old.args[1], s[1:])
                return vec(old.args[0], lam_set(old.args[1], s[1:], self.upd(cur, path[1:], v, TRUE), guard))
            if old.op == 'mat':
                ks = self.mat_keys(old, s[1:])
                return mat(old.args[0], old.args[1], lam_set(old.args[2], ks, v, guard))
        if s[0] == 'v' and old.op == 'dict':
            cur = lam_read(old.args[2], [s[1]])
            return mdict(old.args[0], old.args[1], lam_set(old.args[2], [s[1]], self.upd(cur, path[1:], v, TRUE), guard))
        if s[0] == 'kv' and old.op == 'dict' and len(path) >= 2 and path[1][2] == 'second':
            return self.upd(old, (('v', s[1]),) + tuple(path[2:]), v, guard)
        return unk('store into ' + old.op)

    # ------------------------------------------------------------------ entry
    def run(self, fn, this, args, st):
        """evaluate fn; returns (value, exit state, [throw exits])"""
        fr = Frame()
        fr.fn, fr.tu, fr.depth, fr.bind, fr.this, fr.caps, fr.site = fn, fn.tu, 0, {}, None, {}, ()
        thr = []
        self.lvstack, self.pcs = [], []
        ctx = Ctx([], thr)
        v = self.call_fn(fn, this, args, st, ctx, fr, None)
        return v, st, thr

    def call_fn(self, fn, this, args, st, ctx, fr, node):
        """inline fn; args are addresses for reference parameters, values otherwise.
        Mutates st; returns the value (or address for reference results)."""
        self.callsites += 1
        if fr.depth > self.MAXDEPTH:
            raise Unsupported('call depth (recursion through %s)' % fn.q)
        x = fr
        if (fn.id, ) in [(s[0],) for s in fr.site]:
            if sum(1 for s in fr.site if s[0] == fn.id) >= self.MAXREC:
                raise Unsupported('recursion: %s' % fn.q)
        self.analysed.add(fn)
        f2 = Frame()
        f2.fn = fn
        f2.tu = fn.tu
        f2.depth = fr.depth + 1
        f2.bind = {}
        f2.this = this
        f2.caps = {}
        f2.site = fr.site + ((fn.id, nid(node)),)
        return self.exec_body(fn, f2, args, st, ctx)

    def exec_body(self, fn, f2, args, st, ctx):
        for p, a in zip(fn.params, args):
            t = self.T(f2, p['t'])
            if t['k'] in ('ref', 'rref'):
                f2.bind[p['id']] = a
            else:
                l = LOC(f2.depth, f2.tu.name, p['id'])
                st.env[l] = a
                f2.bind[p['id']] = ADDR(l)
        pc0, lits0 = st.pc, st.lits
        inner = State(st.env, TRUE, lits0)
        ret, thr = [], []
        c2 = Ctx(ret, thr)
        self.pcs.append(pc0)
        if fn.d.get('kind') == 'ctor':
            self.ctor_inits(fn, f2, inner, c2)
        end = self.exec(fn.body, inner, f2, c2)
        self.pcs.pop()
        if end is not None:
            ret.append(Exit(end.pc, end, None))
        for t in thr:
            ctx.thr.append(Exit(b_and(pc0, t.pc), t.st, t.val, t.info))
        if not ret:
            st.pc = FALSE
            st.env = inner.env
            return unk('does not return')
        acc = ret[-1]
        env, val = acc.st.env, acc.val
        pc = acc.pc
        for r in reversed(ret[:-1]):
            env = merge_env(r.pc, r.st.env, env)
            if val is not None or r.val is not None:
                val = vmux(r.pc, r.val, val) if (val is not None and r.val is not None) else (r.val or val)
            pc = b_or(r.pc, pc)
        st.env = env
        st.pc = b_and(pc0, pc)
        if pc is not TRUE:
            st.lits = lits0 + cube_lits(pc)
        else:
            st.lits = lits0
        return val if val is not None else mk('void')

    def ctor_inits(self, fn, fr, st, ctx):
        a = fr.this
        rt = fn.tu.types[fn.d['recT']]
        rec = self.P.rec_of(rt)
        inits = fn.d.get('inits', [])
        done = set()
        if any('deleg' in i and i['deleg'] for i in inits):
            for i in inits:
                if i.get('e'):
                    self.ctor_into(i['e'], a, st, fr, ctx)
            return
        for i in inits:
            if i.get('base') is not None and i.get('e') is not None:
                self.ctor_into(i['e'], a, st, fr, ctx)
        named = {}
        for i in inits:
            if i.get('m') is not None:
                named[i['m']] = i
        if rec is None:
            return
        for f in rec['fields']:
            t = rec['tu'].types[f['t']]
            i = named.get(f['n'])
            if i is not None and i.get('e') is not None:
                if t['k'] in ('ref', 'rref'):
                    continue
                if self.track and t['k'] == 'rec':
                    self.ctor_into(i['e'], self.field_addr(a, rec['s'], f['n']), st, fr, ctx)
                    continue
                v = self.rv(i['e'], st, fr, ctx)
                self.store(st, self.field_addr(a, rec['s'], f['n']), v)
            else:
                self.init_field(rec, f, t, a, fr, st, ctx)

    def ctor_into(self, e, a, st, fr, ctx):
        """run constructor expression e on the object at address a"""
        while e['k'] == 'Cast':
            e = e['c'][0]
        if e['k'] == 'Ctor':
            fn = self.P.fns.get(e['fn']['id'])
            if fn is not None and fn.body is not None and not e['fn'].get('defaulted'):
                args = self.eval_args(e['args'], fn, st, fr, ctx)
                self.call_fn(fn, a, args, st, ctx, fr, e)
                return
        v = self.rv(e, st, fr, ctx)
        self.store(st, a, v)

    # ------------------------------------------------------------------ statements
    def exec(self, s, st, fr, ctx):
        if s is None or st is None:
            return st
        k = s['k']
        m = getattr(self, 's_' + k, None)
        if m is None:
            raise Unsupported('statement %s at %s' % (k, self.where(s, fr)))
        r = m(s, st, fr, ctx)
        if r is not None and r.pc is FALSE:
            return None
        return r

    def where(self, n, fr):
        f = fr.tu.files[n['f']] if 'f' in n else fr.fn.file
        f = f.replace(self.P.repo + '/', '')
        return '%s:%s' % (f, n.get('l', '?'))

    def s_Expr(self, s, st, fr, ctx):
        self.ev(s['e'], st, fr, ctx)
        return st

    def s_Null(self, s, st, fr, ctx):
        return st

    def s_Block(self, s, st, fr, ctx):
        for c in s['c']:
            st = self.exec(c, st, fr, ctx)
            if st is None:
                return None
        return st

    def s_Label(self, s, st, fr, ctx):
        return self.exec(s['body'], st, fr, ctx)

    def s_Decl(self, s, st, fr, ctx):
        for v in s['c']:
            if v.get('k') == 'Var':
                self.decl(v, st, fr, ctx)
                if st.pc is FALSE:
                    return None
        return st

    def decl(self, v, st, fr, ctx):
        t = self.T(fr, v['t'])
        if v.get('static'):
            if not self.const_type(t):
                raise Unsupported('static local %s at %s' % (v['n'], self.where(v, fr)))
        if t['k'] in ('ref', 'rref'):
            a = self.ev(v['init'], st, fr, ctx)
            if not self.is_gl(v['init']):
                l = LOC(fr.depth, fr.tu.name, v['id'])
                st.env[l] = a
                a = ADDR(l)
            fr.bind[v['id']] = a
        else:
            l = LOC(fr.depth, fr.tu.name, v['id'])
            fr.bind[v['id']] = ADDR(l)
            if v.get('init') is not None:
                st.env[l] = self.rv(v['init'], st, fr, ctx)
            else:
                st.env[l] = self.undef_value(t)
        if v.get('bindings'):
            base = fr.bind[v['id']]
            self.bind_parts(v, base, t, st, fr)

    def bind_parts(self, v, base, t, st, fr):
        t = self.deref_type(t)
        if t.get('rec') == 'std::pair':
            for b, n in zip(v['bindings'], ('first', 'second')):
                fr.bind[b['id']] = self.field_addr(base, 'std::pair', n)
        else:
            rec = self.P.rec_of(t)
            if rec is None:
                raise Unsupported('structured binding')
            for b, f in zip(v['bindings'], rec['fields']):
                fr.bind[b['id']] = self.field_addr(base, rec['s'], f['n'])

    def const_type(self, t):
        return bool(t.get('const')) or t['s'].startswith('const ')

    def fork(self, st, c):
        """state under condition c (already simplified)"""
        s = State(dict(st.env), b_and(st.pc, c), st.lits + cube_lits(c))
        return s

    def merge(self, c, s1, s2, lits):
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        return State(merge_env(c, s1.env, s2.env), b_or(s1.pc, s2.pc), lits)

    def s_If(self, s, st, fr, ctx):
        if s.get('init'):
            st = self.exec(s['init'], st, fr, ctx)
        if s.get('cvar'):
            self.decl(s['cvar'], st, fr, ctx)
        c = self.cond(s['cond'], st, fr, ctx)
        if st.pc is FALSE:
            return None
        if c is TRUE:
            return self.exec(s['then'], st, fr, ctx)
        if c is FALSE:
            return self.exec(s['else'], st, fr, ctx)
        lits = st.lits
        s1 = self.exec(s['then'], self.fork(st, c), fr, ctx)
        s2 = self.exec(s['else'], self.fork(st, b_not(c)), fr, ctx)
        return self.merge(c, s1, s2, lits)

    def cond(self, e, st, fr, ctx):
        v = self.rv(e, st, fr, ctx)
        v = to_bool(v) if v.op not in ('b', 'ite') or not self.is_bool(v) else v
        return assume(v, st.lits)

    def is_bool(self, v):
        while v.op == 'ite':
            v = v.args[1]
        return v.op == 'b'

    def s_Return(self, s, st, fr, ctx):
        v = None
        if s.get('e') is not None:
            rt = fr.tu.types[fr.fn.d['rt']]
            if rt['k'] in ('ref', 'rref'):
                v = self.ev(s['e'], st, fr, ctx)
            elif rt['k'] == 'void':
                self.ev(s['e'], st, fr, ctx)
            else:
                v = self.rv(s['e'], st, fr, ctx)
                v = self.norm_value(v, st)
        if st.pc is FALSE:
            return None
        ctx.ret.append(Exit(st.pc, st, v))
        return None

    def norm_value(self, v, st):
        """materialise matrix views"""
        if v.op == 'blk':
            return self.as_mat(v, st)
        return v

    def s_Break(self, s, st, fr, ctx):
        ctx.brk.append(Exit(st.pc, st))
        return None

    def s_Continue(self, s, st, fr, ctx):
        ctx.cnt.append(Exit(st.pc, st))
        return None

    def s_Try(self, s, st, fr, ctx):
        thr = []
        lits = st.lits
        end = self.exec(s['body'], State(dict(st.env), st.pc, st.lits), fr, ctx.with_(thr=thr))
        outs = []
        if end is not None:
            outs.append((end.pc, end))
        for t in thr:
            h = self.find_handler(s, t, fr) if not (isinstance(t.info, str) and t.info.startswith('vf::')) else None
            if h is None:
                ctx.thr.append(t)
                continue
            hs = State(dict(t.st.env), t.pc, lits + cube_lits(t.pc))
            if h.get('var'):
                v = h['var']
                l = LOC(fr.depth, fr.tu.name, v['id'])
                fr.bind[v['id']] = ADDR(l)
                hs.env[l] = t.val if t.val is not None else unk('exception')
            # rethrow support
            prev = getattr(self, '_cur_exc', None)
            self._cur_exc = t
            r = self.exec(h['body'], hs, fr, ctx)
            self._cur_exc = prev
            if r is not None:
                outs.append((t.pc, r))
        if not outs:
            return None
        pc, acc = outs[-1]
        env, tot = acc.env, acc.pc
        for pc, r in reversed(outs[:-1]):
            env = merge_env(r.pc, r.env, env)
            tot = b_or(r.pc, tot)
        return State(env, tot, lits if len(outs) > 1 else acc.lits)

    def find_handler(self, s, t, fr):
        for h in s['handlers']:
            if h.get('all'):
                return h
            ct = self.deref_type(self.T(fr, h['ct'])) if 'ct' in h else self.deref_type(self.T(fr, h['var']['t']))
            if self.exc_is(t.info, self.recname(ct)):
                return h
        return None

    def exc_is(self, s, base):
        seen = set()
        while s and s not in seen:
            seen.add(s)
            if s == base:
                return True
            r = self.P.records.get(s)
            if r and r['bases']:
                s = self.recname(r['tu'].types[r['bases'][0]['t']])
            else:
                s = EXC_BASE.get(s, 'std::exception' if s != 'std::exception' and s.startswith('std::') else None)
        return False

    def s_Switch(self, s, st, fr, ctx):
        if s.get('init'):
            st = self.exec(s['init'], st, fr, ctx)
        v = self.rv(s['cond'], st, fr, ctx)
        v = assume(v, st.lits)
        body = s['body']
        items = body['c'] if body['k'] == 'Block' else [body]
        flat = []      # (labels, stmt)
        for x in items:
            labs = []
            while x['k'] in ('Case', 'Default'):
                labs.append(None if x['k'] == 'Default' else x.get('v'))
                x = x['body']
                if x is None:
                    break
            flat.append((labs, x))
        allv = [l for labs, _ in flat for l in labs if l is not None]
        dflt = TRUE
        conds = {}
        for a in allv:
            conds[a] = assume(eqn(v, const(a)), st.lits)
            dflt = b_and(dflt, b_not(conds[a]))
        brk = []
        cur = None
        lits = st.lits
        handled_default = False
        for labs, x in flat:
            if labs:
                c = FALSE
                for l in labs:
                    if l is None:
                        handled_default = True
                        c = b_or(c, dflt)
                    else:
                        c = b_or(c, conds[l])
                if c is not FALSE:
                    ent = self.fork(st, c)
                    cur = ent if cur is None else self.merge(ent.pc, ent, cur, lits)
            if cur is not None and x is not None:
                cur = self.exec(x, cur, fr, ctx.with_(brk=brk))
        outs = list(brk)
        if cur is not None:
            outs.append(Exit(cur.pc, cur))
        if not handled_default and dflt is not FALSE:
            d = self.fork(st, dflt)
            outs.append(Exit(d.pc, d))
        if not outs:
            return None
        acc = outs[-1].st
        for o in reversed(outs[:-1]):
            acc = self.merge(o.pc, o.st, acc, lits)
        return acc

    # ------------------------------------------------------------------ loops
    def s_For(self, s, st, fr, ctx):
        if s.get('init'):
            st = self.exec(s['init'], st, fr, ctx)
            if st is None:
                return None
        return self.loop(s, st, fr, ctx, cond=s.get('cond'), inc=s.get('inc'), body=s['body'])

    def s_While(self, s, st, fr, ctx):
        return self.loop(s, st, fr, ctx, cond=s.get('cond'), inc=None, body=s['body'])

    def s_Do(self, s, st, fr, ctx):
        # first pass, then a while loop
        brk, cnt = [], []
        c2 = ctx.with_(brk=brk, cnt=cnt)
        r = self.exec(s['body'], st, fr, c2)
        outs = cnt + ([Exit(r.pc, r)] if r is not None else [])
        lits = st.lits
        res = None
        if outs:
            acc = outs[-1].st
            for o in reversed(outs[:-1]):
                acc = self.merge(o.pc, o.st, acc, lits)
            res = self.loop(s, acc, fr, ctx, cond=s['cond'], inc=None, body=s['body'])
        for b in brk:
            res = b.st if res is None else self.merge(b.pc, b.st, res, lits)
        return res

    def s_RangeFor(self, s, st, fr, ctx):
        r = s['range']
        a = self.ev(r, st, fr, ctx)
        if not self.is_gl(r):
            l = LOC(fr.depth, fr.tu.name, ('range', id(s)))
            st.env[l] = a
            a = ADDR(l)
        cont = self.load(st, a, self.T(fr, r['t']))
        if cont.op == 'ite':
            c, x, y = cont.args
        v = s['var']
        vt = self.T(fr, v['t'])

        def size(x):
            if x.op == 'vec':
                return x.args[0]
            if x.op == 'dict':
                return x.args[0]
            if x.op == 'list':
                return const(len(x.args))
            return unk('range')
        N = vlift(size, cont)
        kind = cont.op
        if kind == 'ite':
            z = cont
            while z.op == 'ite':
                z = z.args[1]
            kind = z.op

        def bindvar(st2, jv):
            if kind == 'vec':
                ea = self.elem_addr(a, jv)
            elif kind == 'dict':
                d = self.load(st2, a, self.T(fr, r['t']))
                key = self.dict_key(d, jv)
                ea = self.kv_addr(a, key, 'kv')
            else:
                raise Unsupported('range-for over %s at %s' % (kind, self.where(s, fr)))
            if vt['k'] in ('ref', 'rref'):
                # const auto& x : vector<bool> binds a temporary
                fr.bind[v['id']] = ea
            else:
                l = LOC(fr.depth, fr.tu.name, v['id'])
                fr.bind[v['id']] = ADDR(l)
                st2.env[l] = self.load(st2, ea, vt)
            if s.get('bindings'):
                self.bind_parts(s, fr.bind[v['id']], vt, st2, fr)
        return self.loop(s, st, fr, ctx, cond=None, inc=None, body=s['body'], count=N, bindvar=bindvar)

    def dict_key(self, d, jv):
        """key at position jv of an (ordered) dictionary"""
        def f(x):
            has = x.args[1]
            ks = concrete_keys(has) if is_const(num(jv)) else None
            if ks is not None and 0 <= const_val(num(jv)) < len(ks):
                return ks[int(const_val(num(jv)))]
            srt = has.args[1][0] if has.op == 'lam' else 's'
            t = TM._mkapp('keyat', (has, num(jv)), srt)
            return t
        return vlift(f, d)

    def loop(self, s, st, fr, ctx, cond, inc, body, count=None, bindvar=None):
        self.loops += 1
        if count is not None and count.op == 'poly':
            cv = const_val(count)
            if cv is not None and cv <= 16:
                return self.unroll(s, st, fr, ctx, body, int(cv), bindvar)
        # tiny constant-trip loops (component loops) are expanded
        if cond is not None and count is None:
            r = self.try_unroll(s, st, fr, ctx, cond, inc, body)
            if r is not None:
                return r[0]
            if self.track:
                r = self.guarded_unroll(s, st, fr, ctx, cond, inc, body)
                if r is not None:
                    return r[0]
        v = new_lv()
        if count is not None and count.op == 'poly':
            TM._lvN[v] = count
        jv = num(v)
        entry = st
        phis = {}          # (key, leaf index) -> (phi, keys, sort)
        skels = {}         # key -> (skeleton, leaves)
        hints = {}
        for rnd in range(12):
            env = dict(entry.env)
            used = {}
            for key in set(k for k, _i in phis):
                sk, leaves = skels[key]

                def leafval(i, key=key, leaves=leaves):
                    p = phis.get((key, i))
                    if p is None:
                        return leaves[i][1]
                    return rdval(p[0], leaves[i][0], p[2])
                env[key] = rebuild_value(sk, leafval)
            st2 = State(env, TRUE, entry.lits)
            self.lvstack.append(jv)
            exits = self.loop_pass(s, st2, fr, ctx, cond, inc, body, count, bindvar, jv)
            self.lvstack.pop()
            end, cexit, brk, ret, thr, headcond = exits
            changed = False
            # which leaves may change?
            cands = [x for x in [end] if x is not None]
            nexts = {}
            for stx in cands:
                for key, val in stx.env.items():
                    base = entry.env.get(key)
                    if base is None:
                        if isinstance(key, tuple):
                            base = init_heap(key)
                        else:
                            continue
                    if val is env.get(key, base) and key not in skels:
                        continue
                    if val is base and key not in skels:
                        continue
                    if key not in skels:
                        src = base
                        sk, leaves = open_value(base, mk('tup', jv, val))
                        lv = match_leaves(sk, val)
                        if lv is None:
                            sk, leaves = open_value(val, mk('tup', jv, base))
                            leaves = [(ks, mk('undef')) for ks, _t in leaves] if base.op == 'undef' or base.op not in STRUCTURED \
                                else [(ks, unk('shape change in loop')) for ks, _t in leaves]
                        skels[key] = (sk, leaves)
                    sk, leaves = skels[key]
                    lv = match_leaves(sk, val)
                    if lv is None:
                        raise Unsupported('value changes shape in the loop at %s' % self.where(s, fr))
                    for i, (ks, t0) in enumerate(leaves):
                        t1 = lv[i]
                        p = phis.get((key, i))
                        if p is None:
                            if t1 is not t0:
                                srt = hints.get((key, i)) or self._leafsort(t0, t1)
                                ph = mk('phi', ('L', v.args[0], len(phis)), srt)
                                phis[(key, i)] = (ph, ks, srt)
                                changed = True
                        else:
                            srt = leaf_sort(t1)
                            if p[2] == 'i' and srt == 'r' or (p[2] == 'p' and srt in ('i', 'r', 'b', 's')):
                                ph = mk('phi', ('L', v.args[0], len(phis), rnd), srt)
                                phis[(key, i)] = (ph, ks, srt)
                                changed = True
                            nexts[(key, i)] = t1
            if not changed:
                break
        else:
            raise Unsupported('loop does not stabilise at %s' % self.where(s, fr))
        # --- closed forms
        sols = self.solve_loop(phis, skels, nexts if end is not None else {}, v, jv)
        mp = {}
        for (key, i), (ph, ks, srt) in phis.items():
            mp[ph] = (ks, sols[(key, i)])

        def close_(t):
            return subst(t, mp) if mp else t
        # --- trip count
        hc = close_(headcond) if headcond is not None else None
        lits = entry.lits
        if count is not None:
            N = count
        elif hc is None or hc is TRUE:
            N = INF
        else:
            N = self.trip(b_not(hc), v)
        nb = TRUE
        X = FALSE
        allex = [('b', e) for e in brk] + [('r', e) for e in ret] + [('t', e) for e in thr]
        for _k, e in allex:
            X = b_or(X, close_(e.pc))
        bound = N if (N.op == 'poly') else None
        v2 = new_lv(bound)
        X2 = subst(X, {v: num(v2)})
        if N is INF:
            some = TRUE if X is not FALSE else FALSE
            at = self.first_inf(v2, X2)
        else:
            some = exists(v2, N, X2)
            at = first(v2, N, X2) if some is not FALSE else None
        outs = []
        res = None
        if some is not TRUE and N is not INF:
            envx = self.close_env(cexit.env if cexit is not None else env, entry, mp, {v: N if N.op != 'ite' else N})
            g = b_not(some)
            res = State(envx, b_and(entry.pc, g), lits + cube_lits(g))
        if some is not FALSE:
            known = cube_lits(some)
            # facts at the exit iteration: 0 <= at < N, X(at)
            for kind, e in allex:
                g = subst(close_(e.pc), {v: at})
                g = b_and(some, g) if len(allex) > 1 or some is not TRUE else some
                if len(allex) == 1:
                    g = some
                elif kind == allex[-1][0] and e is allex[-1][1]:
                    # the last alternative: whatever the others leave
                    pass
                if g is FALSE:
                    continue
                pc = b_and(entry.pc, g)
                envx = self.close_env(e.st.env, entry, mp, {v: at})
                sx = State(envx, pc, lits + cube_lits(g))
                val = None
                if e.val is not None:
                    val = subst(close_(e.val), {v: at})
                if kind == 'b':
                    res = sx if res is None else self.merge(g, sx, res, lits)
                elif kind == 'r':
                    ctx.ret.append(Exit(pc, sx, val))
                else:
                    ctx.thr.append(Exit(pc, sx, val, e.info))
        return res

    def _leafsort(self, t0, t1):
        a, b = leaf_sort(t0), leaf_sort(t1)
        if t0.op == 'undef':
            return b
        if 'r' in (a, b):
            return 'r'
        return a if a != 'p' else b

    def close_env(self, env, entry, mp, vm):
        out = {}
        for k, val in env.items():
            base = entry.env.get(k)
            if base is None and not isinstance(k, tuple):
                continue           # local to the body
            if val is base:
                out[k] = val
                continue
            x = subst(val, mp) if mp else val
            out[k] = subst(x, vm)
        for k, val in entry.env.items():
            if k not in out:
                out[k] = val
        return out

    def loop_pass(self, s, st, fr, ctx, cond, inc, body, count, bindvar, jv):
        brk, cnt, ret, thr = [], [], [], []
        c2 = Ctx(ret, thr, brk, cnt)
        hc = None
        if s.get('cvar') and s['k'] in ('While', 'For'):
            self.decl(s['cvar'], st, fr, c2)
        if cond is not None:
            hc = self.cond(cond, st, fr, c2)
            if st.pc is FALSE:
                return None, None, brk, ret, thr, hc
            cexit = st.copy()
            if hc is FALSE:
                return None, cexit, brk, ret, thr, hc
            b = self.fork(st, hc)
            b.pc = TRUE if st.pc is TRUE else st.pc
        else:
            cexit = st.copy()
            b = State(dict(st.env), st.pc, st.lits)
        if bindvar is not None:
            bindvar(b, jv)
        e = self.exec(body, b, fr, c2)
        outs = cnt + ([Exit(e.pc, e)] if e is not None else [])
        end = None
        if outs:
            acc = outs[-1].st
            for o in reversed(outs[:-1]):
                acc = self.merge(o.pc, o.st, acc, st.lits)
            end = acc
            if inc is not None:
                self.ev(inc, end, fr, c2)
        return end, cexit, brk, ret, thr, hc

    def unroll(self, s, st, fr, ctx, body, n, bindvar):
        brk = []
        lits = st.lits
        for i in range(n):
            cnt = []
            bindvar(st, const(i))
            self.lvstack.append(const(i))
            e = self.exec(body, st, fr, ctx.with_(brk=brk, cnt=cnt))
            self.lvstack.pop()
            outs = cnt + ([Exit(e.pc, e)] if e is not None else [])
            if not outs:
                st = None
                break
            acc = outs[-1].st
            for o in reversed(outs[:-1]):
                acc = self.merge(o.pc, o.st, acc, lits)
            st = acc
        for b in brk:
            st = b.st if st is None else self.merge(b.pc, b.st, st, lits)
        return st

    def try_unroll(self, s, st, fr, ctx, cond, inc, body):
        """expand loops whose condition is decided in every round (at most 16 rounds)"""
        probe = st.copy()
        saved = self._save()
        try:
            c = self.cond(cond, probe, fr, Ctx([], [], [], []))
        except Unsupported:
            return None
        if c is not TRUE and c is not FALSE:
            return None
        if c is FALSE:
            # no iteration at all
            self.cond(cond, st, fr, ctx)
            return (st,)
        brk = []
        lits = st.lits
        cur = st.copy()
        rets, thrs = [], []
        c2 = ctx.with_(ret=rets, thr=thrs, brk=brk)
        for i in range(17):
            c = self.cond(cond, cur, fr, c2)
            if c is FALSE:
                break
            if c is not TRUE or i == 16:
                return None
            cnt = []
            self.lvstack.append(const(i))
            e = self.exec(body, cur, fr, c2.with_(cnt=cnt))
            self.lvstack.pop()
            outs = cnt + ([Exit(e.pc, e)] if e is not None else [])
            if not outs:
                cur = None
                break
            acc = outs[-1].st
            for o in reversed(outs[:-1]):
                acc = self.merge(o.pc, o.st, acc, lits)
            cur = acc
            if inc is not None:
                self.ev(inc, cur, fr, c2)
        ctx.ret.extend(rets)
        ctx.thr.extend(thrs)
        for b in brk:
            cur = b.st if cur is None else self.merge(b.pc, b.st, cur, lits)
        return (cur,)

    def guarded_unroll(self, s, st, fr, ctx, cond, inc, body):
        """expand a loop over a finite structure: rounds happen under the conditions met so far (at most 12)"""
        lits = st.lits
        cur = st.copy()
        brk, rets, thrs = [], [], []
        c2 = ctx.with_(ret=rets, thr=thrs, brk=brk)
        for i in range(13):
            c = self.cond(cond, cur, fr, c2)
            if cur.pc is FALSE:
                cur = None
                break
            out = self.fork(cur, b_not(c))
            if out.pc is not FALSE:
                brk.append(Exit(out.pc, out))
            cur = self.fork(cur, c)
            if cur.pc is FALSE:
                cur = None
                break
            if i == 12:
                return None
            cnt = []
            self.lvstack.append(const(i))
            e = self.exec(body, cur, fr, c2.with_(cnt=cnt))
            self.lvstack.pop()
            outs = cnt + ([Exit(e.pc, e)] if e is not None else [])
            if not outs:
                cur = None
                break
            acc = outs[-1].st
            for o in reversed(outs[:-1]):
                acc = self.merge(o.pc, o.st, acc, lits)
            cur = acc
            if inc is not None:
                self.ev(inc, cur, fr, c2)
        ctx.ret.extend(rets)
        ctx.thr.extend(thrs)
        for b in brk:
            cur = b.st if cur is None else self.merge(b.pc, b.st, cur, lits)
        return (cur,)

    def _save(self):
        return None

    def trip(self, X, v):
        """number of rounds before X(v) first holds"""
        if X is TRUE:
            return ZERO
        if X is FALSE:
            return INF
        if X.op == 'ite' and X.args[1].op == 'b' and X.args[2].op == 'b':
            c = X.args[0]
            pos = X.args[1] is TRUE
            if c.op in ('eq0', 'lt0'):
                r = lin_coef(c.args[0], v)
                if r is not None:
                    co, rest = r
                    k = const_val(co)
                    if k is not None and v not in free_lvs(rest):
                        if c.op == 'eq0' and pos:
                            # rest + k v == 0
                            n = p_scale(rest, -1 / k) if abs(k) == 1 else idiv(p_scale(rest, -1 if k > 0 else 1), const(abs(k)))
                            return n
                        if c.op == 'lt0':
                            # X: rest + k v < 0 (pos) or >= 0 (not pos)
                            if not pos and k > 0:
                                # first v with k v >= -rest : ceil(-rest / k), at least 0
                                n = p_neg(rest) if k == 1 else self._ceil(p_neg(rest), k)
                                return self._max0(n)
                            if pos and k < 0:
                                # first v with rest - |k| v < 0 : floor(rest/|k|)+1
                                n = p_add(rest, ONE) if k == -1 else add(idiv(rest, const(-k)), ONE)
                                return self._max0(n)
        # conjunction/disjunction with one v-dependent condition: hoist the others
        for c in sorted(cond_support(X), key=lambda c: c.id):
            if v not in free_lvs(c):
                a = self.trip(restrict(X, c, True), v)
                b = self.trip(restrict(X, c, False), v)
                if a is INF or b is INF:
                    break
                return mux(ite_atom(c), a, b)
        # disjunction with a bounded disjunct: the bound limits the rest
        for c in sorted(cond_support(X), key=lambda c: c.id):
            if c.op in ('eq0', 'lt0') and v in free_lvs(c):
                for val in (True, False):
                    if restrict(X, c, val) is TRUE:
                        lit = ite_atom(c) if val else b_not(ite_atom(c))
                        n = self.trip(lit, v) if lit is not X else INF
                        if n is not INF and n.op in ('poly', 'ite') and v not in free_lvs(n):
                            v2 = new_lv(n if n.op == 'poly' else None)
                            rest = restrict(X, c, not val)
                            return first(v2, n, subst(rest, {v: num(v2)}))
        return self.first_inf(v, X)

    def _ceil(self, p, k):
        return idiv(p_add(p, const(k - 1)), const(k))

    def _max0(self, n):
        if n.op != 'poly':
            return n
        neg = TM.atom_lt(n)
        return mux(neg, ZERO, n)

    def first_inf(self, v, X):
        if X is TRUE:
            return ZERO
        h, b = close(v, X)
        return num(mk('first', INF, h, b, sort='i'))

    def solve_loop(self, phis, skels, nexts, v, jv):
        sols = {}
        todo = {}
        for pk, (ph, ks, srt) in phis.items():
            key, i = pk
            init = skels[key][1][i][1]
            e = nexts.get(pk)
            if e is None:
                e = rdval(ph, ks, srt)
            todo[pk] = (ph, ks, srt, e, init)
        progress = True
        while todo and progress:
            progress = False
            for pk in list(todo):
                ph, ks, srt, e, init = todo[pk]
                oth = [p for p in phis_in(e) if p is not ph and any(p is q[0] for q in todo.values())]
                if oth:
                    # an unconditional self-copy is invariant whatever else is unsolved
                    if e is not rdval(ph, ks, srt):
                        continue
                if init.op == 'undef' and not has_phi(e, ph):
                    pass
                sol = solve_cell(ph, ks, srt, e, init, v)
                if sol is None:
                    continue
                sols[pk] = sol
                del todo[pk]
                progress = True
                m = {ph: (ks, sol)}
                for q in list(todo):
                    a = todo[q]
                    if has_phi(a[3], ph):
                        todo[q] = a[:3] + (subst(a[3], m),) + a[4:]
            if not progress and todo:
                # invariants up to the other unsolved ones: optimistic group (e == self)
                # worklist pattern
                r = self.solve_worklist(todo, v)
                if r:
                    for pk, sol in r.items():
                        ph, ks, srt, e, init = todo.pop(pk)
                        sols[pk] = sol
                        m = {ph: (ks, sol)}
                        for q in list(todo):
                            a = todo[q]
                            if has_phi(a[3], ph):
                                todo[q] = a[:3] + (subst(a[3], m),) + a[4:]
                    progress = True
        if todo:
            self.fold_group(todo, sols, v, jv)
        return sols

    def solve_worklist(self, todo, v):
        return None

    def fold_group(self, todo, sols, v, jv):
        """remaining scalars: simultaneous fold; remaining maps: unknown"""
        scal = {pk: t for pk, t in todo.items() if not t[1]}
        mapsx = {pk: t for pk, t in todo.items() if t[1]}
        mphis = {t[0] for t in mapsx.values()}
        # scalars that depend on unsolved maps cannot be folded
        bad = set()
        ch = True
        while ch:
            ch = False
            for pk, (ph, ks, srt, e, init) in scal.items():
                if pk in bad:
                    continue
                ps = phis_in(e)
                if ps & mphis or any(scal[q][0] in ps for q in bad):
                    bad.add(pk)
                    ch = True
        good = [pk for pk in scal if pk not in bad]
        if good:
            # group by strongly connected components would be finer; dependency order suffices here
            comps = self._sccs(good, scal)
            for comp in comps:
                cur = [(pk,) + scal[pk] for pk in comp]
                phs = [c[1] for c in cur]
                m = {}
                steps = [c[4] for c in cur]
                inits = [c[5] for c in cur]
                done = {scal[q][0]: (scal[q][1], sols[q]) for q in good if q in sols}
                steps = [subst(x, done) if done else x for x in steps]
                for n, c in enumerate(cur):
                    sols[c[0]] = fold(n, jv, phs, steps, inits, v)
        for pk in bad:
            sols[pk] = unk('unsolved recurrence', scal[pk][2])
        done = {scal[q][0]: (scal[q][1], sols[q]) for q in scal}
        for pk, (ph, ks, srt, e, init) in mapsx.items():
            e2 = subst(e, done) if done else e
            if not (phis_in(e2) & (mphis - {ph})):
                s = solve_cell(ph, ks, srt, e2, init, v)
                if s is not None:
                    sols[pk] = s
                    continue
            sols[pk] = unk('unsolved map recurrence', srt)

    def _sccs(self, good, scal):
        import itertools
        dep = {}
        for pk in good:
            ps = phis_in(scal[pk][3])
            dep[pk] = [q for q in good if scal[q][0] in ps]
        # Tarjan
        idx, low, st, on, out = {}, {}, [], set(), []
        cnt = itertools.count()

        def go(x):
            idx[x] = low[x] = next(cnt)
            st.append(x)
            on.add(x)
            for y in dep[x]:
                if y not in idx:
                    go(y)
                    low[x] = min(low[x], low[y])
                elif y in on:
                    low[x] = min(low[x], idx[y])
            if low[x] == idx[x]:
                c = []
                while True:
                    y = st.pop()
                    on.discard(y)
                    c.append(y)
                    if y == x:
                        break
                c.sort(key=lambda pk: good.index(pk))
                out.append(c)
        for pk in good:
            if pk not in idx:
                go(pk)
        return out

    # ------------------------------------------------------------------ expressions
    def is_gl(self, n):
        return bool(n.get('lv') or n.get('xv'))

    def rv(self, n, st, fr, ctx):
        """prvalue of n (loading when n is a glvalue)"""
        v = self.ev(n, st, fr, ctx)
        if self.is_gl(n):
            if n['k'] == 'Str':
                return v
            return self.load(st, assume(v, st.lits), self.T(fr, n['t']))
        return v

    def temp(self, st, fr, n, v):
        l = LOC('tmp', fr.depth, fr.tu.name, nid(n))
        st.env[l] = v
        return ADDR(l)

    def ev(self, n, st, fr, ctx):
        k = n['k']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('expression %s (%s) at %s' % (k, n.get('cls'), self.where(n, fr)))
        return m(n, st, fr, ctx)

    def e_Int(self, n, st, fr, ctx):
        return const(int(n['v']))

    def e_Char(self, n, st, fr, ctx):
        return const(int(n['v']))

    def e_Float(self, n, st, fr, ctx):
        return float_const(float(n['v']))

    def e_Bool(self, n, st, fr, ctx):
        return B(n['v'])

    def e_Null(self, n, st, fr, ctx):
        return NULL

    def e_Str(self, n, st, fr, ctx):
        return mk('str', n['v'])

    def e_EnumC(self, n, st, fr, ctx):
        return const(int(n['v']))

    def e_This(self, n, st, fr, ctx):
        if fr.caps and 'this' in fr.caps:
            return fr.caps['this']
        return fr.this

    def e_SizeOf(self, n, st, fr, ctx):
        return const(int(n.get('v', 8)))

    def e_ValInit(self, n, st, fr, ctx):
        return self.default(self.T(fr, n['t']), fr, st, ctx)

    def e_Ref(self, n, st, fr, ctx):
        i = n['id']
        if fr.caps and i in fr.caps:
            return fr.caps[i]
        if 'cv' in n:
            a = self.temp(st, fr, n, const(int(n['cv'])))
            return a
        if 'cvf' in n:
            return self.temp(st, fr, n, const(Fraction(float(n['cvf']))))
        if i in fr.bind:
            return fr.bind[i]
        if n.get('global'):
            return self.global_addr(n, st, fr, ctx)
        if n.get('binding') is not None:
            return self.ev(n['binding'], st, fr, ctx)
        raise Unsupported('unbound %s at %s' % (n.get('n'), self.where(n, fr)))

    def global_addr(self, n, st, fr, ctx):
        l = LOC('glob', n.get('q') or n.get('n'))
        if l not in st.env:
            st.env[l] = self.symval(self.T(fr, n['t']), mk('app', 'global:' + (n.get('q') or n.get('n') or '?')))
        return ADDR(l)

    def e_Mat(self, n, st, fr, ctx):
        v = self.rv(n['c'][0], st, fr, ctx)
        return self.temp(st, fr, n, v)

    # ------------------------------------------------------------------ definedness
    faults = False

    def fault(self, st, ctx, cond, kind, n, fr):
        """record that an undefined access happens when `cond` holds (only when asked for)"""
        if self.faults and cond is not FALSE:
            from .models import throw_if
            what = 'vf::fault: %s at %s' % (kind, self.where(n, fr))
            if cond is TRUE and st.pc is TRUE and all(p is TRUE for p in self.pcs) and all(const_val(x) is not None for x in self.lvstack):
                raise Undefined(what)
            throw_if(self, st, ctx, cond, what)

    def prune(self, p, st):
        """the pointer p without the alternatives excluded on this path"""
        if not self.track or p.op != 'ite' or st.pc is TRUE:
            return p

        def go(t, c):
            if t.op != 'ite':
                return t
            a = ite_atom(t.args[0])
            x, y = b_and(c, a), b_and(c, b_not(a))
            if x is FALSE:
                return go(t.args[2], y)
            if y is FALSE:
                return go(t.args[1], x)
            return mux(a, go(t.args[1], x), go(t.args[2], y))
        return go(p, st.pc)

    def null_fault(self, p, st, ctx, n, fr, kind='null pointer dereferenced'):
        if self.faults:
            self.fault(st, ctx, b_not(to_bool(p)) if p.op in ('null', 'ite', 'app') or p is NULL else FALSE, kind, n, fr)

    def e_Mem(self, n, st, fr, ctx):
        b = n['c'][0]
        if n.get('arrow'):
            p = self.prune(self.rv(b, st, fr, ctx), st)
            self.null_fault(p, st, ctx, n, fr)
        else:
            p = self.ev(b, st, fr, ctx)
            if not self.is_gl(b):
                v = get_field(p, n['n'])
                return self.temp(st, fr, n, v) if self.is_gl(n) else v
        p = assume(p, st.lits)
        if self.track:
            from . import heapmodel
            heapmodel.misuse(self, p, st)
        return self.field_addr(p, n['rec'], n['n'])

    def e_Cast(self, n, st, fr, ctx):
        ck = n['ck']
        c = n['c'][0]
        if ck == 'LValueToRValue':
            return self.rv(c, st, fr, ctx)
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'ConstructorConversion',
                  'UserDefinedConversion', 'BitCast', 'FunctionToPointerDecay', 'Dynamic', 'LValueBitCast'):
            v = self.ev(c, st, fr, ctx)
            if self.is_gl(c) and not self.is_gl(n):
                return self.load(st, v, self.T(fr, c['t']))
            return v
        if ck == 'ArrayToPointerDecay':
            v = self.ev(c, st, fr, ctx)
            if v.op == 'str':
                return v
            return it(v, ZERO) if v.op == 'addr' else v
        if ck in ('IntegralCast', 'IntegralToFloating', 'FloatingCast', 'BooleanToSignedIntegral'):
            v = self.rv(c, st, fr, ctx)
            if ck == 'IntegralToFloating' and self.T(fr, c['t'])['k'] == 'bool':
                v = num(v)
            if ck == 'IntegralCast':
                return wrap(v, self.T(fr, n['t']))
            if ck == 'FloatingCast' and self.T(fr, n['t'])['s'] == 'float' and self.T(fr, c['t'])['s'] != 'float':
                return vlift(single, v)
            return v
        if ck == 'FloatingToIntegral':
            v = self.rv(c, st, fr, ctx)
            return lift('f2i', lambda x: num(x) if poly_is_int(num(x)) else num(mk('app', 'trunc', num(x), sort='i')), v)
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            return to_bool(self.rv(c, st, fr, ctx))
        if ck in ('NullToPointer', 'NullToMemberPointer'):
            return NULL
        if ck == 'ToVoid':
            self.ev(c, st, fr, ctx)
            return mk('void')
        raise Unsupported('cast %s at %s' % (ck, self.where(n, fr)))

    def e_Bin(self, n, st, fr, ctx):
        op = n['op']
        a, b = n['c']
        if op == '=':
            v = self.rv(b, st, fr, ctx)
            l = self.ev(a, st, fr, ctx)
            self.store(st, assume(l, st.lits), v)
            return l
        if op == ',':
            self.ev(a, st, fr, ctx)
            return self.ev(b, st, fr, ctx)
        if op in ('&&', '||'):
            x = self.cond(a, st, fr, ctx)
            if op == '&&' and x is FALSE or op == '||' and x is TRUE:
                return x
            g = x if op == '&&' else b_not(x)
            if g is TRUE:
                return self.cond(b, st, fr, ctx)
            s2 = self.fork(st, g)
            y = self.cond(b, s2, fr, ctx)
            self.join_into(st, g, s2)
            return b_and(x, y) if op == '&&' else b_or(x, y)
        x = self.rv(a, st, fr, ctx)
        y = self.rv(b, st, fr, ctx)
        return self.binop(op, x, y, n, fr, st, self.T(fr, n['t']))

    def join_into(self, st, g, s2):
        """st := g ? s2 : st"""
        same = all(s2.env.get(k) is v for k, v in st.env.items()) and len(s2.env) == len(st.env)
        if not same:
            st.env = merge_env(g, s2.env, st.env)
        thrown = b_and(b_and(st.pc, g), b_not(s2.pc))
        if thrown is not FALSE:
            st.pc = b_and(st.pc, b_not(thrown))
            st.lits = st.lits + cube_lits(b_not(thrown))

    def binop(self, op, x, y, n, fr, st, t):
        if op in ('+', '-', '*', '/') and t['k'] in ('float',):
            return {'+': add, '-': sub, '*': mul, '/': div}[op](x, y)
        if op in ('+', '-', '*') and t['k'] in ('int', 'uint', 'enum', 'char', 'bool'):
            if x.op == 'it' and y.op == 'it' and op == '-':
                return sub(x.args[1], y.args[1])
            return {'+': add, '-': sub, '*': mul}[op](x, y)
        if op in ('+', '-') and t['k'] == 'ptr':
            return self.ptr_add(x, y if op == '+' else neg(y))
        if op in ('==', '!='):
            r = self.equal(x, y, st)
            return r if op == '==' else b_not(r)
        if op in ('<', '>', '<=', '>='):
            if x.op == 'it' and y.op == 'it':
                x, y = x.args[1], y.args[1]
            if op == '<':
                return lt(x, y)
            if op == '>':
                return lt(y, x)
            if op == '<=':
                return le(x, y)
            return le(y, x)
        if op == '/':
            return lift('cdiv', lambda a, b: self._cdiv(num(a), num(b)), x, y)
        if op == '%':
            return lift('cmod', lambda a, b: p_sub(num(a), p_mul(num(b), _pl(self._cdiv(num(a), num(b))))), x, y)
        if op in ('&', '|', '^', '<<', '>>'):
            ca, cb = const_val(x) if x.op == 'poly' else None, const_val(y) if y.op == 'poly' else None
            if ca is not None and cb is not None:
                a, b = int(ca), int(cb)
                return const({'&': a & b, '|': a | b, '^': a ^ b, '<<': a << b, '>>': a >> b}[op])
            if self.is_bool(x) and self.is_bool(y):
                return {'&': b_and, '|': b_or, '^': lambda p, q: mux(p, b_not(q), q)}[op](x, y) if op in '&|^' else unk(op)
            return ufn('bit' + op, x, y, sort='i')
        raise Unsupported('operator %s at %s' % (op, self.where(n, fr)))

    def _cdiv(self, a, b):
        ca, cb = const_val(a), const_val(b)
        if ca is not None and cb not in (None, 0):
            q = abs(ca.numerator) // abs(cb.numerator)
            return const(q if (ca >= 0) == (cb >= 0) else -q)
        return _idiv_(a, b)

    def ptr_add(self, x, y):
        def f(p):
            if p.op == 'it':
                return it(p.args[0], add(p.args[1], y))
            if p.op == 'addr' and p.args[1] and p.args[1][-1][0] == 'e' and len(p.args[1][-1]) == 2:
                return ADDR(p.args[0], p.args[1][:-1] + (('e', add(p.args[1][-1][1], y)),))
            return unk('pointer arithmetic')
        return vlift(f, x)

    def equal(self, x, y, st):
        if x.op == 'ite' and any_struct(x) or x.op == 'ite' and self._iterlike(x):
            c, a, b = x.args
            return mux(ite_atom(c), self.equal(a, y, st), self.equal(b, y, st))
        if y.op == 'ite' and (any_struct(y) or self._iterlike(y)):
            return self.equal(y, x, st)
        if x.op == 'it' and y.op == 'it':
            return eqn(x.args[1], y.args[1])
        if x.op == 'mend' and y.op != 'mend':
            x, y = y, x
        if y.op == 'mend':
            if x.op == 'mit':
                return b_not(x.args[2])
            if x.op == 'it':
                d = self.load(st, x.args[0])
                return eqn(x.args[1], part(d, 0, 'dict'))
            if x.op == 'mend':
                return TRUE
        if x.op == 'mit' and y.op == 'mit':
            return eq(x.args[1], y.args[1])
        if x.op == 'vec' or y.op == 'vec' or x.op == 'struct':
            return unk('aggregate comparison', 'b')
        return eq(x, y)

    def _iterlike(self, x):
        while x.op == 'ite':
            x = x.args[1]
        return x.op in ('it', 'mit', 'mend')

    def e_CAssign(self, n, st, fr, ctx):
        a, b = n['c']
        v = self.rv(b, st, fr, ctx)
        l = assume(self.ev(a, st, fr, ctx), st.lits)
        old = self.load(st, l, self.T(fr, a['t']))
        op = n['op'].rstrip('=') if len(n['op']) > 1 else n['op']
        t = self.T(fr, n.get('ct', n['t'])) if n.get('ct') is not None else self.T(fr, n['t'])
        t = self.deref_type(t)
        if old.op == 'it':
            nv = it(old.args[0], add(old.args[1], v if op == '+' else neg(v)))
        elif self.deref_type(self.T(fr, a['t']))['k'] == 'bool' and op in '&|^' and self.is_bool(old):
            nv = {'&': b_and, '|': b_or, '^': lambda p, q: mux(p, b_not(q), q)}[op](old, to_bool(v))
        else:
            nv = self.binop(op, old, v, n, fr, st, t)
        if self.deref_type(self.T(fr, a['t']))['k'] == 'bool' and not self.is_bool(nv):
            nv = to_bool(nv)
        self.store(st, l, nv)
        return l

    def e_Un(self, n, st, fr, ctx):
        op = n['op']
        c = n['c'][0]
        if op == '&':
            v = self.ev(c, st, fr, ctx)
            if v.op == 'addr' and v.args[1] == () and v.args[0].op != 'loc':
                return v.args[0]
            return v
        if op == '*':
            p = self.prune(assume(self.rv(c, st, fr, ctx), st.lits), st)
            self.null_fault(p, st, ctx, n, fr)
            if p.op == 'it':
                return self.it_addr(p, st)
            return p
        if op in ('++', '--'):
            l = assume(self.ev(c, st, fr, ctx), st.lits)
            old = self.load(st, l, self.T(fr, c['t']))
            d = ONE if op == '++' else const(-1)
            nv = self.ptr_add(old, d) if old.op in ('it', 'addr') else add(old, d)
            self.store(st, l, nv)
            return old if n.get('post') else l
        if op == '!':
            return b_not(self.cond(c, st, fr, ctx))
        if op == '-':
            return neg(self.rv(c, st, fr, ctx))
        if op == '+':
            return self.rv(c, st, fr, ctx)
        if op == '~':
            return ufn('bit~', self.rv(c, st, fr, ctx), sort='i')
        raise Unsupported('unary %s at %s' % (op, self.where(n, fr)))

    def it_addr(self, p, st):
        """address an iterator points at"""
        if p.op == 'ite':
            c, a, b = p.args
            return mux(ite_atom(c), self.it_addr(a, st), self.it_addr(b, st))
        if p.op == 'it':
            loc, idx = p.args
            cont = self.load(st, loc)
            z = cont
            while z.op == 'ite':
                z = z.args[1]
            if z.op == 'dict':
                return self.kv_addr(loc, self.dict_key(cont, idx), 'kv')
            return self.elem_addr(loc, idx)
        if p.op == 'mit':
            return self.kv_addr(p.args[0], p.args[1], 'kv')
        raise Unsupported('dereference of %s' % p.op)

    def e_Cond(self, n, st, fr, ctx):
        cnode, a, b = n['c']
        c = self.cond(cnode, st, fr, ctx)
        if c is TRUE:
            return self.ev(a, st, fr, ctx)
        if c is FALSE:
            return self.ev(b, st, fr, ctx)
        s1, s2 = self.fork(st, c), self.fork(st, b_not(c))
        x = self.ev(a, s1, fr, ctx)
        y = self.ev(b, s2, fr, ctx)
        lits = st.lits
        if a['k'] == 'Throw' or s1.pc is FALSE:
            st.env, st.pc, st.lits = s2.env, s2.pc, s2.lits
            return y
        if b['k'] == 'Throw' or s2.pc is FALSE:
            st.env, st.pc, st.lits = s1.env, s1.pc, s1.lits
            return x
        m = self.merge(c, s1, s2, lits)
        st.env, st.pc, st.lits = m.env, m.pc, m.lits
        return vmux(c, self.norm_value(x, st), self.norm_value(y, st))

    def e_Sub(self, n, st, fr, ctx):
        b, i = n['c']
        p = self.rv(b, st, fr, ctx)
        idx = self.rv(i, st, fr, ctx)
        if p.op == 'str' or p.sort == 's':
            from .models import char_at
            return self.temp(st, fr, n, char_at(p, idx))
        if p.op == 'it':
            return self.elem_addr(p.args[0], add(p.args[1], idx))
        return self.elem_addr(p, idx)

    def e_Throw(self, n, st, fr, ctx):
        if n['c'] and n['c'][0] is not None:
            v = self.rv(n['c'][0], st, fr, ctx)
            t = self.recname(self.deref_type(self.T(fr, n['tt'])))
        else:
            t0 = getattr(self, '_cur_exc', None)
            if t0 is None:
                raise Unsupported('rethrow')
            v, t = t0.val, t0.info
        ctx.thr.append(Exit(st.pc, st.copy(), v, t))
        st.pc = FALSE
        return mk('void')

    def e_InitList(self, n, st, fr, ctx):
        t = self.deref_type(self.T(fr, n['t']))
        args = [self.rv(a, st, fr, ctx) for a in n['args']]
        rec = self.P.rec_of(t)
        if rec is not None:
            fs = self.P.all_fields(rec)
            out = []
            for i, (_r, f, tu) in enumerate(fs):
                if i < len(args):
                    out.append((f['n'], args[i]))
                elif f.get('init'):
                    out.append((f['n'], self.rv(f['init'], st, self.mkframe(fr, tu, NULL), ctx)))
                else:
                    out.append((f['n'], self.default(tu.types[f['t']], fr, st, ctx)))
            return struct(rec['s'], out)
        if t['k'] == 'array' or t.get('rec') == 'std::array':
            if t['k'] == 'array':
                et, cnt = self.sub(t, t['e']), t.get('n', len(args))
            else:
                et, cnt = self.targs(t)[0], self.targs(t)[1]
                if len(args) == 1 and args[0].op == 'vec' and et['k'] != 'rec':
                    return args[0]
                if len(args) == 1 and args[0].op == 'vec' and n['args'][0]['k'] == 'InitList':
                    return args[0]
            return self.list_vec(args, const(cnt), et, fr, st, ctx)
        if len(args) == 1:
            return args[0]
        if not args:
            return self.default(t, fr, st, ctx)
        if t.get('rec') == 'std::pair':
            return struct('std::pair', [('first', args[0]), ('second', args[1])])
        raise Unsupported('initializer list of %s at %s' % (t['s'], self.where(n, fr)))

    def list_vec(self, args, cnt, et, fr, st, ctx):
        args = [self.norm_value(a, st) for a in args]
        d = self.default(et, fr, st, ctx) if et is not None and const_val(cnt) is not None and len(args) < const_val(cnt) else None
        if not args:
            return vec(cnt, lam_const(('i',), d if d is not None else mk('undef')))
        m = lam_const(('i',), d if d is not None else args[-1])
        L = args if d is not None else args[:-1]
        K = fresh_keys(('i',), *args)
        body = d if d is not None else args[-1]
        for i in reversed(range(len(L))):
            body = vmux(eqn(kval(K[0]), const(i)), args[i], body)
        return vec(cnt, lam(K, body))

    def e_StdIL(self, n, st, fr, ctx):
        return self.rv(n['c'][0], st, fr, ctx)

    def e_ArrCopy(self, n, st, fr, ctx):
        raise Unsupported('array copy')

    def e_Lambda(self, n, st, fr, ctx):
        caps = []
        for c in n['caps']:
            if c.get('this'):
                caps.append(('this', fr.caps.get('this', fr.this) if fr.caps else fr.this))
                continue
            i = c['id']
            if c.get('init') is not None:
                v = self.rv(c['init'], st, fr, ctx)
                a = self.temp(st, fr, c, v)
            else:
                a = (fr.caps or {}).get(i) or fr.bind.get(i)
                if a is None:
                    raise Unsupported('capture at %s' % self.where(n, fr))
                if not c['byref']:
                    a = self.temp(st, fr, c, self.load(st, a))
            caps.append((i, a))
        return mk('closure', n['fn']['id'], tuple(caps))

    def call_closure(self, clo, args, st, ctx, fr, node):
        if clo.op == 'ite':
            raise Unsupported('conditional callable')
        if clo.op == 'fnptr':
            fn = self.P.fns.get(clo.args[0])
            return self.call_fn(fn, None, args, st, ctx, fr, node)
        if clo.op != 'closure':
            raise Unsupported('call of %s' % clo.op)
        fn = self.P.fns.get(clo.args[0])
        if fn is None or fn.body is None:
            raise Unsupported('lambda body')
        f2 = Frame()
        f2.fn, f2.tu, f2.depth = fn, fn.tu, fr.depth + 1
        f2.bind, f2.this = {}, None
        f2.caps = dict(clo.args[1])
        f2.site = fr.site + ((fn.id, nid(node)),)
        if sum(1 for s in f2.site if s[0] == fn.id) > 3:
            raise Unsupported('recursive lambda')
        self.callsites += 1
        return self.exec_body(fn, f2, args, st, ctx)

    def e_FnRef(self, n, st, fr, ctx):
        return mk('fnptr', n['fn']['id'])

    def e_MemFn(self, n, st, fr, ctx):
        return mk('fnptr', n['fn']['id'])

    def site(self, fr, n):
        return '%s@%s' % ('/'.join(str(s[1]) for s in fr.site), nid(n))

    def new_object(self, fr, n):
        return mk('fresh', self.site(fr, n), *self.lvstack, sort='p')

    def e_New(self, n, st, fr, ctx):
        if n.get('arr'):
            raise Unsupported('new[] at %s' % self.where(n, fr))
        t = self.pointee(self.T(fr, n['t']))
        p = self.new_object(fr, n)
        self.allocated[p.args[0]] = self.recname(t)
        if self.track:
            st.env[LOC('freed', p)] = FALSE
            if p not in self.made:
                self.made.append(p)
        if n.get('init') is not None:
            i = n['init']
            self.construct_at(p, t, i, st, fr, ctx)
        else:
            self.store(st, p, self.undef_value(t))
        return p

    def construct_at(self, p, t, init, st, fr, ctx):
        while init['k'] == 'Cast':
            init = init['c'][0]
        if init['k'] == 'Ctor':
            fn = self.P.fns.get(init['fn']['id'])
            if fn is not None and fn.body is not None and (not init['fn'].get('copy') or self.track and not init['fn'].get('defaulted')):
                args = self.eval_args(init['args'], fn, st, fr, ctx)
                self.call_fn(fn, p, args, st, ctx, fr, init)
                return
        v = self.rv(init, st, fr, ctx)
        self.store(st, p, v)

    def e_Delete(self, n, st, fr, ctx):
        if self.track and not n.get('arr'):
            from . import heapmodel
            return heapmodel.delete(self, n, st, fr, ctx)
        self.ev(n['c'][0], st, fr, ctx)
        return mk('void')

    # ------------------------------------------------------------------ calls
    def eval_args(self, args, fn, st, fr, ctx):
        out = []
        for a, p in zip(args, fn.params):
            t = fn.tu.types[p['t']]
            out.append(self.eval_arg(a, t, st, fr, ctx))
        return out

    def eval_arg(self, a, t, st, fr, ctx):
        if t['k'] in ('ref', 'rref'):
            v = self.ev(a, st, fr, ctx)
            if not self.is_gl(a):
                v = self.temp(st, fr, a, v)
            elif a['k'] == 'Str':
                v = self.temp(st, fr, a, v)
            return v
        v = self.rv(a, st, fr, ctx)
        return self.norm_value(v, st)

    def e_Ctor(self, n, st, fr, ctx):
        f = n['fn']
        t = self.deref_type(self.T(fr, n['t']))
        fn = self.P.fns.get(f['id'])
        if f.get('copy'):
            a = n['args'][0]
            if fn is None or f.get('defaulted') or fn.body is None:
                return self.norm_value(self.rv(a, st, fr, ctx), st)
        m = self.summaries.get(f['q']) or self.models.get(f['q'])
        if m is not None:
            return m(self, n, st, fr, ctx)
        if fn is not None and fn.body is not None:
            l = LOC('tmp', fr.depth, fr.tu.name, ('c', nid(n)))
            st.env[l] = self.undef_value(t)
            args = self.eval_args(n['args'], fn, st, fr, ctx)
            self.call_fn(fn, ADDR(l), args, st, ctx, fr, n)
            if st.pc is FALSE:
                return unk('constructor throws')
            return st.env[l]
        if f.get('inh') and self.P.fns.get(f['inh']) is not None and self.P.fns[f['inh']].body is not None:
            bf = self.P.fns[f['inh']]
            rec = self.P.rec_of(t)
            l = LOC('tmp', fr.depth, fr.tu.name, ('c', nid(n)))
            st.env[l] = self.undef_value(t)
            args = self.eval_args(n['args'], bf, st, fr, ctx)
            self.call_fn(bf, ADDR(l), args, st, ctx, fr, n)
            if st.pc is FALSE:
                return unk('constructor throws')
            for fd in rec['fields']:
                self.init_field(rec, fd, rec['tu'].types[fd['t']], ADDR(l), fr, st, ctx)
            return st.env[l]
        if not n['args']:
            rec = self.P.rec_of(t)
            if rec is not None:
                l = LOC('tmp', fr.depth, fr.tu.name, ('c', nid(n)))
                st.env[l] = self.undef_value(t)
                self.default_fields(rec, ADDR(l), fr, st, ctx)
                return st.env[l]
            return self.default(t, fr, st, ctx)
        g = self.models.get('ctor:' + (t.get('rec') or ''))
        if g is not None:
            return g(self, n, st, fr, ctx)
        if (t.get('rec') or '').startswith('std::') and self.exc_is(t.get('rec'), 'std::exception'):
            return mk('exc', *[self.rv(a, st, fr, ctx) for a in n['args']])
        raise Unsupported('constructor %s at %s' % (f['q'], self.where(n, fr)))

    def e_InhCtor(self, n, st, fr, ctx):
        raise Unsupported('inherited constructor')

    def e_Call(self, n, st, fr, ctx):
        f = n.get('fn')
        if f is None:
            c = self.rv(n['fexpr'], st, fr, ctx)
            args = [self.rv(a, st, fr, ctx) for a in n['args']]
            return self.call_closure(c, args, st, ctx, fr, n)
        q = f['q']
        fn = self.P.fns.get(f['id'])
        sm = self.summaries.get(q)
        if sm is not None:
            r = sm(self, n, st, fr, ctx)
            if r is not None:
                return r
        if fn is not None and fn.body is not None:
            args = n['args']
            this = None
            if fn.d.get('lambda') or '::operator()' in q and f.get('id', '').startswith('lambda@'):
                # call through the closure object
                clo = self.rv(args[0], st, fr, ctx) if n.get('opm') else self.rv(n['obj'], st, fr, ctx)
                rest = args[1:] if n.get('opm') else args
                vals = [self.eval_arg(a, fn.tu.types[p['t']], st, fr, ctx) for a, p in zip(rest, fn.params)]
                return self.call_closure(clo, vals, st, ctx, fr, n)
            if n.get('opm'):
                this = self.obj_addr(args[0], False, st, fr, ctx)
                args = args[1:]
            elif n.get('obj') is not None:
                this = self.obj_addr(n['obj'], n.get('arrow'), st, fr, ctx)
            vals = self.eval_args(args, fn, st, fr, ctx)
            if fn.d.get('defaulted') and f.get('assign'):
                v = self.load(st, vals[0], fn.tu.types[fn.params[0]['t']]) if fn.params and fn.tu.types[fn.params[0]['t']]['k'] in ('ref', 'rref') else vals[0]
                self.store(st, this, v)
                return this
            if self.track and fn.d.get('virt') and this is not None:
                from . import heapmodel
                return heapmodel.dispatch(self, fn, this, vals, st, ctx, fr, n)
            return self.call_fn(fn, this, vals, st, ctx, fr, n)
        m = self.models.get(q)
        if m is not None:
            return m(self, n, st, fr, ctx)
        if self.track and f.get('virt') and n.get('obj') is not None:
            from . import heapmodel
            fn = heapmodel.declared(self, f)
            if fn is not None:
                this = self.obj_addr(n['obj'], n.get('arrow'), st, fr, ctx)
                return heapmodel.dispatch(self, fn, this, self.eval_args(n['args'], fn, st, fr, ctx), st, ctx, fr, n)
        if f.get('assign') and (f.get('defaulted') or f.get('repo')):
            args = n['args']
            this = self.obj_addr(args[0], False, st, fr, ctx)
            self.store(st, this, self.norm_value(self.rv(args[1], st, fr, ctx), st))
            return this
        r = self.generic_model(n, st, fr, ctx)
        if r is not None:
            return r
        raise Unsupported('call to %s at %s' % (q, self.where(n, fr)))

    def generic_model(self, n, st, fr, ctx):
        q = n['fn']['q']
        for pre, m in self.models.items():
            if pre.endswith('*') and q.startswith(pre[:-1]):
                return m(self, n, st, fr, ctx)
        return None

    def obj_addr(self, o, arrow, st, fr, ctx):
        if arrow:
            p = self.prune(assume(self.rv(o, st, fr, ctx), st.lits), st)
            self.null_fault(p, st, ctx, o, fr)
            return p
        v = self.ev(o, st, fr, ctx)
        if not self.is_gl(o):
            return self.temp(st, fr, o, v)
        return assume(v, st.lits)

    # object address and remaining argument nodes of a (member) call
    def self_args(self, n, st, fr, ctx):
        args = n['args']
        if n.get('opm'):
            return self.obj_addr(args[0], False, st, fr, ctx), args[1:]
        if n.get('obj') is not None:
            return self.obj_addr(n['obj'], n.get('arrow'), st, fr, ctx), args
        return None, args


WIDTH = {'unsigned int': (32, False), 'uint32_t': (32, False), 'int': (32, True), 'short': (16, True), 'unsigned short': (16, False),
         'unsigned long': (64, False), 'unsigned long long': (64, False), 'long': (64, True), 'long long': (64, True),
         'unsigned char': (8, False), 'signed char': (8, True), 'char': (8, True)}


def width(t):
    return WIDTH.get(t['s'].replace('const ', '').replace('std::', ''))


def wrap(v, t):
    """a constant converted to an integer type"""
    c = const_val(v) if v.op == 'poly' else None
    w = width(t)
    if c is None or w is None or c != int(c):
        return v
    b, signed = w
    c = int(c) % 2 ** b
    return const(c - 2 ** b if signed and c >= 2 ** (b - 1) else c)


def single(x):
    """a real rounded to single precision"""
    x = _pl(x)
    c = const_val(x)
    if c is not None and c == Fraction(struct_pack(float(c))):
        return x
    a = atom_of(x)
    if a is not None and a.op == 'app' and a.args[0] == 'single':
        return x
    return num(mk('app', 'single', x, sort='r'))


def struct_pack(f):
    import struct as S
    return S.unpack('f', S.pack('f', f))[0]


def _n(t):
    return t if t.op in ('poly', 'ite') else num(t)


def _pl(t):
    return t if t.op == 'poly' else num(t)


def _idiv_(a, b):
    from .solve import _idiv as f
    return f(a, b)
