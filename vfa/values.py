"""Structured values: records, sequences, matrices, dictionaries (function terms
over their keys), addresses and iterators, with joins pushed to scalar leaves."""
from .terms import *
from . import terms as TM


class Unsupported(Exception):
    pass


class Undefined(Exception):
    """an access that does not exist is reached for certain"""


_unk = [0]


def unk(why, sort=None):
    _unk[0] += 1
    return mk('unk', _unk[0], why, sort=sort)


def has_unk(t):
    return contains(t, lambda x: x.op in ('unk', 'undef') or (x.op == 'rd'))


# ------------------------------------------------------------------ lambda maps
_kv = {}


def kvar(i, sort):
    v = _kv.get((i, sort))
    if v is None:
        v = mk('lv', 'K%d%s' % (i, sort), sort=sort)
        _kv[(i, sort)] = v
    return v


def fresh_keys(sorts, *ts):
    """key variables not free in the given terms"""
    used = frozenset()
    for t in ts:
        used |= free_lvs(t)
    out = []
    i = 0
    for s in sorts:
        while kvar(i, s) in used or kvar(i, s) in out:
            i += 1
        out.append(kvar(i, s))
        i += 1
    return out


def kval(v):
    return num(v) if v.sort in ('i', 'r') else v


def lam(keys, body):
    h = height(body)
    mp = {}
    for i, k in enumerate(keys):
        b = mk('bv', h + i, sort=k.sort)
        mp[k] = num(b) if k.sort in ('i', 'r') else b
    return mk('lam', h, tuple(k.sort for k in keys), subst(body, mp))


_readc = cache()


def lam_read(L, keys):
    keys = tuple(keys)
    k = (L, keys)
    r = _readc.get(k)
    if r is not None:
        return r
    if L.op == 'ite':
        c, a, b = L.args
        r = vmux(ite_atom(c), lam_read(a, keys), lam_read(b, keys))
    elif L.op == 'lam':
        h, sorts, body = L.args
        if len(sorts) != len(keys):
            r = unk('arity')
        elif any(kk.op == 'ite' for kk in keys):
            r = None
            for i, kk in enumerate(keys):
                if kk.op == 'ite':
                    c, a, b = kk.args
                    r = vmux(ite_atom(c), lam_read(L, keys[:i] + (a,) + keys[i + 1:]),
                             lam_read(L, keys[:i] + (b,) + keys[i + 1:]))
                    break
        else:
            r = subst(body, {mk('bv', h + i, sort=s): kk for i, (s, kk) in enumerate(zip(sorts, keys))})
    else:
        r = unk('read of ' + L.op)
    _readc[k] = r
    return r


def lam_open(L):
    """(keys, body) of a lam leaf, keys fresh w.r.t. the body"""
    h, sorts, body = L.args
    ks = fresh_keys(sorts, body)
    return ks, lam_read(L, [kval(k) for k in ks])


def lam_set(L, keys, val, guard=TRUE):
    if L.op == 'ite':
        c, a, b = L.args
        return vmux(ite_atom(c), lam_set(a, keys, val, guard), lam_set(b, keys, val, guard))
    if L.op != 'lam':
        return unk('write to ' + L.op)
    sorts = L.args[1]
    ks = fresh_keys(sorts, L, val, guard, *keys)
    body = lam_read(L, [kval(k) for k in ks])
    c = guard
    for k, kk in zip(ks, keys):
        c = b_and(c, eq(kval(k), kk))
    return lam(ks, vmux(c, val, body))


def lam_map(f, sorts, *Ls, extra=()):
    """pointwise combination of maps (extra: terms whose variables must not be captured)"""
    ks = fresh_keys(sorts, *Ls, *extra)
    vs = [kval(k) for k in ks]
    return lam(ks, f(vs, *[lam_read(L, vs) for L in Ls]))


def lam_const(sorts, val):
    ks = fresh_keys(sorts, val)
    return lam(ks, val)


def _rb_lam(x, go):
    h, sorts, body = x.args
    ks = _fresh_global(sorts)
    b = subst(body, {mk('bv', h + i, sort=s): kval(k) for i, (s, k) in enumerate(zip(sorts, ks))})
    return lam(ks, go(b))


_gk = {}
_gkdepth = [0]


def _fresh_global(sorts):
    _gkdepth[0] += 1
    return [mk('lv', 'G%d_%d%s' % (_gkdepth[0], i, s), sort=s) for i, s in enumerate(sorts)]


def _rb_lam_safe(x, go):
    try:
        return _rb_lam(x, go)
    finally:
        _gkdepth[0] -= 1


TM._rebuilders['lam'] = _rb_lam_safe


# ------------------------------------------------------------------ structured values
STRUCTURED = ('struct', 'vec', 'mat', 'dict', 'it', 'lam', 'blk')


def struct(rec, fields):
    return mk('struct', rec, tuple(fields))


def vec(n, m):
    return mk('vec', n, m)


def mat(r, c, m):
    return mk('mat', r, c, m)


def mdict(n, has, val):
    """dictionary: number of entries, key membership, key -> value"""
    return mk('dict', n, has, val)


def it(loc, idx):
    return mk('it', loc, idx)


_vmuxc = cache()


def vmux(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    k = (c, a, b)
    r = _vmuxc.get(k)
    if r is not None:
        return r
    if a.op == 'undef' and b.op != 'undef' and b.op != 'ite':
        r = b if b.op not in STRUCTURED else b
    elif b.op == 'undef' and a.op != 'undef' and a.op != 'ite':
        r = a
    elif a.op == b.op and a.op in STRUCTURED:
        if a.op == 'struct' and a.args[0] == b.args[0] and [f for f, _ in a.args[1]] == [f for f, _ in b.args[1]]:
            r = struct(a.args[0], tuple((f, vmux(c, x, y)) for (f, x), (_f, y) in zip(a.args[1], b.args[1])))
        elif a.op in ('vec', 'mat', 'dict'):
            r = mk(a.op, *[vmux(c, x, y) for x, y in zip(a.args, b.args)])
        elif a.op == 'it' and a.args[0] is b.args[0]:
            r = it(a.args[0], vmux(c, a.args[1], b.args[1]))
        elif a.op == 'lam' and a.args[1] == b.args[1]:
            ks = fresh_keys(a.args[1], a, b, c)
            vs = [kval(x) for x in ks]
            r = lam(ks, vmux(c, lam_read(a, vs), lam_read(b, vs)))
        else:
            r = mux(c, a, b)
    else:
        r = mux(c, a, b)
    _vmuxc[k] = r
    return r


def vlift(f, v):
    """apply f to every non-ite leaf of v, joining structured results"""
    if v.op == 'ite':
        c, a, b = v.args
        return vmux(ite_atom(c), vlift(f, a), vlift(f, b))
    return f(v)


def get_field(v, name):
    def f(x):
        if x.op == 'struct':
            for n, val in x.args[1]:
                if n == name:
                    return val
        if x.op == 'undef':
            return mk('undef')
        return unk('field %s of %s' % (name, x.op))
    return vlift(f, v)


def set_field(v, name, val):
    def f(x):
        if x.op == 'struct':
            fs = [(n, (val if n == name else o)) for n, o in x.args[1]]
            return struct(x.args[0], fs)
        return unk('field store')
    return vlift(f, v)


def part(v, i, op):
    def f(x):
        if x.op == op:
            return x.args[i]
        return unk('%s expected, %s found' % (op, x.op))
    return vlift(f, v)


def vec_n(v):
    return part(v, 0, 'vec')


def vec_m(v):
    return part(v, 1, 'vec')


# ------------------------------------------------------------------ leaves for recurrences
def open_value(v, avoid):
    """decompose into scalar leaves: returns (skeleton, [(keys, term)])"""
    leaves = []

    def go(x, keys):
        if x.op in ('struct',):
            return ('struct', x.args[0], [(f, go(y, keys)) for f, y in x.args[1]])
        if x.op in ('vec', 'mat', 'dict'):
            return (x.op, [go(y, keys) for y in x.args])
        if x.op == 'it':
            return ('it', x.args[0], go(x.args[1], keys))
        if x.op == 'lam':
            ks = fresh_keys(x.args[1], x, avoid, mk('tup', *keys))
            return ('lam', ks, go(lam_read(x, [kval(k) for k in ks]), keys + ks))
        if x.op == 'ite' and any_struct(x):
            x2 = push(x)
            if x2 is not None:
                return go(x2, keys)
        leaves.append((keys, x))
        return ('leaf', len(leaves) - 1)
    sk = go(v, [])
    return sk, leaves


def any_struct(x):
    while x.op == 'ite':
        if x.args[1].op in STRUCTURED or x.args[2].op in STRUCTURED:
            return True
        if any_struct(x.args[1]):
            return True
        x = x.args[2]
    return x.op in STRUCTURED


def push(x):
    c, a, b = x.args
    if a.op == 'ite':
        a = push(a) if any_struct(a) else a
    if b.op == 'ite':
        b = push(b) if any_struct(b) else b
    if a is None or b is None:
        return None
    r = vmux(ite_atom(c), a, b)
    return r if r.op != 'ite' else None


def rebuild_value(sk, leaf):
    """inverse of open_value; leaf(i) gives the term of leaf i"""
    k = sk[0]
    if k == 'leaf':
        return leaf(sk[1])
    if k == 'struct':
        return struct(sk[1], [(f, rebuild_value(y, leaf)) for f, y in sk[2]])
    if k in ('vec', 'mat', 'dict'):
        return mk(k, *[rebuild_value(y, leaf) for y in sk[1]])
    if k == 'it':
        return it(sk[1], rebuild_value(sk[2], leaf))
    if k == 'lam':
        return lam(sk[1], rebuild_value(sk[2], leaf))
    raise AssertionError(k)


def match_leaves(sk, v):
    """leaf terms of v along skeleton sk (keys of sk reused); None when shapes differ"""
    out = {}

    def go(s, x):
        k = s[0]
        if k == 'leaf':
            out[s[1]] = x
            return True
        if x.op == 'ite' and any_struct(x):
            x2 = push(x)
            if x2 is not None:
                x = x2
        if k == 'struct':
            if x.op != 'struct' or x.args[0] != s[1] or len(x.args[1]) != len(s[2]):
                return False
            return all(go(a, b) for (_f, a), (_g, b) in zip(s[2], x.args[1]))
        if k in ('vec', 'mat', 'dict'):
            if x.op != k:
                return False
            return all(go(a, b) for a, b in zip(s[1], x.args))
        if k == 'it':
            if x.op != 'it' or x.args[0] is not s[1]:
                return False
            return go(s[2], x.args[1])
        if k == 'lam':
            if x.op != 'lam' or x.args[1] != tuple(kk.sort for kk in s[1]):
                return False
            return go(s[2], lam_read(x, [kval(kk) for kk in s[1]]))
        raise AssertionError
    if not go(sk, v):
        return None
    return out


def sort_of(t):
    while t.op == 'ite':
        a = t.args[1]
        t = a if a.op not in ('unk', 'undef') else t.args[2]
    if t.op == 'poly':
        return 'i' if poly_is_int(t) else 'r'
    if t.op == 'b':
        return 'b'
    if t.op == 'str':
        return 's'
    if t.op in ('null', 'fresh', 'addr'):
        return 'p'
    return t.sort or 'p'


def leaf_sort(t):
    """sort over all leaves (reals win over ints)"""
    ss = set()

    def go(x):
        if x.op == 'ite':
            go(x.args[1])
            go(x.args[2])
        elif x.op not in ('unk', 'undef'):
            ss.add(sort_of(x))
    go(t)
    if not ss:
        return 'p'
    for s in ('r', 'i', 's', 'p', 'b'):
        if s in ss:
            return s
    return ss.pop()


def rdval(phi, keys, sort):
    t = mk('rd', phi, *[kval(k) for k in keys], sort=sort)
    if sort in ('i', 'r'):
        return num(t)
    if sort == 'b':
        return ite_atom(mk('truth', t))
    return t
