"""Comparison of value terms: equal by normal form, different only when the two terms
disagree as functions (random interpretation of their atoms), otherwise undecided."""
import math
import hashlib
from .terms import *
from . import terms as TM
from .values import *
from .solve import INF


EXACT = {}      # functions with a fixed meaning: name -> f(model, term, bound env)


class Uneval(Exception):
    pass


class Model:
    """a random interpretation of the atoms: congruent (same arguments, same value)"""

    def __init__(self, seed, irange, maxsize=3, fixed=None, ptr_sel=None):
        self.seed = seed
        self.irange = irange
        self.maxsize = maxsize
        self.memo = {}
        self.fixed = fixed or {}
        self.steps = 0
        self.forced = {}
        self.units = {}      # unit vectors given a special value

    def h(self, *key):
        d = hashlib.blake2b(repr((self.seed,) + key).encode(), digest_size=8).digest()
        return int.from_bytes(d, 'big')

    def real(self, *key):
        x = self.h('r', *key)
        return (x % 2000003) / 1000001.0 * 2.4 - 2.4 + 0.0131

    def q(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, float):
            if v == int(v) and abs(v) < 1e9:
                return int(v)
            return '%.8g' % v
        return v

    def atom(self, name, sort, args):
        key = (name, tuple(self.q(a) for a in args))
        f = self.fixed.get(name)
        if f is not None and not name.startswith('.'):
            return f(self, *args)
        if self.forced and key in self.forced:
            return self.forced[key]
        if name == 'size':
            return self.h(key) % (self.maxsize + 1)
        if sort == 'r':
            return self.real(*key)
        if sort == 'i':
            lo, hi = self.irange
            return lo + self.h(key) % (hi - lo + 1)
        if sort == 'b':
            return self.h(key) % 2 == 1
        if sort == 's':
            return ('s', self.h(key))
        return ('p', self.h(key))

    def ev(self, t, be=None):
        be = be or {}
        closed = not be or (height(t) == 0 and not free_lvs(t))
        if closed:
            r = self.memo.get(t)
            if r is not None:
                return r
        self.steps += 1
        if self.steps > 400000:
            raise Uneval('too large')
        r = self._ev(t, be)
        if closed:
            self.memo[t] = r
        return r

    def _ev(self, t, be):
        op = t.op
        if op == 'poly':
            s = 0
            for m, c in t.args[0]:
                p = c.numerator if c.denominator == 1 else float(c)
                for a, e in m:
                    v = self.ev(a, be)
                    if not isinstance(v, (int, float)):
                        raise Uneval('non-number')
                    if e >= 0:
                        p = p * v ** e
                    else:
                        if v == 0 or isinstance(v, float) and abs(v) < 1e-9:
                            raise Uneval('division by zero')
                        p = p * float(v) ** e
                s = s + p
            return s
        if op == 'ite':
            return self.ev(t.args[1 if self.cond(t.args[0], be) else 2], be)
        if op == 'b':
            return t is TRUE
        if op == 'null':
            return None
        if op == 'str':
            return t.args[0]
        if op in ('lv', 'bv'):
            if t in be:
                return be[t]
            return self.atom('lv%s' % (t.args[0],), t.sort, ())
        if op == 'truth':
            return self.ev(t.args[0], be)
        if op == 'inv':
            v = self.ev(t.args[0], be)
            if v == 0 or isinstance(v, float) and abs(v) < 1e-9:
                raise Uneval('division by zero')
            return 1.0 / v
        if op == 'app':
            return self.app(t, be)
        if op == 'sum':
            h, N, body = t.args
            n = self.n(N, be)
            b = mk('bv', h, sort='i')
            return sum((self.ev(body, {**be, b: k}) for k in range(n)), 0)
        if op == 'exists':
            h, N, body = t.args
            b = mk('bv', h, sort='i')
            return any(self.ev(body, {**be, b: k}) for k in range(self.n(N, be)))
        if op == 'first':
            N, h, body = t.args
            b = mk('bv', h, sort='i')
            if N is INF:
                for k in range(60):
                    if self.ev(body, {**be, b: k}):
                        return k
                raise Uneval('unbounded search')
            n = self.n(N, be)
            for k in range(n):
                if self.ev(body, {**be, b: k}):
                    return k
            return n
        if op == 'last':
            N, h, body = t.args
            b = mk('bv', h, sort='i')
            for k in reversed(range(self.n(N, be))):
                if self.ev(body, {**be, b: k}):
                    return k
            return -1
        if op == 'nth':
            h, body, k = t.args
            b = mk('bv', h, sort='i')
            want = self.ev(k, be)
            for j in range(60):
                if self.ev(body, {**be, b: j}) == 1:
                    if want == 0:
                        return j
                    want -= 1
            raise Uneval('nth')
        if op == 'iter':
            h, body, init, j = t.args
            from .solve import _bvsort
            b = mk('bv', h, sort=_bvsort(body, h))
            x = self.ev(init, be)
            for _ in range(self.n(j, be)):
                x = self.ev(body, {**be, b: x})
            return x
        if op == 'fold':
            i, n, h, srt, body, inits = t.args
            cur = [self.ev(x, be) for x in inits]
            bs = [mk('bv', h + 1 + k, sort=s) for k, s in enumerate(srt)]
            b0 = mk('bv', h, sort='i')
            for k in range(self.n(n, be)):
                e = dict(be)
                e[b0] = k
                e.update(zip(bs, cur))
                cur = [self.ev(x, e) for x in body]
            return cur[i]
        if op == 'fresh':
            return ('fresh', t.args[0]) + tuple(self.q(self.ev(a, be)) for a in t.args[1:])
        if op in ('addr', 'loc', 'closure', 'fnptr'):
            return ('addr', repr(t.id))
        if op == 'inv0':
            raise Uneval('division by zero')
        raise Uneval(op)

    def n(self, N, be):
        v = self.ev(N, be)
        if not isinstance(v, (int, float)) or v != int(v) or v > 60:
            raise Uneval('count')
        return int(v)

    def app(self, t, be):
        name = t.args[0]
        if name == 'keyat' or (isinstance(name, str) and (name.startswith('inv~') or name in ('allocidx', 'iteridx'))):
            f = self.fixed.get(name)
            if f is None:
                raise Uneval(name)
        f = EXACT.get(name)
        if f is not None:
            return f(self, t, be)
        f = self.fixed.get(name)
        if f is not None and isinstance(name, str) and name.startswith('.'):
            r = f(self, t)
            if r is not None:
                return r
        unit = _unit_of(t)
        if unit is not None and t.sort == 'r':
            if self.units:
                w = self.units.get(tuple(self._akey(a, be) for a in unit))
                if w is not None:
                    return w[unit.index(t)]
            raw = [self.real('unit', *self._akey(a, be)) for a in unit]
            nn = math.sqrt(sum(x * x for x in raw))
            return raw[unit.index(t)] / nn
        args = [self.akey(a, be) for a in t.args[1:]]
        if name == 'cat':
            ps = []
            for a in args:
                for x in (a[1] if isinstance(a, tuple) and a[0] == 'cat' else (a,)):
                    if isinstance(x, str) and ps and isinstance(ps[-1], str):
                        ps[-1] += x
                    elif x != '':
                        ps.append(x)
            return ps[0] if len(ps) == 1 else ('cat', tuple(ps)) if ps else ''
        if name in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'sqrt', 'log', 'floor', 'ceil', 'trunc', 'sinh', 'cosh', 'tanh'):
            v = args[0]
            if name in ('floor', 'ceil', 'trunc') and isinstance(v, float) and v != round(v) and abs(v - round(v)) < 1e-9:
                raise Uneval('boundary')
            try:
                return getattr(math, name)(v)
            except (ValueError, OverflowError):
                raise Uneval('domain of ' + name)
        if name == 'atan2':
            y, x = args
            if y == 0:
                y = 0.0
            elif abs(y) < 1e-9 and x < 1e-9:
                raise Uneval('boundary')
            return math.atan2(y, x)
        if name == 'fmod':
            try:
                return math.fmod(*args)
            except (ValueError, OverflowError):
                raise Uneval('fmod')
        if name == 'round':
            return math.copysign(math.floor(abs(args[0]) + 0.5), args[0])
        if name == 'cbrt':
            return math.copysign(abs(args[0]) ** (1 / 3), args[0])
        if name in ('log2', 'log10'):
            try:
                return getattr(math, name)(args[0])
            except (ValueError, OverflowError):
                raise Uneval('domain of ' + name)
        if name == 'hypot':
            return math.hypot(*args)
        if name == 'pow':
            try:
                return math.pow(*args)
            except (ValueError, OverflowError):
                raise Uneval('pow')
        if name == 'abs':
            return abs(args[0])
        if name == 'pi':
            return math.pi
        if name == 'inf':
            return 1.0e30
        if name == 'idiv':
            if args[1] == 0:
                raise Uneval('idiv')
            return args[0] // args[1]
        if name == 'cat':
            out = []
            for a in args:
                out.append(a)
            return ('cat',) + tuple(out)
        return self.atom(name, t.sort, args)

    def _akey(self, a, be):
        return (a.args[0],) + tuple(self.q(self.akey(x, be)) for x in a.args[1:])

    def akey(self, a, be):
        """argument of an uninterpreted function (may itself be a root without sort, or a map)"""
        if isinstance(a, T):
            if a.op == 'app' and a.sort is None:
                return (a.args[0],) + tuple(self.q(self.akey(x, be)) for x in a.args[1:])
            if a.op in ('lam', 'tup', 'vec', 'mat', 'dict', 'struct'):
                return self.structkey(a, be)
            return self.ev(a, be)
        return a

    def structkey(self, a, be):
        if a.op == 'lam':
            h, sorts, body = a.args
            if all(s == 'i' for s in sorts) and len(sorts) <= 2:
                rng = range(0, 4)
                out = []
                import itertools
                for ks in itertools.product(rng, repeat=len(sorts)):
                    e = dict(be)
                    for i, k in enumerate(ks):
                        e[mk('bv', h + i, sort='i')] = k
                    out.append(self.q(self.akey(body, e)))
                return ('lam',) + tuple(out)
            raise Uneval('map argument')
        if a.op == 'struct':
            return ('struct',) + tuple(self.q(self.akey(v, be)) for _n, v in a.args[1])
        return (a.op,) + tuple(self.q(self.akey(v, be)) if isinstance(v, T) else v for v in a.args)

    def cond(self, c, be):
        op = c.op
        if op in ('lt0', 'le0', 'eq0'):
            v = self.ev(c.args[0], be)
            if not isinstance(v, (int, float)):
                raise Uneval('non-number')
            if isinstance(v, float) and abs(v) < 1e-9:
                if op == 'eq0':
                    return True
                raise Uneval('boundary')
            return v < 0 if op == 'lt0' else v <= 0 if op == 'le0' else v == 0
        if op == 'eq':
            return self.q(self.ev(c.args[0], be)) == self.q(self.ev(c.args[1], be))
        if op == 'truth':
            return bool(self.ev(c.args[0], be))
        if op == 'exists':
            return self.ev(c, be)
        raise Uneval(op)


class Texts(Model):
    """interpretation of every text by an actual text, of the functions on texts by what they compute"""
    POOL = ['a', 'ab', 'b', 'abc', '', 'B', 'ba', 'a b']

    def atom(self, name, sort, args):
        if sort == 's' and not args:
            return self.POOL[self.h(name) % (3 + self.h('pool') % 6)]
        if name in ('strprefix', 'strless', 'strlen') and all(isinstance(a, str) for a in args):
            return args[1].startswith(args[0]) if name == 'strprefix' else args[0] < args[1] if name == 'strless' else len(args[0])
        if sort == 's' or any(isinstance(a, str) or isinstance(a, tuple) and a[:1] in (('s',), ('cat',)) for a in args):
            raise Uneval(name)
        return Model.atom(self, name, sort, args)


def mentions_app(name, *ts):
    seen, todo = set(), [t for t in ts if isinstance(t, T)]
    while todo:
        t = todo.pop()
        if isinstance(t, tuple):
            todo += [a for a in t if isinstance(a, (T, tuple))]
            continue
        if t in seen:
            continue
        seen.add(t)
        if t.op == 'app' and t.args[0] == name:
            return True
        todo += [a for a in t.args if isinstance(a, (T, tuple))]
    return False


def _unit_of(t):
    for w, xyz in _unit_index(t):
        return tuple(xyz) + (w,)
    return None


def _unit_index(t):
    u = TM._unit_w
    if t in u:
        return [(t, u[t])]
    if t.op == 'app' and isinstance(t.args[0], str) and t.args[0] in ('.x', '.y', '.z'):
        w = mk('app', '.w', *t.args[1:], sort='r')
        if w in u:
            return [(w, u[w])]
    m = getattr(_unit_index, 'rev', None)
    if m is None or m[0] != len(u):
        rev = {}
        for w, xyz in u.items():
            for a in xyz:
                rev[a] = w
        m = (len(u), rev)
        _unit_index.rev = m
    w = m[1].get(t)
    return [(w, u[w])] if w is not None else []


# ---------------------------------------------------------------- pairing
def pairs(a, b, path='', guard=TRUE, out=None):
    """scalar pairs of two structured values"""
    out = [] if out is None else out
    if a is b:
        out.append((path, a, b, guard))
        return out
    if a.op == 'ite' and any_struct(a) or b.op == 'ite' and any_struct(b):
        x = a if a.op == 'ite' and any_struct(a) else b
        c = ite_atom(x.args[0])
        for cc, val in ((c, True), (b_not(c), False)):
            g = b_and(guard, cc)
            if g is FALSE:
                continue
            pairs(restrict(a, x.args[0], val), restrict(b, x.args[0], val), path, g, out)
        return out
    if a.op == b.op == 'struct':
        fa, fb = dict(a.args[1]), dict(b.args[1])
        for n in fa:
            if n in fb:
                pairs(fa[n], fb[n], path + '.' + n, guard, out)
        return out
    if a.op == b.op == 'vec':
        if a.args[0] is b.args[0] and is_const(a.args[0]) and const_val(a.args[0]) <= 16:
            for i in range(int(const_val(a.args[0]))):
                pairs(lam_read(a.args[1], [const(i)]), lam_read(b.args[1], [const(i)]), '%s[%d]' % (path, i), guard, out)
            return out
        pairs(a.args[0], b.args[0], path + '.size', guard, out)
        pairs_lam(a.args[1], b.args[1], path, guard, out, lambda ks: b_and(le(ZERO, ks[0]), lt(ks[0], a.args[0])))
        return out
    if a.op == b.op == 'mat':
        pairs(a.args[0], b.args[0], path + '.rows', guard, out)
        pairs(a.args[1], b.args[1], path + '.cols', guard, out)
        r, c = const_val(a.args[0]) if a.args[0].op == 'poly' else None, const_val(a.args[1]) if a.args[1].op == 'poly' else None
        if r is not None and r <= 8:
            for i in range(int(r)):
                La, Lb = a.args[2], b.args[2]
                if c is not None and c <= 8:
                    for j in range(int(c)):
                        pairs(lam_read(La, [const(i), const(j)]), lam_read(Lb, [const(i), const(j)]), '%s[%d,%d]' % (path, i, j), guard, out)
                else:
                    K = fresh_keys(('i',), La, Lb, guard)
                    k = kval(K[0])
                    g = b_and(guard, b_and(le(ZERO, k), lt(k, a.args[1])))
                    pairs(lam_read(La, [const(i), k]), lam_read(Lb, [const(i), k]), '%s[%d,k]' % (path, i), g, out)
            return out
        pairs_lam(a.args[2], b.args[2], path, guard, out,
                  lambda ks: b_and(b_and(le(ZERO, ks[0]), lt(ks[0], a.args[0])), b_and(le(ZERO, ks[1]), lt(ks[1], a.args[1]))))
        return out
    if a.op == b.op == 'dict':
        pairs(a.args[0], b.args[0], path + '.size', guard, out)
        pairs_lam(a.args[1], b.args[1], path + '.has', guard, out, lambda ks: TRUE)
        pairs_lam(a.args[2], b.args[2], path, guard, out, lambda ks: lam_read(a.args[1], ks))
        return out
    if a.op == b.op == 'lam':
        pairs_lam(a, b, path, guard, out, lambda ks: TRUE)
        return out
    out.append((path, a, b, guard))
    return out


def pairs_lam(La, Lb, path, guard, out, dom):
    if La is Lb:
        out.append((path + '[k]', La, Lb, guard))
        return
    if La.op != 'lam' or Lb.op != 'lam' or La.args[1] != Lb.args[1]:
        if La.op == 'ite' or Lb.op == 'ite':
            pairs(La, Lb, path, guard, out)
            return
        out.append((path, La, Lb, guard))
        return
    ks = fresh_keys(La.args[1], La, Lb, guard)
    vs = [kval(k) for k in ks]
    pairs(lam_read(La, vs), lam_read(Lb, vs), path + '[k]', b_and(guard, dom(vs)), out)


def under(t, g):
    """t where only the case g matters"""
    for _ in range(3):
        from .interp import cube_lits
        ls = cube_lits(g)
        t2 = t
        for a, v in ls:
            t2 = restrict(t2, a, v)
        if t2 is t:
            break
        t = t2
    return t


def conditions(t, out, seen):
    if t in seen:
        return
    seen.add(t)
    if t.op == 'ite':
        out.add(t.args[0])
        conditions(t.args[1], out, seen)
        conditions(t.args[2], out, seen)


def partitions(xs):
    if not xs:
        yield []
        return
    for p in partitions(xs[1:]):
        yield [[xs[0]]] + p
        for i in range(len(p)):
            yield p[:i] + [[xs[0]] + p[i]] + p[i + 1:]


def by_partition(a, b, guard):
    """a == b in every way the compared texts can be equal or distinct"""
    ats = set()
    seen = set()
    for t in (a, b, guard):
        conditions(t, ats, seen)
    eqs = [t for t in ats if t.op == 'eq' and all(x.op in ('app', 'str') for x in t.args)]
    xs = sorted({x for t in eqs for x in t.args}, key=lambda x: x.id)
    if len(eqs) < 2 or len(xs) > 7:
        return False
    for p in partitions(xs):
        cls = {x: i for i, c in enumerate(p) for x in c}
        if any(sum(x.op == 'str' for x in c) > 1 for c in p):
            continue
        sub = {x: sorted(c, key=lambda y: (y.op != 'str', y.id))[0] for c in p for x in c if len(c) > 1}

        def case(t):
            for q in eqs:
                t = restrict(t, q, cls[q.args[0]] == cls[q.args[1]])
            return t
        g = case(guard)
        if g is FALSE:
            continue
        x, y = case(a), case(b)
        if x is y:
            continue
        x, y = subst(x, sub), subst(y, sub)
        if x is not y and under(x, g) is not under(y, g):
            return False
    return True


EQ, NEQ, UND = 'equal', 'different', 'undecided'

IRANGES = [(0, 3), (0, 7), (0, 1), (1, 4), (0, 2), (0, 5), (2, 9), (0, 15)]


def same(a, b, guard=TRUE, seed=1, trials=96, fixed=None, need=10, tol=1e-6):
    """(status, detail) for two scalar terms under guard"""
    if guard is FALSE or a is b:
        return EQ, None
    a2, b2 = under(a, guard), under(b, guard)
    if a2 is b2:
        return EQ, None
    x, y = mux(guard, a2, ZERO if num_like(a2) else a2), None
    if guard is not TRUE:
        ga, gb = guarded(guard, a2), guarded(guard, b2)
        if ga is gb:
            return EQ, None
        if has_unk(a2) or has_unk(b2):
            a2, b2 = ga, gb         # only what the guard leaves
    if a2.op in ('poly', 'ite') and b2.op in ('poly', 'ite') and leaf_sort(a2) == 'r':
        d = lift('clearden', lambda p, q: clear_denominators(p_sub(p, q)) if p.op == q.op == 'poly' else mk('other'), a2, b2)
        if d is ZERO or (guard is not TRUE and guarded(guard, under(d, guard)) is guarded(guard, ZERO)):
            return EQ, None
    if has_unk(a2) or has_unk(b2):
        return UND, 'unknown value: %s' % why_unk(a2, b2)
    diff = None
    ok = 0
    un = None
    nd = 0
    texts = mentions_app('strprefix', a2, b2, guard)
    if texts:
        trials = max(trials, 300)
    for i in range(trials):
        m = (Texts if texts else Model)((seed, i), IRANGES[i % len(IRANGES)], 3, fixed)
        try:
            if guard is not TRUE and not m.ev(guard):
                continue
            va, vb = m.ev(a2), m.ev(b2)
        except Uneval as e:
            un = str(e)
            continue
        except (OverflowError, ZeroDivisionError) as e:
            un = str(e)
            continue
        ok += 1
        if differs(va, vb, tol):
            nd += 1
            if diff is None:
                diff = 'assignment #%d: %s instead of %s' % (i, fmt(va), fmt(vb))
        if nd >= 1:
            return NEQ, diff
    r = directed(a2, b2, guard, seed, fixed, tol) if not texts else None
    if r is not None:
        return NEQ, r
    if by_partition(a2, b2, guard):
        return EQ, None
    from . import seek as SK
    r = SK.seek(a2, b2, guard, seed, fixed, tol, Texts if texts else Model)
    if r is not None:
        return NEQ, r
    return UND, 'not in normal form; %d interpretations agree%s' % (ok, ' (%s)' % un if un else '')


class Forcing:
    """interpretation extended literal by literal along a path of a decision term"""

    def __init__(self, m):
        self.m = m
        self.iv = {}

    def force(self, t, v):
        m = self.m
        if t.op != 'app' or not isinstance(t.args[0], str) or t.args[0] in EXACT or t.args[0] in m.fixed or t.args[0] in ('cat', 'keyat', 'size'):
            return False
        try:
            key = (t.args[0], tuple(m.q(m.akey(a, {})) for a in t.args[1:]))
        except (Uneval, OverflowError, ZeroDivisionError):
            return False
        if key in m.forced:
            return m.forced[key] == v
        m.forced[key] = v
        m.memo.clear()
        return True

    def bound(self, c, v):
        """k x + d < 0, <= 0 or == 0 with one input x: keep an interval for x and choose x inside it"""
        m = self.m
        p = c.args[0]
        if p.op != 'poly':
            return None
        d, x, k = 0, None, None
        for mono, co in p.args[0]:
            if not mono:
                d = co
            elif len(mono) == 1 and mono[0][1] == 1 and x is None:
                (x, _e), k = mono[0], co
            else:
                return None
        if x is None or x.op != 'app' or x.sort != 'r' or _unit_of(x) is not None:
            return None
        if not isinstance(x.args[0], str) or not x.args[0].startswith(('any:', 'arg:', '.', 'read ', 'NUMBER', 'COMPONENT', 'SHADE')):
            return None
        if not isinstance(x.args[0], str) or x.args[0] in EXACT or x.args[0] in m.fixed or x.args[0] in ('keyat', 'size'):
            return None
        key = (x.args[0], tuple(m.q(m.akey(a, {})) for a in x.args[1:]))
        lo, hi = self.iv.get(key, (-math.inf, math.inf))
        if key in m.forced and key not in self.iv:
            return None
        at = float(-d / k)
        e = 1 if x.sort == 'i' else 1e-3
        if c.op == 'eq0':
            if v:
                lo, hi = max(lo, at), min(hi, at)
        else:
            below = (k > 0) == v          # x on the lower side
            touch = (c.op == 'le0') == v  # the bound itself allowed
            if below:
                hi = min(hi, at if touch else at - e)
            else:
                lo = max(lo, at if touch else at + e)
        if lo > hi:
            return False
        if lo == -math.inf and hi == math.inf:
            w = m.ev(x)
        elif lo == -math.inf:
            w = hi - (0 if m.h('edge', x.id) % 3 == 0 else 1)
        elif hi == math.inf:
            w = lo + (0 if m.h('edge', x.id) % 3 == 0 else 1)
        else:
            w = lo + (hi - lo) * (0, 0.5, 1, 0.25)[m.h('edge', x.id) % 4]
        if x.sort == 'i':
            w = math.floor(w)
            if w < lo:
                return False
        if c.op == 'eq0' and not v and abs(w - at) < 1e-12:
            w = (w + hi) / 2 if hi < math.inf else w + 1
            if w > hi or abs(w - at) < 1e-12:
                return False
        self.iv[key] = (lo, hi)
        m.forced[key] = w
        m.memo.clear()
        return bool(m.cond(c, {})) == v

    def literal(self, c, v):
        if c.op in ('lt0', 'le0', 'eq0'):
            try:
                r = self.bound(c, v)
                if r is not None:
                    return r
            except (Uneval, OverflowError, ZeroDivisionError):
                return True
        return self.literal1(c, v)

    def literal1(self, c, v):
        """make c come out as v if that is free to choose; False when it cannot"""
        m = self.m
        try:
            if bool(m.cond(c, {})) == v:
                # keep it that way
                if c.op == 'truth' and c.args[0].op == 'app':
                    self.force(c.args[0], m.ev(c.args[0]))
                elif c.op == 'eq' and v:
                    for x in c.args:
                        if x.op == 'app':
                            self.force(x, m.ev(x))
                return True
            if c.op == 'truth':
                t = c.args[0]
                if t.op != 'app':
                    return False
                if t.sort == 'b':
                    return self.force(t, v)
                if t.sort == 'p':
                    return self.force(t, ('p', m.h('forced', t.id)) if v else None)
                return False
            if c.op == 'eq' and v:
                x, y = c.args
                if x.op != 'app':
                    x, y = y, x
                return x.op == 'app' and self.force(x, m.ev(y)) or (y.op == 'app' and self.force(y, m.ev(x)))
        except (Uneval, OverflowError, ZeroDivisionError):
            return True
        return c.op in ('lt0', 'le0', 'eq0')     # left to chance

    def save(self):
        return dict(self.m.forced), dict(self.iv)

    def back(self, s):
        self.m.forced, self.iv = s
        self.m.memo.clear()


def directed(a, b, guard, seed, fixed, tol, budget=400):
    """search for an interpretation that tells a and b apart, along the paths on which they end in different leaves"""
    if has_unk(a) or has_unk(b):
        return None
    try:
        d = lift('differ', lambda x, y: FALSE if x is y else TRUE, a, b)
        if guard is not TRUE:
            d = b_and(guard, d)
    except (Blowup, RecursionError):
        return None
    if d is FALSE:
        return None
    left = [budget]
    for rnd in range(4):
        m = Model((seed, 'directed', rnd), IRANGES[rnd], 3, fixed)
        F = Forcing(m)
        found = []

        def go(t):
            if found or left[0] <= 0:
                return
            if t is TRUE:
                left[0] -= 1
                try:
                    m.memo.clear()
                    m.steps = 0
                    if guard is not TRUE and not m.ev(guard):
                        return
                    va, vb = m.ev(a), m.ev(b)
                except (Uneval, OverflowError, ZeroDivisionError):
                    return
                if differs(va, vb, tol):
                    found.append('%s instead of %s when %s' % (fmt(va), fmt(vb), '; '.join(show(c) if v else 'not ' + show(c) for c, v in path)[:1500]))
                return
            if t.op != 'ite':
                return
            c = t.args[0]
            order = (True, False)
            if c.op == 'eq':
                order = (True, False)
            for v in order:
                nx = t.args[1 if v else 2]
                if nx is FALSE:
                    continue
                s = F.save()
                left[0] -= 0.05
                if F.literal(c, v):
                    path.append((c, v))
                    go(nx)
                    path.pop()
                F.back(s)
                if found:
                    return
        path = []
        go(d)
        if found:
            return found[0]
        left[0] = max(left[0], budget / 4)
    return None


def num_like(t):
    return leaf_sort(t) in ('i', 'r')


def guarded(g, t):
    s = leaf_sort(t)
    if s == 'b':
        return b_and(g, t)
    return mux(g, t, mk('app', 'other', sort='p') if s in ('p', 's') else num(mk('app', 'other', sort=s)))


def why_unk(*ts):
    out = []

    def f(x):
        if x.op == 'unk':
            out.append(str(x.args[1]))
        elif x.op in ('undef', 'rd'):
            out.append(x.op)
        return False
    for t in ts:
        contains(t, f)
    return ', '.join(sorted(set(out))[:4])


def fmt(v):
    if isinstance(v, float):
        return '%.9g' % v
    if isinstance(v, tuple):
        return '<%s>' % v[0]
    return str(v)


def differs(a, b, tol=1e-6):
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) != bool(b) if isinstance(a, (bool, int)) and isinstance(b, (bool, int)) else a != b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a != a or b != b:
            return False
        return abs(a - b) > tol * (1 + abs(a) + abs(b))
    return a != b


def compare(a, b, guard=TRUE, seed=1, fixed=None, path='', trials=96, fixeds=None, tol=None):
    """list of (path, status, detail, found, required, guard) over all scalar parts"""
    out = []
    for p, x, y, g in pairs(a, b, path, guard):
        s, d = same(x, y, g, seed, trials, fixed=fixed, tol=tol or 1e-6)
        for fx in fixeds or ():
            if s != UND:
                break
            s, d = same(x, y, g, seed, trials, fixed=fx, tol=tol or 1e-6)
        out.append((p, s, d, x, y, g))
    return out
