"""Hash-consed value terms, gated joins (ordered decision terms) and the
algebraic normal form of real/integer values.

A value is a decision term: `ite(cond, a, b)` nodes with a global order on the
atomic conditions, and leaves.  Numeric leaves are Laurent polynomials with
rational coefficients over atoms, reduced by the relations
    sin^2 = 1 - cos^2,  sqrt(p)^2 = p,  w^2 = 1 - x^2 - y^2 - z^2 (declared unit quaternions)
so two values that are equal as polynomial functions are the same object.
"""
from fractions import Fraction
import sys
sys.setrecursionlimit(100000)

_table = {}
_count = [0]


class T:
    __slots__ = ('op', 'args', 'id', 'sort', '_h', '_sup', '_free', '_hgt', '_ns')

    def __repr__(self):
        return show(self)


def mk(op, *args, sort=None):
    key = (op, args, sort)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.sort = sort
        _count[0] += 1
        t.id = _count[0]
        t._sup = None
        t._free = None
        t._hgt = None
        t._ns = None
        _table[key] = t
    return t


def reset():
    """drop every memo (used between independent analyses)"""
    for c in _caches:
        c.clear()


_caches = []


def cache():
    d = {}
    _caches.append(d)
    return d


class Blowup(Exception):
    pass


TRUE = mk('b', True)
FALSE = mk('b', False)
NULL = mk('null', sort='p')


def B(v):
    return TRUE if v else FALSE


# ------------------------------------------------------------------ atoms
def app(name, *args, sort='r'):
    return mk('app', name, *args, sort=sort)


def sym(name, sort='r'):
    return mk('app', name, sort=sort)


def is_atomlike(t):
    return t.op in ('app', 'lv', 'bv', 'sum', 'first', 'phi', 'unk', 'fn', 'inv', 'count', 'idiv')


# ------------------------------------------------------------------ polynomials
def _mono_key(m):
    return tuple((a.id, e) for a, e in m)


def poly_from_dict(d):
    items = tuple(sorted(((m, c) for m, c in d.items() if c != 0), key=lambda mc: _mono_key(mc[0])))
    return mk('poly', items)


def const(c):
    if isinstance(c, float):
        c = Fraction(c)
    c = Fraction(c)
    return mk('poly', (((), c),) if c != 0 else ())


ZERO = const(0)
ONE = const(1)


def is_const(t):
    return t.op == 'poly' and (len(t.args[0]) == 0 or (len(t.args[0]) == 1 and t.args[0][0][0] == ()))


def const_val(t):
    if t.op != 'poly':
        return None
    if len(t.args[0]) == 0:
        return Fraction(0)
    if len(t.args[0]) == 1 and t.args[0][0][0] == ():
        return t.args[0][0][1]
    return None


def num(t):
    """numeric leaf -> poly"""
    if t.op == 'poly':
        return t
    if t is TRUE:
        return ONE
    if t is FALSE:
        return ZERO
    return mk('poly', ((((t, 1),), Fraction(1)),))


def atom_of(t):
    """the atom when poly is exactly one atom, else None"""
    if t.op == 'poly' and len(t.args[0]) == 1:
        m, c = t.args[0][0]
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    if t.op not in ('poly', 'ite', 'b'):
        return t
    return None


_unit_w = {}     # atom w -> (x, y, z) atoms


def declare_unit(*xs):
    """sum of squares of the given atoms is 1"""
    _unit_w[xs[-1]] = tuple(xs[:-1])


def _needs_red(a, e):
    if e >= 2 and a.op == 'app' and a.args[0] in ('sin', 'sqrt'):
        return True
    if e >= 2 and a in _unit_w:
        return True
    if e <= -2 and a.op == 'app' and a.args[0] == 'sqrt':
        return True
    if e < 0 and a.op == 'inv':
        return True
    if a.op == 'ind' and (e > 1):
        return True
    return False


def _mono_mul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        n = d.get(a, 0) + e
        if n == 0:
            d.pop(a, None)
        else:
            d[a] = n
    return tuple(sorted(d.items(), key=lambda ae: ae[0].id))


_padd = cache()
_pmul = cache()


def p_add(a, b):
    if a.id > b.id:
        a, b = b, a
    k = (a, b)
    r = _padd.get(k)
    if r is None:
        d = dict(a.args[0])
        for m, c in b.args[0]:
            n = d.get(m, 0) + c
            if n == 0:
                d.pop(m, None)
            else:
                d[m] = n
        r = poly_from_dict(d)
        _padd[k] = r
    return r


def p_scale(a, c):
    if c == 1:
        return a
    return poly_from_dict({m: k * c for m, k in a.args[0]})


def p_neg(a):
    return p_scale(a, -1)


def p_sub(a, b):
    return p_add(a, p_neg(b))


LIMIT = [60000]


def p_mul(a, b):
    if a.id > b.id:
        a, b = b, a
    k = (a, b)
    r = _pmul.get(k)
    if r is not None:
        return r
    la, lb = len(a.args[0]), len(b.args[0])
    if la * lb > LIMIT[0]:
        raise Blowup('polynomial product of %d x %d terms' % (la, lb))
    d = {}
    for m1, c1 in a.args[0]:
        for m2, c2 in b.args[0]:
            m = _mono_mul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    r = _reduce(d)
    _pmul[k] = r
    return r


def _reduce(d):
    out = {}
    pend = None
    for m, c in d.items():
        if c == 0:
            continue
        bad = None
        for a, e in m:
            if _needs_red(a, e):
                bad = (a, e)
                break
        if bad is None:
            out[m] = out.get(m, 0) + c
        else:
            if pend is None:
                pend = []
            pend.append((m, c, bad))
    res = poly_from_dict(out)
    if pend:
        acc = {}
        # group by (atom, exponent) to keep the products small
        groups = {}
        for m, c, (a, e) in pend:
            rest = tuple((x, y) for x, y in m if x is not a)
            groups.setdefault((a, e), {})
            g = groups[(a, e)]
            g[rest] = g.get(rest, 0) + c
        for (a, e), g in groups.items():
            restp = _reduce(g)
            res = p_add(res, p_mul(restp, _red_atom(a, e)))
    return res


def _red_atom(a, e):
    if a.op == 'ind':
        return num(a)
    if a.op == 'inv':                      # inv(d)^-n = d^n
        return p_pow(a.args[0], -e)
    if a.op == 'app' and a.args[0] == 'sin':
        c = num(fn_atom('cos', a.args[1]))
        base = p_sub(ONE, p_mul(c, c))
        r = p_pow(base, e // 2)
        if e % 2:
            r = p_mul(r, num(a))
        return r
    if a.op == 'app' and a.args[0] == 'sqrt':
        p = a.args[1]
        if e >= 2:
            r = p_pow(p, e // 2)
            return p_mul(r, num(a)) if e % 2 else r
        n = -e
        r = p_pow(p_inv(p), n // 2)
        if n % 2:
            r = p_mul(r, mk('poly', ((((a, -1),), Fraction(1)),)))
        return r
    if a in _unit_w:
        base = ONE
        for q in _unit_w[a]:
            base = p_sub(base, p_mul(num(q), num(q)))
        r = p_pow(base, e // 2)
        if e % 2:
            r = p_mul(r, num(a))
        return r
    raise AssertionError


def p_pow(a, n):
    r = ONE
    while n:
        if n & 1:
            r = p_mul(r, a)
        n >>= 1
        if n:
            a = p_mul(a, a)
    return r


def p_inv(a):
    """1/a"""
    items = a.args[0]
    if len(items) == 0:
        return num(mk('inv0', sort='r'))
    if len(items) == 1:
        m, c = items[0]
        d = {tuple((x, -e) for x, e in m): Fraction(1) / c}
        return _reduce(d)
    lead = items[0][1]
    body = p_scale(a, Fraction(1) / lead)
    return mk('poly', ((((mk('inv', body, sort='r'), 1),), Fraction(1) / lead),))


def p_div(a, b):
    cb = const_val(b)
    if cb is not None and cb != 0:
        return p_scale(a, Fraction(1) / cb)
    if a is b:
        return ONE
    return p_mul(a, p_inv(b))


def clear_denominators(p):
    """p multiplied by its denominators (p is zero iff the result is, where p is defined)"""
    for _ in range(6):
        d = {}
        for m, c in p.args[0]:
            for a, e in m:
                if a.op == 'inv' and e > 0:
                    d[a] = max(d.get(a, 0), e)
                elif e < 0:
                    d[a] = max(d.get(a, 0), -e)
        if not d:
            return p
        for a, e in d.items():
            f = p_pow(a.args[0], e) if a.op == 'inv' else p_pow(num(a), e)
            acc = {}
            rest = ZERO
            # cancel before multiplying so that reduction does not hide the factor
            groups = {}
            for m, c in p.args[0]:
                k = dict(m).get(a, 0)
                mm = tuple((x, y) for x, y in m if x is not a)
                groups.setdefault(k, {})[mm] = groups.get(k, {}).get(mm, 0) + c
            for k, g in groups.items():
                g = _reduce(g)
                n = e - k if a.op == 'inv' else e + k
                b = a.args[0] if a.op == 'inv' else num(a)
                rest = p_add(rest, p_mul(g, p_pow(b, n)))
            p = rest
    return p


def lead_coef(p):
    """sign-defining coefficient: that of the highest monomial (not the constant)"""
    items = p.args[0]
    for m, c in items:
        if m != ():
            return c
    return items[0][1] if items else Fraction(0)


def atoms_in_poly(p):
    s = set()
    for m, _ in p.args[0]:
        for a, _e in m:
            s.add(a)
    return s


# ------------------------------------------------------------------ known functions on numbers
def fn_atom(name, *args):
    return mk('app', name, *args, sort='r')


def _is_int_atom(a):
    return a.sort == 'i'


def poly_is_int(p):
    for m, c in p.args[0]:
        if c.denominator != 1:
            return False
        for a, e in m:
            if a.sort != 'i' or e < 0:
                return False
    return True


PI = mk('app', 'pi', sort='r')


def _trig_special(name, p):
    """sin/cos of multiples of pi/2 and of inverse functions"""
    if len(p.args[0]) != 1:
        return None
    (m, c), = p.args[0]
    if len(m) != 1 or m[0][1] != 1:
        return None
    a = m[0][0]
    if a is PI:
        k = c * 2
        if k.denominator != 1:
            return None
        k = int(k) % 4
        return const([0, 1, 0, -1][k] if name == 'sin' else [1, 0, -1, 0][k])
    if a.op != 'app' or a.args[0] not in ('asin', 'acos', 'atan', 'atan2') or c.denominator != 1 or abs(c) > 4:
        return None
    f = a.args[0]
    xs = a.args[1:]
    if any(x.op != 'poly' for x in xs):
        return None
    if f == 'asin':
        s, k = xs[0], pure_fn('sqrt', p_sub(ONE, p_mul(xs[0], xs[0])))
    elif f == 'acos':
        k, s = xs[0], pure_fn('sqrt', p_sub(ONE, p_mul(xs[0], xs[0])))
    else:
        y, x = xs if f == 'atan2' else (xs[0], ONE)
        h = p_inv(pure_fn('sqrt', p_add(p_mul(x, x), p_mul(y, y))))
        s, k = p_mul(y, h), p_mul(x, h)
    S, C = ZERO, ONE
    for _ in range(abs(int(c))):
        S, C = p_add(p_mul(S, k), p_mul(C, s)), p_sub(p_mul(C, k), p_mul(S, s))
    if c < 0:
        S = p_neg(S)
    return S if name == 'sin' else C


def pure_fn(name, *args):
    """apply a known real function to polys (leaf level)"""
    if name == 'sin' or name == 'cos':
        p = args[0]
        c = const_val(p)
        if c is not None and c == 0:
            return ZERO if name == 'sin' else ONE
        r = _trig_special(name, p)
        if r is not None:
            return r
        neg = lead_coef(p) < 0
        if neg:
            p = p_neg(p)
        r = num(fn_atom(name, p))
        return p_neg(r) if (neg and name == 'sin') else r
    if name == 'tan':
        return p_div(pure_fn('sin', args[0]), pure_fn('cos', args[0]))
    if name == 'sqrt':
        p = args[0]
        c = const_val(p)
        if c is not None and c >= 0:
            import math
            n, dd = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and dd * dd == c.denominator:
                return const(Fraction(n, dd))
        if c is None:
            import math
            g = Fraction(math.gcd(*[abs(k.numerator) for _m, k in p.args[0]]), math.lcm(*[k.denominator for _m, k in p.args[0]]))
            # g = r^2 * t/d with t, d square free
            def split(n):
                r, k = 1, 2
                while k * k <= n and k < 1000:
                    while n % (k * k) == 0:
                        n //= k * k
                        r *= k
                    k += 1
                return r
            r = Fraction(split(g.numerator), split(g.denominator))
            if r != 1:
                return p_scale(num(fn_atom('sqrt', p_scale(p, 1 / (r * r)))), r)
        return num(fn_atom('sqrt', p))
    if name == 'pow':
        c = const_val(args[1])
        if c is not None and c.denominator == 1 and 0 <= c <= 8:
            return p_pow(args[0], int(c))
        if c is not None and c == Fraction(1, 2):
            return pure_fn('sqrt', args[0])
    if name in ('abs', 'fabs'):
        c = const_val(args[0])
        if c is not None:
            return const(abs(c))
        p = args[0]
        if lead_coef(p) < 0:
            p = p_neg(p)
        return num(mk('app', 'abs', p, sort='i' if poly_is_int(p) else 'r'))
    if name in ('asin', 'atan'):
        p = args[0]
        if const_val(p) == 0:
            return ZERO
        if lead_coef(p) < 0:
            return p_neg(num(fn_atom(name, p_neg(p))))
        return num(fn_atom(name, p))
    if name == 'atan2':
        y, x = args
        # common positive constant factor
        cs = [c for _m, c in y.args[0]] + [c for _m, c in x.args[0]]
        if cs:
            f = abs(cs[0])
            y, x = p_scale(y, 1 / f), p_scale(x, 1 / f)
        if const_val(y) == 0 and const_val(x) is not None and const_val(x) > 0:
            return ZERO
        return num(fn_atom('atan2', y, x))
    return num(fn_atom(name, *args))


# ------------------------------------------------------------------ conditions
def atom_lt(p):
    """bool term for p < 0 / via canonical atoms"""
    c = const_val(p)
    if c is not None:
        return B(c < 0)
    if all(a is PI for m, _c in p.args[0] for a, _e in m):
        import math
        v = sum(float(c) * math.prod(math.pi ** e for _a, e in m) for m, c in p.args[0])
        if abs(v) > 1e-9:
            return B(v < 0)
    isint = poly_is_int(p)
    k = _bound_decide(p)
    if k is not None:
        return B(k)
    f = abs(lead_coef(p))
    if isint:
        # content division with floor adjustment:  g*q + c < 0
        g = 0
        from math import gcd
        for m, c in p.args[0]:
            if m != ():
                g = gcd(g, int(abs(c)))
        if g > 1:
            c0 = 0
            d = {}
            for m, c in p.args[0]:
                if m == ():
                    c0 = int(c)
                else:
                    d[m] = c / g
            # q < -c0/g  <=> q <= ceil(-c0/g)-1 <=> q - ceil(-c0/g) < 0
            import math
            d[()] = Fraction(-math.ceil(Fraction(-c0, g)))
            p = poly_from_dict(d)
        if lead_coef(p) < 0:
            return b_not(atom_lt(p_sub(p_neg(p), ONE)))
        a = _nonneg_eq0(p)
        if a is not None:
            return a
        return ite_atom(mk('lt0', p))
    if f != 1:
        p = p_scale(p, 1 / f)
    if lead_coef(p) > 0:
        return ite_atom(mk('lt0', p))
    return b_not(ite_atom(mk('le0', p_neg(p))))


def atom_le(p):
    c = const_val(p)
    if c is not None:
        return B(c <= 0)
    if poly_is_int(p):
        return atom_lt(p_sub(p, ONE))
    f = abs(lead_coef(p))
    if f != 1:
        p = p_scale(p, 1 / f)
    if lead_coef(p) > 0:
        return ite_atom(mk('le0', p))
    return b_not(ite_atom(mk('lt0', p_neg(p))))


NONNEG_FN = {'size', 'len', 'cacheN'}


def atom_nonneg(a):
    if a.op == 'lv' or a.op == 'bv' or a.op == 'first':
        return True
    if a.op == 'app' and a.args[0] in NONNEG_FN:
        return True
    if a.op == 'app' and a.sort == 'i' and (str(a.args[0]).endswith('#u') or nonneg_names.get(a.args[0]) or a.args[0] in nonneg_forced):
        return True
    if a.op == 'sum' and a.sort == 'i':
        return sum_nonneg(a)
    return False


def sum_nonneg(a):
    body = a.args[2]

    def ok(t):
        if t.op == 'ite':
            return ok(t.args[1]) and ok(t.args[2])
        return poly_nonneg(t)
    return ok(body)


def poly_nonneg(p):
    if p.op != 'poly':
        return False
    for m, c in p.args[0]:
        if c < 0:
            return False
        for a, e in m:
            if not atom_nonneg(a):
                return False
    return True


def _nonneg_eq0(p):
    """n - 1 < 0  with n >= 0 integer  is  n == 0"""
    if const_val(p) is None:
        d = dict(p.args[0])
        if d.get((), 0) == -1:
            q = p_add(p, ONE)
            if poly_nonneg(q):
                return atom_eq0(q)
    return None


def _bound_decide(p):
    """decide p < 0 from 0 <= lv < N and from nonnegativity"""
    if poly_nonneg(p):
        return False
    # every negative: -p > 0 ?
    q = p_neg(p)
    if poly_nonneg(q) and dict(q.args[0]).get((), 0) > 0:
        return True
    # replace one upper-bounded variable by its bound:  lv <= N-1
    for m, c in p.args[0]:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ('lv', 'first'):
            a = m[0][0]
            N = lv_bound(a)
            if N is None:
                continue
            if c > 0:
                # p <= p[lv := N-1]
                q = p_add(p, p_scale(p_sub(p_sub(N, ONE), num(a)), c))
                if a in atoms_in_poly(q):
                    continue
                r = _neg_certain(q)
                if r:
                    return True
            else:
                # p >= p[lv := N-1]
                q = p_add(p, p_scale(p_sub(p_sub(N, ONE), num(a)), c))
                if a in atoms_in_poly(q):
                    continue
                if poly_nonneg(q):
                    return False
                r = _bound_decide(q)
                if r is False:
                    return False
    return None


def _neg_certain(q):
    c = const_val(q)
    if c is not None:
        return c < 0
    n = p_neg(q)
    if poly_nonneg(n) and dict(n.args[0]).get((), 0) > 0:
        return True
    return _bound_decide(q) is True


_lvN = {}


def lv_bound(a):
    if a.op == 'first':
        return a.args[0] if a.args[0].op == 'poly' else None
    N = _lvN.get(a)
    if N is not None and N.op == 'poly':
        return N
    return None


_lvc = [0]


def new_lv(N=None, hint=''):
    _lvc[0] += 1
    v = mk('lv', _lvc[0], sort='i')
    if N is not None:
        _lvN[v] = N
    return v


def atom_eq0(p):
    c = const_val(p)
    if c is not None:
        return B(c == 0)
    if poly_is_int(p):
        if _bound_decide(p) is True:            # p < 0
            return FALSE
        if _bound_decide(p_neg(p)) is True:     # p > 0
            return FALSE
    f = lead_coef(p)
    p = p_scale(p, 1 / f)
    if len(p.args[0]) == 1:
        m = p.args[0][0][0]
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'app' and m[0][0].args[0] == 'sqrt':
            return atom_eq0(m[0][0].args[1])
    if poly_is_int(p) is False and all(a.sort == 'i' for a in atoms_in_poly(p)):
        l = 1
        for _m, c in p.args[0]:
            l = l * c.denominator // __import__('math').gcd(l, c.denominator)
        p = p_scale(p, l)
    # n*m == 0 keep as is
    return ite_atom(mk('eq0', p))


def ite_atom(c):
    return _ite(c, TRUE, FALSE)


def leaf_eq(a, b):
    """equality of two non-numeric leaves"""
    if a is b:
        return TRUE
    if a.op == 'b' and b.op == 'b':
        return FALSE
    if a.op in ('poly',) or b.op in ('poly',):
        return atom_eq0(p_sub(num(a), num(b)))
    if a.op == 'str' and b.op == 'str':
        return B(a.args == b.args)
    if _distinct(a, b):
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return ite_atom(mk('eq', a, b))


NONNULL_FN = {'at_nn', 'mapval', 'this', 'addr', 'cstr'}


def is_nonnull(a):
    if a.op in ('fresh', 'addr', 'str', 'struct', 'arr', 'map', 'lam', 'closure'):
        return True
    if a.op == 'app' and (a.args[0] in NONNULL_FN or a.sort == 's' and a.args[0].startswith('any:')):
        return True
    if a.op == 'cat':
        return True
    if a in _nonnull:
        return True
    for f in _nonnull_preds:
        if f(a):
            return True
    return False


_nonnull = set()
_nonnull_preds = []
_distinct_preds = []


def _distinct(a, b):
    if a is NULL:
        return is_nonnull(b)
    if b is NULL:
        return is_nonnull(a)
    if a.op == 'fresh' and b.op == 'fresh':
        if a.args[0] != b.args[0]:
            return True
        # same site, possibly different iterations
        ds = [leaf_eq(x, y) for x, y in zip(a.args[1:], b.args[1:])]
        if any(d is FALSE for d in ds):
            return True
        return False
    if a.op == 'fresh' and not _mentions_fresh_unknown(b):
        return True
    if b.op == 'fresh' and not _mentions_fresh_unknown(a):
        return True
    if a.op == 'addr' and b.op == 'addr':
        if a.args[0] != b.args[0]:
            return True
    elif a.op == 'addr' or b.op == 'addr':
        o = b if a.op == 'addr' else a
        if o.op == 'app':
            return True
    for f in _distinct_preds:
        r = f(a, b)
        if r:
            return True
    return False


def _mentions_fresh_unknown(t):
    """may t denote an object allocated during the analysed code?"""
    return t.op in ('phi', 'unk', 'rd', 'lv', 'bv', 'iter', 'fold', 'ite', 'undef', 'lam')


# ------------------------------------------------------------------ decision terms
def cond_support(t):
    """set of atomic conditions at the decision level of t"""
    if t._sup is None:
        if t.op == 'ite':
            t._sup = frozenset([t.args[0]]) | cond_support(t.args[1]) | cond_support(t.args[2])
        else:
            t._sup = frozenset()
    return t._sup


_rel = cache()


def relate(a, va, b):
    """truth of atomic condition b given that atomic condition a has truth va (or None)"""
    k = (a, va, b)
    r = _rel.get(k, 0)
    if r != 0:
        return r
    r = _relate(a, va, b)
    _rel[k] = r
    return r


def _relate(a, va, b):
    if a is b:
        return va
    if a.op in ('lt0', 'le0', 'eq0') and b.op in ('lt0', 'le0', 'eq0'):
        pa, pb = a.args[0], b.args[0]
        # same direction up to a constant:  pb = s*pa + k
        for s in (1, -1):
            d = p_sub(pb, p_scale(pa, s))
            k = const_val(d)
            if k is not None:
                return _rel_lin(a.op, va, b.op, s, k, poly_is_int(pa))
        if a.op == 'eq0' and va:
            # substitute a single unit-coefficient atom
            for m, c in pa.args[0]:
                if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
                    x = m[0][0]
                    if x in atoms_in_poly(pb) and all(not (len(mm) > 1 and any(q is x for q, _ in mm)) for mm, _ in pa.args[0]):
                        val = p_sub(num(x), p_scale(pa, 1 / c))
                        if x in atoms_in_poly(val):
                            continue
                        ok = all(e == 1 or q is not x for mm, _ in pb.args[0] for q, e in mm)
                        if not ok:
                            continue
                        d = ZERO
                        for mm, cc in pb.args[0]:
                            rest = tuple((q, e) for q, e in mm if q is not x)
                            t = mk('poly', ((rest, cc),)) if cc != 0 else ZERO
                            if len(rest) != len(mm):
                                t = p_mul(t, val)
                            d = p_add(d, t)
                        k = const_val(d)
                        if k is not None:
                            return k < 0 if b.op == 'lt0' else (k <= 0 if b.op == 'le0' else k == 0)
                        if b.op == 'lt0' and poly_is_int(d):
                            return _bound_decide(d)
        return None
    if a.op == 'eq' and b.op == 'eq':
        if va:
            # x==y and x==z  =>  y==z impossible for distinct y,z
            for i in (0, 1):
                for j in (0, 1):
                    if a.args[i] is b.args[j]:
                        y, z = a.args[1 - i], b.args[1 - j]
                        if y is z:
                            return True
                        if y.op == 'str' and z.op == 'str':
                            return y.args == z.args
                        if _distinct(y, z):
                            return False
        return None
    for f in _rel_preds:
        r = f(a, va, b)
        if r is not None:
            return r
    return None


_rel_preds = []


def _interval(op, va, isint):
    """set described on variable u=pa: returns (lo, lo_closed, hi, hi_closed, excluded)"""
    if op == 'lt0':
        if va:
            return (None, False, Fraction(-1) if isint else Fraction(0), isint, None)
        return (Fraction(0), True, None, False, None)
    if op == 'le0':
        if va:
            return (None, False, Fraction(0), True, None)
        return (Fraction(0), False, None, False, None)
    if va:
        return (Fraction(0), True, Fraction(0), True, None)
    return (None, False, None, False, Fraction(0))


def _rel_lin(opa, va, opb, s, k, isint):
    lo, lc, hi, hc, ex = _interval(opa, va, isint)
    # v = s*u + k
    if s < 0:
        lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
        lc, hc = hc, lc
    lo = None if lo is None else lo + k
    hi = None if hi is None else hi + k
    exv = None if ex is None else s * ex + k
    if opb == 'lt0':
        if hi is not None and (hi < 0 or (hi == 0 and not hc)):
            return True
        if lo is not None and lo >= 0:
            return False
    elif opb == 'le0':
        if hi is not None and hi <= 0:
            return True
        if lo is not None and (lo > 0 or (lo == 0 and not lc)):
            return False
    else:
        if hi is not None and (hi < 0 or (hi == 0 and not hc)):
            return False
        if lo is not None and (lo > 0 or (lo == 0 and not lc)):
            return False
        if lo is not None and lo == hi and lo == 0:
            return True
        if exv is not None and exv == 0:
            return False
    return None


_restr = cache()


def restrict(t, a, va):
    """t under the assumption that atomic condition a has truth va"""
    if t.op != 'ite':
        return t
    k = (t, a, va)
    r = _restr.get(k)
    if r is not None:
        return r
    c, x, y = t.args
    v = relate(a, va, c)
    if v is True:
        r = restrict(x, a, va)
    elif v is False:
        r = restrict(y, a, va)
    else:
        r = _ite(c, restrict(x, a, va), restrict(y, a, va))
    _restr[k] = r
    return r


MAXNODES = [20000]
_itec = cache()


def _node(c, x, y):
    """the decision itself; a text that differs from another only where it is written with the constant it is compared to is that other"""
    if c.op == 'eq' and (x.sort == 's' or x.op == 'str') and (y.sort == 's' or y.op == 'str') and x.op != 'ite' and y.op != 'ite':
        a, b = c.args
        if b.op == 'str':
            a, b = b, a
        if a.op == 'str' and b.op != 'ite' and subst(y, {b: a}) is x:
            return y
    return mk('ite', c, x, y)


def _ite(c, x, y):
    """decision node on ATOMIC condition c, re-establishing the order"""
    if x is y:
        return x
    k = (c, x, y)
    r = _itec.get(k)
    if r is not None:
        return r
    x = restrict(x, c, True) if x.op == 'ite' else x
    y = restrict(y, c, False) if y.op == 'ite' else y
    if x is y:
        r = x
    else:
        # does any top condition come first?
        top = c
        for z in (x, y):
            if z.op == 'ite' and z.args[0].id < top.id:
                top = z.args[0]
        if top is c:
            r = _node(c, x, y)
        else:
            r = _ite_raw(top, _ite(c, _cof(x, top, True), _cof(y, top, True)),
                         _ite(c, _cof(x, top, False), _cof(y, top, False)), c)
    _itec[k] = r
    if len(_itec) > 3000000:
        raise Blowup('decision table')
    return r


def _cof(t, c, v):
    if t.op == 'ite' and t.args[0] is c:
        return t.args[1] if v else t.args[2]
    return t


def _ite_raw(c, x, y, inner):
    if x is y:
        return x
    # inner may be decided by c
    r = relate(c, True, inner)
    if r is not None:
        x = restrict(x, c, True)
    r = relate(c, False, inner)
    if r is not None:
        y = restrict(y, c, False)
    if x is y:
        return x
    return _node(c, x, y)


_muxc = cache()


def mux(c, x, y):
    """c: boolean decision term"""
    if c is TRUE:
        return x
    if c is FALSE:
        return y
    if x is y:
        return x
    if x is TRUE and y is FALSE:
        return c
    k = (c, x, y)
    r = _muxc.get(k)
    if r is not None:
        return r
    if c.op != 'ite':
        c = ite_atom(mk('truth', c))
        r = mux(c, x, y)
    else:
        a, h, l = c.args
        r = _ite(a, mux(h, restrict(x, a, True), restrict(y, a, True)),
                 mux(l, restrict(x, a, False), restrict(y, a, False)))
    _muxc[k] = r
    return r


def b_not(c):
    return mux(c, FALSE, TRUE)


def b_and(a, b):
    return mux(a, b, FALSE)


def b_or(a, b):
    return mux(a, TRUE, b)


def b_all(xs):
    r = TRUE
    for x in xs:
        r = b_and(r, x)
        if r is FALSE:
            break
    return r


def b_any(xs):
    r = FALSE
    for x in xs:
        r = b_or(r, x)
        if r is TRUE:
            break
    return r


def implies(a, b):
    return b_and(a, b_not(b)) is FALSE


_applyc = cache()


def lift(key, f, *ts):
    """apply leaf function f (identified by key for memoisation) through decision terms"""
    if all(t.op != 'ite' for t in ts):
        return f(*ts)
    k = (key, ts)
    r = _applyc.get(k)
    if r is not None:
        return r
    top = None
    for t in ts:
        if t.op == 'ite' and (top is None or t.args[0].id < top.id):
            top = t.args[0]
    hi = lift(key, f, *[restrict(t, top, True) for t in ts])
    lo = lift(key, f, *[restrict(t, top, False) for t in ts])
    r = _ite(top, hi, lo)
    _applyc[k] = r
    if len(_applyc) > 2000000:
        raise Blowup('apply table')
    return r


def add(a, b):
    return lift('+', lambda x, y: p_add(num(x), num(y)), a, b)


def sub(a, b):
    return lift('-', lambda x, y: p_sub(num(x), num(y)), a, b)


def mul(a, b):
    return lift('*', lambda x, y: p_mul(num(x), num(y)), a, b)


def div(a, b):
    return lift('/', lambda x, y: p_div(num(x), num(y)), a, b)


def neg(a):
    return lift('neg', lambda x: p_neg(num(x)), a)


def lt(a, b):
    return lift('lt', lambda x, y: atom_lt(p_sub(num(x), num(y))), a, b)


def le(a, b):
    return lift('le', lambda x, y: atom_le(p_sub(num(x), num(y))), a, b)


def eqn(a, b):
    return lift('eqn', lambda x, y: atom_eq0(p_sub(num(x), num(y))), a, b)


def eq(a, b):
    def f(x, y):
        if x.op == 'b' and y.op == 'b':
            return B(x is y)
        return leaf_eq(x, y)
    return lift('eq', f, a, b)


def real_fn(name, *args):
    return lift(('rf', name), lambda *xs: pure_fn(name, *[num(x) for x in xs]), *args)


def ufn(name, *args, sort='r', numargs=()):
    """uninterpreted function, lifted through decisions; returns leaf of given sort"""
    def f(*xs):
        t = mk('app', name, *xs, sort=sort)
        return num(t) if sort in ('i', 'r') else (ite_atom(mk('truth', t)) if sort == 'b' else t)
    return lift(('uf', name, sort), f, *args)


# ------------------------------------------------------------------ binders
def height(t):
    """largest bound-variable index used in t plus one"""
    if isinstance(t, tuple):
        return max([height(x) for x in t] or [0])
    if not isinstance(t, T):
        return 0
    if t._hgt is None:
        h = t.args[0] + 1 if t.op == 'bv' else 0
        if t.op != 'bv':
            h = max([height(x) for x in t.args] or [0])
        t._hgt = h
    return t._hgt


def free_lvs(t):
    if isinstance(t, tuple):
        s = frozenset()
        for x in t:
            s |= free_lvs(x)
        return s
    if not isinstance(t, T):
        return frozenset()
    if t._free is None:
        if t.op == 'lv':
            t._free = frozenset([t])
        elif t.op == 'phi':
            s = frozenset([t])
            for x in t.args:
                s |= free_lvs(x)
            t._free = s
        else:
            s = frozenset()
            for x in t.args:
                s |= free_lvs(x)
            t._free = s
    return t._free


def subst(t, mp):
    """replace terms (loop variables, bound variables, phis, symbols) and renormalise"""
    memo = {}
    keys = set(mp)
    lvkeys = all(k.op in ('lv', 'phi') for k in keys)
    bvmin = min(k.args[0] for k in keys) if keys and all(k.op == 'bv' for k in keys) else None

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if lvkeys:
            if not (free_lvs(x) & keys):
                return x
        elif bvmin is not None and height(x) <= bvmin:
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x in mp:
            r = mp[x]
        elif x.op == 'rd' and x.args[0] in mp:
            r = _subst_rd(mp[x.args[0]], [go(a) for a in x.args[1:]])
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r
    return go(t)


def _subst_rd(sol, args):
    """cell read rd(phi, args) under the solution (key variables, term)"""
    kvs, term = sol
    if not kvs:
        return term
    return subst(term, dict(zip(kvs, args)))


def rebuild(x, go):
    op = x.op
    if op == 'poly':
        r = ZERO
        for m, c in x.args[0]:
            t = const(c)
            for a, e in m:
                b = go(a)
                if b is a:
                    t = mul(t, mk('poly', ((((a, e),), Fraction(1)),)) if not _needs_red(a, e) else _red_atom(a, e))
                else:
                    if e > 0:
                        for _ in range(e):
                            t = mul(t, b if b.op == 'ite' else num(b))
                    else:
                        for _ in range(-e):
                            t = div(t, b if b.op == 'ite' else num(b))
            r = add(r, t)
        return r
    if op == 'ite':
        c = go_cond(x.args[0], go)
        return mux(c, go(x.args[1]), go(x.args[2]))
    if op in ('b', 'null', 'str', 'lv', 'bv', 'phi', 'unk', 'undef'):
        return x
    if op == 'app':
        args = [go(a) for a in x.args[1:]]
        name = x.args[0]
        if name in ('sin', 'cos', 'sqrt', 'asin', 'atan', 'atan2', 'abs'):
            return real_fn(name, *args)
        if all(isinstance(a, T) for a in args):
            return lift(('app', name, x.sort), lambda *xs: _mkapp(name, xs, x.sort), *args)
        return mk('app', name, *args, sort=x.sort)
    if op == 'inv':
        return div(ONE, go(x.args[0]))
    if op in _rebuilders:
        return _rebuilders[op](x, go)
    args = tuple(go(a) for a in x.args)
    if args == x.args:
        return x
    return mk(op, *args, sort=x.sort)


def _mkapp(name, xs, sort):
    h = user_hooks.get(name) or _app_hooks.get(name)
    if h is not None:
        r = h(*xs)
        if r is not None:
            return r
    return mk('app', name, *xs, sort=sort)


nonneg_forced = set()   # input atoms a fact declares nonnegative
nonneg_names = {}   # input atoms of unsigned type
_app_hooks = {}
user_hooks = {}    # facts about input objects, installed per check
_rebuilders = {}


def go_cond(c, go):
    if c.op == 'lt0':
        return lift('lt0', lambda p: atom_lt(num(p)), go(c.args[0]))
    if c.op == 'le0':
        return lift('le0', lambda p: atom_le(num(p)), go(c.args[0]))
    if c.op == 'eq0':
        return lift('eq0', lambda p: atom_eq0(num(p)), go(c.args[0]))
    if c.op == 'eq':
        return eq(go(c.args[0]), go(c.args[1]))
    if c.op == 'truth':
        r = go(c.args[0])
        return to_bool(r)
    if c.op == 'exists':
        h, N, g = c.args
        v = new_lv(go(N))
        body = go(subst(g, {mk('bv', h, sort='i'): num(v)}))
        return exists(v, go(N), body)
    raise AssertionError(c.op)


def to_bool(t):
    """value used as a condition"""
    if t.op == 'ite':
        return mux(ite_atom(t.args[0]), to_bool(t.args[1]), to_bool(t.args[2]))
    if t.op == 'b':
        return t
    if t.op == 'poly':
        return b_not(atom_eq0(t))
    if t.sort in ('p', 's'):
        return b_not(leaf_eq(t, NULL))
    if is_nonnull(t):
        return TRUE
    return ite_atom(mk('truth', t))


def close(v, t):
    """abstract loop variable v in t: returns (index, body)"""
    h = height(t)
    return h, subst(t, {v: num(mk('bv', h, sort='i')), })


def open_(h, body, val):
    return subst(body, {mk('bv', h, sort='i'): val})


def lsum(v, N, body):
    """sum over v in 0..N-1 of body(v)"""
    if N.op == 'ite':
        return lift(('lsumN', v, body), lambda n: lsum(v, num(n), body), N)
    if not (free_lvs(body) & {v}):
        return mul(body, N)
    if body.op == 'ite':
        # hoist conditions that do not depend on v
        for c in cond_support(body):
            if v not in free_lvs(c):
                return _ite(c, lsum(v, N, restrict(body, c, True)), lsum(v, N, restrict(body, c, False)))
        # a condition v == s: take that term out of the sum
        for c in sorted(cond_support(body), key=lambda c: c.id):
            if c.op == 'eq0':
                s = _unit_solution(c.args[0], v)
                if s is not None:
                    rest = restrict(body, c, False)
                    here = subst(restrict(body, c, True), {v: s})
                    there = subst(rest, {v: s})
                    inr = b_and(le(ZERO, s), lt(s, num(N)))
                    return add(lsum(v, N, rest), mux(inr, sub(here, there), ZERO))
        # split on the conditions: per-monomial sums of the guarded body
        leaves = []

        def collect(t):
            if t.op == 'ite':
                collect(t.args[1])
                collect(t.args[2])
            else:
                leaves.append(t)
        collect(body)
        monos = {}
        coefs = set()
        for l in leaves:
            for m, c in num(l).args[0]:
                dep = tuple((a, e) for a, e in m if v in free_lvs(a))
                ind = tuple((a, e) for a, e in m if v not in free_lvs(a))
                coefs.add(ind)
        r = ZERO
        for ind in sorted(coefs, key=_mono_key):
            def pick(l, ind=ind):
                d = {}
                for m, c in num(l).args[0]:
                    i2 = tuple((a, e) for a, e in m if v not in free_lvs(a))
                    if i2 == ind:
                        dep = tuple((a, e) for a, e in m if v in free_lvs(a))
                        d[dep] = d.get(dep, 0) + c
                return poly_from_dict(d)
            part = lift(('pick', ind, v), pick, body)
            if part is ZERO:
                continue
            f = mk('poly', ((ind, Fraction(1)),))
            r = add(r, mul(f, _sum_guarded(v, N, part)))
        return r
    d = ZERO
    for m, c in num(body).args[0]:
        dep = tuple((a, e) for a, e in m if v in free_lvs(a))
        ind = tuple((a, e) for a, e in m if v not in free_lvs(a))
        f = mk('poly', ((ind, c),))
        if not dep:
            d = add(d, mul(f, N))
        else:
            p = mk('poly', ((dep, Fraction(1)),))
            d = add(d, mul(f, _sum_atom(v, N, p)))
    return d


def _unit_solution(p, v):
    """the integer v with p == 0 when p = +-v + rest"""
    s = 0
    for m, c in p.args[0]:
        if any(v in free_lvs(a) for a, e in m):
            if len(m) != 1 or m[0] != (v, 1) or abs(c) != 1 or s:
                return None
            s = c
    if not s:
        return None
    r = sub(p_scale(p, Fraction(1) / s), num(v))
    r = neg(r)
    return r if poly_is_int(r) else None


def _sum_guarded(v, N, part):
    # split leaves per monomial so that sums of sums agree
    leaves = set()

    def collect(t):
        if t.op == 'ite':
            collect(t.args[1])
            collect(t.args[2])
        else:
            leaves.add(t)
    collect(part)
    monos = set()
    for l in leaves:
        for m, c in num(l).args[0]:
            monos.add(m)
    r = ZERO
    for m in sorted(monos, key=_mono_key):
        def pick(l, m=m):
            c = dict(num(l).args[0]).get(m, Fraction(0))
            return mk('poly', ((m, c),)) if c else ZERO
        q = lift(('pickm', m), pick, part)
        if q.op != 'ite':
            r = add(r, lsum(v, N, q))
        else:
            r = add(r, _sum_atom(v, N, q))
    return r


def _sum_atom(v, N, p):
    c = const_val(N) if N.op == 'poly' else None
    if c is not None and c.denominator == 1 and 0 <= c <= 8:
        r = ZERO
        for i in range(int(c)):
            r = add(r, subst(p, {v: const(i)}))
        return r
    h, body = close(v, p)
    srt = 'i' if _all_int(p) else 'r'
    return num(mk('sum', h, N, body, sort=srt))


def _all_int(t):
    if t.op == 'ite':
        return _all_int(t.args[1]) and _all_int(t.args[2])
    return t.op == 'poly' and poly_is_int(t)


def _rb_sum(x, go):
    h, N, body = x.args
    N2 = go(N)
    v = new_lv(N2 if N2.op == 'poly' else None)
    b = open_(h, body, num(v))
    return lsum(v, N2, go(b))


_rebuilders['sum'] = _rb_sum


def exists(v, N, g):
    """bool: some v in 0..N-1 with g(v)"""
    if g is FALSE:
        return FALSE
    if N.op == 'ite':
        return lift(('exN', v, g), lambda n: exists(v, num(n), g), N)
    if g is TRUE:
        return lt(ZERO, N)
    if v not in free_lvs(g):
        return b_and(g, lt(ZERO, N))
    for c in cond_support(g):
        if v not in free_lvs(c):
            return _ite(c, exists(v, N, restrict(g, c, True)), exists(v, N, restrict(g, c, False)))
    cN = const_val(N)
    if cN is not None and 0 <= cN <= 8:
        r = FALSE
        for i in range(int(cN)):
            r = b_or(r, subst(g, {v: const(i)}))
        return r
    h, body = close(v, g)
    return ite_atom(mk('exists', h, N, body))


def first(v, N, g):
    """least v in 0..N-1 with g(v); N when none"""
    if g is FALSE:
        return N
    if g is TRUE:
        return ZERO
    if N.op == 'ite':
        return lift(('fiN', v, g), lambda n: first(v, num(n), g), N)
    h, body = close(v, g)
    return num(mk('first', N, h, body, sort='i'))


def _rb_first(x, go):
    N, h, body = x.args
    N2 = go(N)
    v = new_lv(N2 if N2.op == 'poly' else None)
    return first(v, N2, go(open_(h, body, num(v))))


_rebuilders['first'] = _rb_first


def _rb_rd(x, go):
    return lift(('rd', x.args[0], x.sort), lambda *xs: mk('rd', x.args[0], *xs, sort=x.sort), *[go(a) for a in x.args[1:]])


def _rb_fresh(x, go):
    return lift(('fresh', x.args[0]), lambda *xs: mk('fresh', x.args[0], *xs, sort='p'), *[go(a) for a in x.args[1:]])


_rebuilders['rd'] = _rb_rd
_rebuilders['fresh'] = _rb_fresh


# ------------------------------------------------------------------ display
def show(t, depth=0):
    if isinstance(t, tuple):
        return '(' + ', '.join(show(x, depth + 1) for x in t) + ')'
    if not isinstance(t, T):
        return str(t)
    if depth > 14:
        return '...'
    o = t.op
    if o == 'poly':
        if not t.args[0]:
            return '0'
        parts = []
        for m, c in t.args[0][:40]:
            f = '*'.join(show(a, depth + 1) + ('' if e == 1 else '^%d' % e) for a, e in m)
            if not f:
                parts.append(str(c) if c.denominator < 10**6 else '%g' % float(c))
            elif c == 1:
                parts.append(f)
            elif c == -1:
                parts.append('-' + f)
            else:
                parts.append((str(c) if c.denominator < 10**6 else '%g' % float(c)) + '*' + f)
        s = ' + '.join(parts)
        if len(t.args[0]) > 40:
            s += ' + ...(%d terms)' % len(t.args[0])
        return s if len(parts) == 1 else '(' + s + ')'
    if o == 'ite':
        return 'if(%s){%s}else{%s}' % tuple(show(x, depth + 1) for x in t.args)
    if o == 'b':
        return str(t.args[0])
    if o == 'null':
        return 'null'
    if o == 'str':
        return '"%s"' % t.args[0]
    if o == 'lt0':
        return show(t.args[0], depth + 1) + '<0'
    if o == 'le0':
        return show(t.args[0], depth + 1) + '<=0'
    if o == 'eq0':
        return show(t.args[0], depth + 1) + '==0'
    if o == 'eq':
        return show(t.args[0], depth + 1) + '==' + show(t.args[1], depth + 1)
    if o == 'truth':
        return show(t.args[0], depth + 1)
    if o == 'app':
        n = t.args[0]
        if len(t.args) == 1:
            return str(n)
        if isinstance(n, str) and n.startswith('.') and len(t.args) == 2:
            return show(t.args[1], depth + 1) + n
        if n == 'at':
            return show(t.args[1], depth + 1) + '[' + ','.join(show(x, depth + 1) for x in t.args[2:]) + ']'
        return '%s(%s)' % (n, ', '.join(show(x, depth + 1) for x in t.args[1:]))
    if o == 'lv':
        return 'k%s' % (t.args[0],)
    if o == 'bv':
        return 'j%d' % t.args[0]
    if o == 'sum':
        return 'SUM(j%d<%s: %s)' % (t.args[0], show(t.args[1], depth + 1), show(t.args[2], depth + 1))
    if o == 'exists':
        return 'EXISTS(j%d<%s: %s)' % (t.args[0], show(t.args[1], depth + 1), show(t.args[2], depth + 1))
    if o == 'first':
        return 'FIRST(j%d<%s: %s)' % (t.args[1], show(t.args[0], depth + 1), show(t.args[2], depth + 1))
    if o == 'struct':
        return '%s{%s}' % (t.args[0].split('::')[-1], ', '.join('%s=%s' % (f, show(v, depth + 1)) for f, v in t.args[1]))
    return '%s(%s)' % (o, ', '.join(show(x, depth + 1) for x in t.args))


def size_of(t, seen=None):
    seen = set() if seen is None else seen
    if isinstance(t, tuple):
        return sum(size_of(x, seen) for x in t)
    if not isinstance(t, T) or t in seen:
        return 0
    seen.add(t)
    return 1 + sum(size_of(x, seen) for x in t.args)


def contains(t, pred, memo=None):
    memo = {} if memo is None else memo
    if isinstance(t, tuple):
        return any(contains(x, pred, memo) for x in t)
    if not isinstance(t, T):
        return False
    r = memo.get(t)
    if r is None:
        memo[t] = False
        r = bool(pred(t)) or any(contains(x, pred, memo) for x in t.args)
        memo[t] = r
    return r
