"""Value-flow analysis of the Python layer: an abstract interpreter over the syntax tree of
python/tinyfk/__init__.py.  Numbers are symbols, arrays are grids of symbols with numpy's
view/copy rules, the binding is a recorder whose entry points come from PYBIND11_MODULE.
Nothing of the package is imported or run."""
import ast
import math


class Undecided(Exception):
    pass


class PyRaise(Exception):
    def __init__(self, kind, msg=''):
        Exception.__init__(self, '%s%s' % (kind, ': ' + str(msg) if msg != '' else ''))
        self.kind = kind


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Brk(Exception):
    pass


class _Cont(Exception):
    pass


EXC = {'AssertionError': 'Exception', 'ValueError': 'Exception', 'TypeError': 'Exception', 'RuntimeError': 'Exception',
       'KeyError': 'LookupError', 'IndexError': 'LookupError', 'LookupError': 'Exception', 'AttributeError': 'Exception',
       'NotImplementedError': 'RuntimeError', 'Exception': 'BaseException', 'BaseException': None, 'NameError': 'Exception',
       'OSError': 'Exception', 'FileNotFoundError': 'OSError', 'ZeroDivisionError': 'ArithmeticError', 'ArithmeticError': 'Exception',
       'OverflowError': 'ArithmeticError', 'StopIteration': 'Exception'}


def exc_is(k, base):
    while k is not None:
        if k == base:
            return True
        k = EXC.get(k, 'Exception' if k not in EXC else None)
    return False


class Sym:
    """a number (kind f or i) or text (kind s) nothing is known about except that it is finite"""
    __slots__ = ('t', 'kind')

    def __init__(self, t, kind='f'):
        self.t, self.kind = t, kind

    def __repr__(self):
        return self.t if isinstance(self.t, str) else '(%s)' % ' '.join(map(str, self.t))


class Paths:
    """the branches one run of the analysis takes at conditions on symbols, and what they make known"""

    def __init__(self, plan=(), low=()):
        self.plan, self.log = list(plan), []
        self.memo, self.subst = {}, {}
        self.lo = {k: (v, False) for k, v in dict(low).items()}       # name -> (bound, strict)
        self.hi, self.ne = {}, {}
        self.hard = False        # a condition was taken whose feasibility is not known
        self.text = []

    def next(self):
        """the next plan, or None"""
        p = list(self.log)
        while p and p[-1]:
            p.pop()
        return p[:-1] + [True] if p else None

    def branch(self, k, text):
        if k in self.memo:
            return self.memo[k]
        i = len(self.log)
        if i >= 40:
            raise Undecided('too many conditions on symbols')
        v = self.plan[i] if i < len(self.plan) else False
        self.log.append(v)
        self.memo[k] = v
        self.text.append(text if v else 'not ' + text)
        return v


PATH = [None]


def norm(v):
    """a symbol the path has given a value"""
    P = PATH[0]
    n = 0
    while P is not None and isinstance(v, Sym) and isinstance(v.t, str) and v.t in P.subst and n < 50:
        v = P.subst[v.t]
        n += 1
    return v


def slot(i):
    i = norm(i)
    return repr(i) if isinstance(i, Sym) else i


def decide(op, a, b):
    """truth of a < b, a <= b or a == b where one is a symbol"""
    P = PATH[0]
    a, b = norm(a), norm(b)
    if P is None:
        raise Undecided('comparison of %r and %r' % (a, b))
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return a == b if op == '==' else a < b if op == '<' else a <= b
    if same(a, b):
        return op != '<'
    if op == '==':
        if not isinstance(a, Sym) or isinstance(b, Sym) and isinstance(a.t, tuple):
            a, b = b, a
        atom = isinstance(a.t, str)
        if atom and not isinstance(b, Sym):
            if not isinstance(b, str):
                lo, hi = P.lo.get(a.t), P.hi.get(a.t)
                if lo and (b < lo[0] or b == lo[0] and lo[1]) or hi and (b > hi[0] or b == hi[0] and hi[1]) or a.kind == 'i' and b != int(b):
                    return False
            if b in P.ne.get(a.t, ()):
                return False
            v = P.branch(('==', key(a), key(b)), '%r == %r' % (a, b))
            if v:
                P.subst[a.t] = b
            else:
                P.ne.setdefault(a.t, set()).add(b)
            return v
        ks = sorted([key(a), key(b)], key=repr)
        plain = atom and isinstance(b, Sym) and isinstance(b.t, str) and a.kind == b.kind
        if plain and any(x.t in d for x in (a, b) for d in (P.hi, P.ne)):
            P.hard = True
        v = P.branch(('==',) + tuple(ks), '%r == %r' % (a, b))
        if plain and v:
            P.subst[a.t] = b
        if not plain:
            P.hard = True
        return v
    # a < b, a <= b
    for x, y, up in ((a, b, True), (b, a, False)):
        if isinstance(x, Sym) and isinstance(x.t, str) and not isinstance(y, Sym):
            lo, hi = P.lo.get(x.t), P.hi.get(x.t)
            strict = op == '<'
            if up:      # x < y
                if hi and (hi[0] < y or hi[0] == y and (hi[1] or not strict)):
                    return True
                if lo and (lo[0] > y or lo[0] == y and (lo[1] or strict)):
                    return False
            else:       # y < x
                if lo and (lo[0] > y or lo[0] == y and (lo[1] or not strict)):
                    return True
                if hi and (hi[0] < y or hi[0] == y and (hi[1] or strict)):
                    return False
            v = P.branch((op, key(a), key(b)), '%r %s %r' % (a, op, b))
            if x.kind == 'i' or x.t in P.ne:
                P.hard = P.hard or lo is not None and hi is not None or x.t in P.ne
            if up == v:
                P.hi[x.t] = (y, strict if v else not strict)
            else:
                P.lo[x.t] = (y, strict if v else not strict)
            return v
    v = P.branch((op, key(a), key(b)), '%r %s %r' % (a, op, b))
    P.hard = True
    return v


def key(v):
    """structural identity of a value"""
    if isinstance(v, Sym) and PATH[0] is not None and PATH[0].subst:
        if isinstance(v.t, str):
            v = norm(v)
        elif len(v.t) == 3 and v.t[0] in ('+', '-', '*', '/'):
            x, y = (norm(z) for z in v.t[1:])
            if x is not v.t[1] or y is not v.t[2]:
                v = arith(v.t[0], x, y)
    if isinstance(v, Sym):
        return ('sym', v.t if isinstance(v.t, str) else tuple(key(x) for x in v.t))
    if isinstance(v, bool):
        return ('bool', v)
    if isinstance(v, (int, float)):
        return ('num', float(v))
    if isinstance(v, (list, tuple)):
        return ('seq',) + tuple(key(x) for x in v)
    if isinstance(v, Arr):
        return ('seq',) + tuple(key(x) for x in v.rows())
    if isinstance(v, dict):
        return ('dict',) + tuple(sorted((repr(key(k)), key(x)) for k, x in v.items()))
    if isinstance(v, Obj) and v.cls is not None and v.cls.enum:
        return ('enum', v.cls.name, v.attrs['name'])
    if isinstance(v, (str, type(None))):
        return ('c', v)
    return ('id', id(v))


def same(a, b):
    return key(a) == key(b)


def narrowed(x, dtype):
    """a number as an array of the given type holds it"""
    if dtype == 'i' and not is_int(x) and not isinstance(x, bool):
        if isinstance(x, Sym):
            return Sym(('trunc', x), 'i')
        if isinstance(x, float):
            if math.isinf(x) or math.isnan(x):
                raise PyRaise('ValueError', 'cannot convert to an integer')
            return int(x)
    if dtype == 'f4':
        if isinstance(x, Sym) and x.kind != 's':
            return x if isinstance(x.t, tuple) and x.t[0] == 'float32' else Sym(('float32', x))
        if isinstance(x, float):
            import struct
            return struct.unpack('f', struct.pack('f', x))[0]
    return x


class Arr:
    """numpy array: a shape and the places of its entries in a buffer (views share the buffer)"""

    def __init__(self, shape, buf, idx=None, dtype=None):
        self.shape = tuple(shape)
        self.buf = buf
        self.idx = list(range(len(buf))) if idx is None else idx
        self.dtype = dtype or ('i' if buf and all(is_int(x) for x in buf) else 'f')
        if idx is None and dtype in ('i', 'f4'):
            self.buf = [narrowed(x, dtype) for x in buf]

    def flat(self):
        return [self.buf[i] for i in self.idx]

    def rows(self):
        if len(self.shape) == 1:
            return self.flat()
        n = 1
        for s in self.shape[1:]:
            n *= s
        return [Arr(self.shape[1:], self.buf, self.idx[i * n:(i + 1) * n], self.dtype) for i in range(self.shape[0])]

    def copy(self):
        return Arr(self.shape, self.flat(), None, self.dtype)

    def nested(self):
        return [r.nested() if isinstance(r, Arr) else r for r in self.rows()]

    def __repr__(self):
        return 'array(%r)' % (self.nested(),)


def is_int(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or (isinstance(x, Sym) and x.kind == 'i')


def is_num(x):
    return isinstance(x, (int, float)) or (isinstance(x, Sym) and x.kind in 'if')


class Cls:
    def __init__(self, name, attrs, bases=(), enum=False):
        self.name, self.attrs, self.bases, self.enum = name, attrs, bases, enum

    def find(self, n):
        if n in self.attrs:
            return self.attrs[n]
        for b in self.bases:
            if isinstance(b, Cls):
                r = b.find(n)
                if r is not None:
                    return r
        return None

    def has(self, n):
        return n in self.attrs or any(isinstance(b, Cls) and b.has(n) for b in self.bases)


class Obj:
    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs

    def __repr__(self):
        if self.cls and self.cls.enum:
            return '%s.%s' % (self.cls.name, self.attrs['name'])
        return '<%s>' % (self.cls.name if self.cls else '?')


class Func:
    def __init__(self, node, env, defaults, kwdefaults, name):
        self.node, self.env, self.defaults, self.kwdefaults, self.name = node, env, defaults, kwdefaults, name


class Bound:
    def __init__(self, f, self_):
        self.f, self.self_ = f, self_


class Prim:
    """a library function: fn(args, kwargs)"""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class Type:
    def __init__(self, name):
        self.name = name


TYPES = {'i': Type('int'), 'f': Type('float'), 'f4': Type('float32'), 'b': Type('bool')}


class Wrapped:
    """property / staticmethod / classmethod"""

    def __init__(self, kind, f, setter=None):
        self.kind, self.f, self.setter = kind, f, setter


class Opaque:
    def __init__(self, name):
        self.name = name


class Mod:
    def __init__(self, name, attrs):
        self.name, self.attrs = name, attrs


class ExcV:
    def __init__(self, kind, args):
        self.kind, self.args = kind, args


# --------------------------------------------------------------------------- numbers
def arith(op, a, b):
    if isinstance(a, Arr) or isinstance(b, Arr) :
        return arr_arith(op, a, b)
    if isinstance(a, (list, tuple, str)) or isinstance(b, (list, tuple, str)):
        if op == '+' and type(a) is type(b):
            return a + b
        if op == '*' and isinstance(b, int) and isinstance(a, (list, tuple, str)):
            return a * b
        if op == '*' and isinstance(a, int):
            return b * a
        if op == '%' and isinstance(a, str):
            return a
        raise PyRaise('TypeError', 'unsupported operand types')
    if not is_num(a) or not is_num(b):
        if isinstance(a, (Opaque, Obj)) or isinstance(b, (Opaque, Obj)):
            raise Undecided('arithmetic on %r, %r' % (a, b))
        if isinstance(a, set) and isinstance(b, set):
            return {'-': a - b, '|': a | b, '&': a & b}[op]
        raise PyRaise('TypeError', 'unsupported operand types')
    if isinstance(a, Sym) or isinstance(b, Sym):
        if op in '+-' and b == 0 if not isinstance(b, Sym) else False:
            return a
        if op == '+' and not isinstance(a, Sym) and a == 0:
            return b
        if op == '*':
            for x, y in ((a, b), (b, a)):
                if not isinstance(x, Sym) and x == 1:
                    return y
                if not isinstance(x, Sym) and x == 0:
                    return 0.0 if not (is_int(a) and is_int(b)) else 0
        if op == '/' and not isinstance(b, Sym) and b == 1:
            return a
        if op == '-' and same(a, b):
            return 0.0
        if op in '+*' and repr(key(b)) < repr(key(a)):
            a, b = b, a
        return Sym((op, a, b), 'i' if is_int(a) and is_int(b) and op != '/' else 'f')
    try:
        return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b, '//': lambda: a // b,
                '%': lambda: a % b, '**': lambda: a ** b, '^': lambda: a ^ b, '&': lambda: a & b, '|': lambda: a | b}[op]()
    except ZeroDivisionError:
        raise PyRaise('ZeroDivisionError')


def to_arr(v, dtype=None):
    """np.array(v): always a fresh array"""
    def shape(x):
        if isinstance(x, Arr):
            return x.shape
        if isinstance(x, (list, tuple)):
            if not x:
                return (0,)
            ss = {shape(y) for y in x}
            if len(ss) != 1:
                raise PyRaise('ValueError', 'inhomogeneous shape')
            return (len(x),) + ss.pop()
        if is_num(x) or isinstance(x, bool):
            return ()
        if isinstance(x, (str, Sym)):
            return ()
        raise Undecided('np.array of %r' % (x,))

    def flat(x):
        if isinstance(x, Arr):
            return x.flat()
        if isinstance(x, (list, tuple)):
            return [z for y in x for z in flat(y)]
        return [x]
    s = shape(v)
    f = flat(v)
    if dtype is None and isinstance(v, Arr):
        dtype = v.dtype
    return Arr(s, f, None, dtype)


def arr_arith(op, a, b):
    A = a if isinstance(a, Arr) else to_arr(a)
    B = b if isinstance(b, Arr) else to_arr(b)
    n = max(len(A.shape), len(B.shape))
    sa = (1,) * (n - len(A.shape)) + A.shape
    sb = (1,) * (n - len(B.shape)) + B.shape
    out = []
    for x, y in zip(sa, sb):
        if x != y and 1 not in (x, y):
            raise PyRaise('ValueError', 'operands could not be broadcast together')
        out.append(y if x == 1 else x)
    fa, fb = A.flat(), B.flat()

    def at(f, s, ix):
        k = 0
        for d, i in zip(s, ix):
            k = k * d + (0 if d == 1 else i)
        return f[k]
    res = [arith(op, at(fa, sa, ix), at(fb, sb, ix)) for ix in indices(out)]
    return Arr(out, res)


def indices(shape):
    if not shape:
        yield ()
        return
    for i in range(shape[0]):
        for r in indices(shape[1:]):
            yield (i,) + r


def truth(v):
    if isinstance(v, (bool, int, float, str, list, tuple, dict, set, type(None))):
        return bool(v)
    if isinstance(v, Arr):
        f = v.flat()
        if len(f) == 1:
            return truth(f[0])
        raise PyRaise('ValueError', 'truth value of an array')
    if isinstance(v, Sym):
        return not decide('==', v, '' if v.kind == 's' else 0)
    if isinstance(v, range):
        return len(v) > 0
    return True


def cmpop(op, a, b):
    if isinstance(a, Arr) or isinstance(b, Arr):
        A = a if isinstance(a, Arr) else to_arr(a)
        B = b if isinstance(b, Arr) else to_arr(b)
        if A.shape == B.shape or not B.shape or not A.shape:
            fa, fb = A.flat(), B.flat()
            n = max(len(fa), len(fb))
            fa, fb = (fa * n if not A.shape else fa), (fb * n if not B.shape else fb)
            return Arr(A.shape or B.shape, [cmpop(op, x, y) for x, y in zip(fa, fb)], None, 'b')
        raise Undecided('comparison of arrays of different shapes')
    if op in ('==', '!='):
        r = equal(a, b)
        return r if op == '==' else not r
    if isinstance(a, Sym) or isinstance(b, Sym):
        if same(a, b):
            return op in ('<=', '>=')
        for x, y, o in ((a, b, op), (b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[op])):
            if isinstance(x, Sym) and isinstance(y, float) and math.isinf(y):
                return o in ('<', '<=') if y > 0 else o in ('>', '>=')
        if (isinstance(x, (Sym, int, float)) and not (isinstance(x, Sym) and x.kind == 's')) and isinstance(y, (Sym, int, float)):
            return {'<': lambda: decide('<', a, b), '>': lambda: decide('<', b, a), '<=': lambda: decide('<=', a, b), '>=': lambda: decide('<=', b, a)}[op]()
        raise Undecided('comparison of %r and %r' % (a, b))
    try:
        return {'<': lambda: a < b, '>': lambda: a > b, '<=': lambda: a <= b, '>=': lambda: a >= b}[op]()
    except TypeError:
        raise PyRaise('TypeError', 'unorderable')


def equal(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        if same(a, b):
            return True
        x, y = (a, b) if isinstance(a, Sym) else (b, a)
        if y is None or isinstance(y, (list, tuple, dict, Obj)):
            return False
        if isinstance(y, float) and (math.isinf(y) or math.isnan(y)) and x.kind in 'if':
            return False
        if x.kind == 's' and not isinstance(y, (str, Sym)):
            return False
        if x.kind != 's' and isinstance(y, str):
            return False
        if isinstance(y, (Sym, int, float, str)):
            return decide('==', x, y)
        raise Undecided('equality of %r and %r' % (a, b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(truth(cmpop('==', x, y)) for x, y in zip(a, b))
    if isinstance(a, (Obj, Cls, Func, Mod, Type)) or isinstance(b, (Obj, Cls, Func, Mod, Type)):
        return a is b
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        raise Undecided('equality of %r' % (a,))
    return a == b


# --------------------------------------------------------------------------- arrays
def subscript(a, ix):
    """(shape, idx, is_view) of a[ix]"""
    if not isinstance(ix, tuple):
        ix = (ix,)
    ix = list(ix)
    nreal = sum(1 for i in ix if i is not None and i is not Ellipsis)
    if any(i is Ellipsis for i in ix):
        k = [i is Ellipsis for i in ix].index(True)
        ix[k:k + 1] = [slice(None)] * (len(a.shape) - nreal)
        nreal = len(a.shape)
    ix += [slice(None)] * (len(a.shape) - nreal)
    if len([i for i in ix if i is not None]) > len(a.shape):
        raise PyRaise('IndexError', 'too many indices')
    per, d = [], 0
    fancy = 0
    for i in ix:
        if i is None:
            per.append(('new', None))
            continue
        n = a.shape[d]
        d += 1
        if isinstance(i, slice):
            for x in (i.start, i.stop, i.step):
                if not (x is None or isinstance(x, int)):
                    raise Undecided('slice at %r' % (x,)) if isinstance(x, Sym) else PyRaise('TypeError', 'slice index')
            per.append(('s', list(range(*i.indices(n)))))
        elif isinstance(i, bool):
            raise Undecided('boolean index')
        elif isinstance(i, int):
            if not -n <= i < n:
                raise PyRaise('IndexError', 'index %d out of bounds for size %d' % (i, n))
            per.append(('i', i % n))
        elif isinstance(i, (list, Arr, range)):
            v = i if isinstance(i, Arr) else to_arr(list(i))
            if len(v.shape) != 1:
                raise Undecided('index array of %d dimensions' % len(v.shape))
            f = v.flat()
            if v.dtype == 'b' or (f and all(isinstance(x, bool) for x in f)):
                if len(f) != n:
                    raise PyRaise('IndexError', 'boolean index does not match')
                f = [k for k, x in enumerate(f) if truth(x)]
            elif v.dtype == 'f' and (f or isinstance(i, Arr)):
                raise PyRaise('IndexError', 'arrays used as indices must be of integer type')
            out = []
            for x in f:
                if isinstance(x, Sym):
                    raise Undecided('index %r' % x)
                if not -n <= x < n:
                    raise PyRaise('IndexError', 'index %d out of bounds for size %d' % (x, n))
                out.append(x % n)
            per.append(('f', out))
            fancy += 1
        elif isinstance(i, Sym):
            raise Undecided('index %r' % i)
        else:
            raise PyRaise('IndexError', 'invalid index %r' % (i,))
    if fancy > 1 or (fancy and any(k == 'i' for k, _ in per)):
        raise Undecided('combined index arrays')
    strides, s = [], 1
    for n in reversed(a.shape):
        strides.insert(0, s)
        s *= n
    shape, places = [], [0]
    d = 0
    for k, v in per:
        if k == 'new':
            shape.append(1)
            continue
        st = strides[d]
        d += 1
        if k == 'i':
            places = [p + v * st for p in places]
        else:
            shape.append(len(v))
            places = [p + x * st for p in places for x in v]
    return tuple(shape), [a.idx[p] for p in places], not fancy, all(k == 'i' for k, _ in per)


def get_item(a, ix):
    shape, idx, view, scalar = subscript(a, ix)
    if scalar:
        return a.buf[idx[0]]
    if view:
        return Arr(shape, a.buf, idx, a.dtype)
    return Arr(shape, [a.buf[i] for i in idx], None, a.dtype)


def set_item(a, ix, v):
    shape, idx, _view, _s = subscript(a, ix)
    V = v if isinstance(v, Arr) else to_arr(v)
    f = V.flat()
    sv = V.shape
    while len(sv) > len(shape) and sv[0] == 1:
        sv = sv[1:]
    if len(sv) > len(shape):
        raise PyRaise('ValueError', 'could not broadcast')
    sv = (1,) * (len(shape) - len(sv)) + sv
    for x, y in zip(sv, shape):
        if x != y and x != 1:
            raise PyRaise('ValueError', 'could not broadcast input array from shape %s into shape %s' % (V.shape, shape))
    if a.dtype in ('i', 'f4'):
        f = [narrowed(x, a.dtype) for x in f]
    for n, ixs in enumerate(indices(shape)):
        k = 0
        for d, i in zip(sv, ixs):
            k = k * d + (0 if d == 1 else i)
        a.buf[idx[n]] = f[k]


def concat(parts, axis):
    parts = [p if isinstance(p, Arr) else to_arr(p) for p in parts]
    if not parts:
        raise PyRaise('ValueError', 'need at least one array to concatenate')
    nd = len(parts[0].shape)
    if any(len(p.shape) != nd for p in parts):
        raise PyRaise('ValueError', 'all the input arrays must have same number of dimensions')
    if axis < 0:
        axis += nd
    if not 0 <= axis < nd:
        raise PyRaise('ValueError', 'axis out of bounds')
    for p in parts:
        if p.shape[:axis] + p.shape[axis + 1:] != parts[0].shape[:axis] + parts[0].shape[axis + 1:]:
            raise PyRaise('ValueError', 'array dimensions do not match')
    shape = list(parts[0].shape)
    shape[axis] = sum(p.shape[axis] for p in parts)
    out = []
    for ix in indices(shape):
        i = ix[axis]
        for p in parts:
            if i < p.shape[axis]:
                k = 0
                for d, (n, j) in enumerate(zip(p.shape, ix)):
                    k = k * n + (i if d == axis else j)
                out.append(p.buf[p.idx[k]])
                break
            i -= p.shape[axis]
    ds = [p.dtype for p in parts]
    return Arr(shape, out, None, 'f' if 'f' in ds or 'f4' in ds and 'i' in ds else 'f4' if 'f4' in ds else 'i')


def dims(s):
    return (s,) if isinstance(s, int) else tuple(s)


def full(shape, v, dtype='f'):
    shape = dims(shape)
    for d in shape:
        if isinstance(d, Sym):
            raise Undecided('array of symbolic size')
    n = 1
    for d in shape:
        n *= d
    return Arr(shape, [v] * n, None, dtype)


def dt(kw, default):
    d = kw.get('dtype')
    if d is None:
        return default
    if isinstance(d, Type):
        return {'int': 'i', 'float': 'f', 'bool': 'b', 'float32': 'f4'}.get(d.name, 'f')
    if isinstance(d, str):
        return 'i' if 'int' in d or d in ('i', 'l', 'i4', 'i8') else 'f4' if d in ('float32', 'f4', 'f', 'single') else 'f4' if d in ('float16', 'half') else 'f'
    if isinstance(d, Opaque):
        raise Undecided('array type %s' % d.name)
    return default


def reshape(a, shape):
    shape = list(dims(shape))
    n = len(a.idx)
    if -1 in shape:
        k = 1
        for s in shape:
            if s != -1:
                k *= s
        shape[shape.index(-1)] = n // k if k else 0
    k = 1
    for s in shape:
        k *= s
    if k != n:
        raise PyRaise('ValueError', 'cannot reshape')
    return Arr(shape, a.buf, a.idx, a.dtype)


def transpose(a):
    if len(a.shape) != 2:
        if len(a.shape) < 2:
            return a
        raise Undecided('transpose')
    r, c = a.shape
    return Arr((c, r), a.buf, [a.idx[i * c + j] for j in range(c) for i in range(r)], a.dtype)


def delete(a, ix, axis):
    if axis is None:
        a, axis = reshape(a, (-1,)), 0
    n = a.shape[axis]
    if isinstance(ix, slice):
        drop = set(range(*ix.indices(n)))
    else:
        v = to_arr(ix if isinstance(ix, (list, tuple, Arr)) else [ix]).flat()
        for x in v:
            if not isinstance(x, int):
                raise Undecided('np.delete at %r' % (x,))
            if not -n <= x < n:
                raise PyRaise('IndexError', 'delete out of bounds')
        drop = {x % n for x in v}
    keep = [i for i in range(n) if i not in drop]
    return get_item(a, (slice(None),) * axis + (to_arr(keep, 'i'),))


def numpy_mod():
    A = lambda v: v if isinstance(v, Arr) else to_arr(v)

    def p(f):
        return f

    def array(args, kw):
        d = dt(kw, None)
        if kw.get('copy') is False and isinstance(args[0], Arr):
            return args[0]
        a = to_arr(args[0], d)
        if len(args) > 1:
            a = to_arr(args[0], dt({'dtype': args[1]}, None))
        nd = kw.get('ndmin', 0)
        while len(a.shape) < nd:
            a = reshape(a, (1,) + a.shape)
        return a

    def asarray(args, kw):
        return args[0] if isinstance(args[0], Arr) and 'dtype' not in kw else to_arr(args[0], dt(kw, None))

    def hstack(args, kw):
        parts = [A(x) for x in seq(args[0])]
        parts = [reshape(q, (1,)) if not q.shape else q for q in parts]
        return concat(parts, 0 if parts and len(parts[0].shape) == 1 else 1)

    def vstack(args, kw):
        return concat([reshape(A(x), (1, -1)) if len(A(x).shape) < 2 else A(x) for x in seq(args[0])], 0)

    def concatenate(args, kw):
        ax = kw.get('axis', args[1] if len(args) > 1 else 0)
        parts = [A(x) for x in seq(args[0])]
        if ax is None:
            parts, ax = [reshape(q, (-1,)) for q in parts], 0
        if any(not q.shape for q in parts):
            raise PyRaise('ValueError', 'zero-dimensional arrays cannot be concatenated')
        return concat(parts, ax)

    def column_stack(args, kw):
        return concat([reshape(A(x), (-1, 1)) if len(A(x).shape) < 2 else A(x) for x in seq(args[0])], 1)

    def stack(args, kw):
        ax = kw.get('axis', args[1] if len(args) > 1 else 0)
        ps = [A(x) for x in seq(args[0])]
        if ax < 0:
            ax += len(ps[0].shape) + 1
        return concat([reshape(q, q.shape[:ax] + (1,) + q.shape[ax:]) for q in ps], ax)

    def arange(args, kw):
        for x in args:
            if isinstance(x, Sym):
                raise Undecided('arange of a symbol')
        v = list(range(*args)) if all(isinstance(x, int) for x in args) else None
        if v is None:
            raise Undecided('arange of non-integers')
        return Arr((len(v),), v, None, dt(kw, 'i'))

    def expand_dims(args, kw):
        a, ax = A(args[0]), kw.get('axis', args[1] if len(args) > 1 else None)
        if ax < 0:
            ax += len(a.shape) + 1
        return reshape(a, a.shape[:ax] + (1,) + a.shape[ax:])

    def atleast(n):
        def f(args, kw):
            a = args[0] if isinstance(args[0], Arr) else to_arr(args[0])
            if len(a.shape) >= n:
                return a
            return reshape(a, (1,) * (n - len(a.shape)) + a.shape if len(a.shape) or n == 1 else (1,) * n)
        return f

    def isx(name, ff):
        def f(args, kw):
            v = args[0]
            if isinstance(v, (Arr, list, tuple)):
                a = A(v)
                return Arr(a.shape, [one(x) for x in a.flat()], None, 'b')
            return one(v)

        def one(v):
            if isinstance(v, Sym):
                return name == 'isfinite'
            if not isinstance(v, (int, float)):
                raise PyRaise('TypeError', name)
            return ff(v)
        return f

    def allclose(args, kw):
        a, b = A(args[0]), A(args[1])
        fa, fb = a.flat(), b.flat()
        if a.shape != b.shape:
            if a.shape and b.shape:
                raise Undecided('np.allclose')
            fa, fb = (fa * len(fb) if not a.shape else fa), (fb * len(fa) if not b.shape else fb)
        return all(isclose(x, y) for x, y in zip(fa, fb))

    def array_equal(args, kw):
        a, b = A(args[0]), A(args[1])
        if a.shape != b.shape:
            return False
        return all(equal(x, y) for x, y in zip(a.flat(), b.flat()))

    def insert(args, kw):
        a, ix, v = A(args[0]), args[1], args[2]
        ax = kw.get('axis', args[3] if len(args) > 3 else None)
        if ax is None:
            a, ax = reshape(a, (-1,)), 0
        n = a.shape[ax]
        ixs = A(ix).flat() if not isinstance(ix, int) else [ix]
        if any(not isinstance(x, int) for x in ixs):
            raise Undecided('np.insert at a symbol')
        ixs = [x + n if x < 0 else x for x in ixs]
        if isinstance(ix, int):
            V = A(v)
            if not V.shape:
                V = full(a.shape[:ax] + (1,) + a.shape[ax + 1:], V.flat()[0])
            elif len(V.shape) < len(a.shape):
                raise Undecided('np.insert of a lower-dimensional array')
            return concat([get_item(a, (slice(None),) * ax + (slice(0, ixs[0]),)), V,
                           get_item(a, (slice(None),) * ax + (slice(ixs[0], None),))], ax)
        V = A(v)
        if V.shape and len(V.flat()) != 1:
            raise Undecided('np.insert of several values')
        out, pos = [], 0
        order = sorted(range(len(ixs)), key=lambda k: ixs[k])
        for k in order:
            out.append(get_item(a, (slice(None),) * ax + (slice(pos, ixs[k]),)))
            out.append(full(a.shape[:ax] + (1,) + a.shape[ax + 1:], V.flat()[0]))
            pos = ixs[k]
        out.append(get_item(a, (slice(None),) * ax + (slice(pos, None),)))
        return concat(out, ax)

    def npappend(args, kw):
        ax = kw.get('axis', args[2] if len(args) > 2 else None)
        a, b = A(args[0]), A(args[1])
        if ax is None:
            return concat([reshape(a, (-1,)), reshape(b, (-1,))], 0)
        return concat([a, b], ax)

    def take(args, kw):
        ax = kw.get('axis', args[2] if len(args) > 2 else None)
        a = A(args[0])
        if ax is None:
            a, ax = reshape(a, (-1,)), 0
        return get_item(a, (slice(None),) * (ax % len(a.shape)) + (args[1] if isinstance(args[1], int) else to_arr(args[1]),))

    def like(v):
        return lambda args, kw: full(A(args[0]).shape, v, A(args[0]).dtype)

    def pad(args, kw):
        raise Undecided('np.pad')

    def each(n, one):
        def f(args, kw):
            if any(k not in ('decimals', 'a_min', 'a_max') for k in kw):
                raise Undecided('np function with %s' % sorted(kw))
            args = list(args) + [kw[k] for k in ('a_min', 'a_max', 'decimals') if k in kw]
            xs = [A(x) for x in args[:n]] + [A(x) for x in args[n:]]
            shape = max((x.shape for x in xs), key=len)
            if any(x.shape and x.shape != shape for x in xs):
                raise Undecided('broadcast of %s' % [x.shape for x in xs])
            k = max(len(x.idx) for x in xs) if all(len(x.idx) for x in xs) else 0
            cols = [x.flat() if x.shape == shape else x.flat() * k for x in xs]
            out = [one(*t) for t in zip(*cols)]
            if not shape:
                return out[0]
            return Arr(shape, out)
        return f

    def op1(name):
        def one(x, *more):
            x = norm(x)
            if isinstance(x, Sym):
                return Sym(('np.' + name, x) + more)
            if name in ('round', 'around', 'rint'):
                return float(round(x))
            if name in ('deg2rad', 'radians', 'rad2deg', 'degrees'):
                return math.radians(x) if name in ('deg2rad', 'radians') else math.degrees(x)
            try:
                return float(getattr(math, {'arctan2': 'atan2', 'arcsin': 'asin', 'arccos': 'acos', 'arctan': 'atan'}.get(name, name))(x, *more))
            except ValueError:
                return math.nan
        return one

    def op2(name):
        def one(x, y):
            if isinstance(x, Sym) or isinstance(y, Sym):
                return Sym(('np.' + name, x, y))
            return float({'arctan2': math.atan2, 'hypot': math.hypot, 'fmod': math.fmod}[name](x, y))
        return one
    less = lambda x, y: truth(cmpop('<', x, y))
    elem = {n: each(1, op1(n)) for n in ('sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'sqrt', 'exp', 'log', 'floor', 'ceil', 'trunc', 'round', 'around', 'rint', 'deg2rad', 'radians', 'rad2deg', 'degrees')}
    elem.update({n: each(2, op2(n)) for n in ('arctan2', 'hypot', 'fmod')})
    elem.update({n: each(2, lambda x, y, o=o: arith(o, x, y)) for n, o in (('add', '+'), ('subtract', '-'), ('multiply', '*'), ('divide', '/'), ('mod', '%'), ('remainder', '%'))})
    elem.update({
        'clip': each(3, lambda x, a, b: a if a is not None and less(x, a) else b if b is not None and less(b, x) else x),
        'minimum': each(2, lambda x, y: y if less(y, x) else x), 'maximum': each(2, lambda x, y: y if less(x, y) else x),
        'where': each(3, lambda c, x, y: x if truth(c) else y),
        'abs': each(1, lambda x: arith('-', 0, x) if less(x, 0) else x), 'absolute': each(1, lambda x: arith('-', 0, x) if less(x, 0) else x),
        'sign': each(1, lambda x: -1.0 if less(x, 0) else 1.0 if less(0, x) else 0.0), 'negative': each(1, lambda x: arith('-', 0, x)),
        'nan_to_num': each(1, lambda x: x if isinstance(x, Sym) or math.isfinite(x) else 0.0 if x != x else math.copysign(1.7976931348623157e308, x)),
        'equal': each(2, lambda x, y: truth(cmpop('==', x, y))), 'less': each(2, less), 'greater': each(2, lambda x, y: less(y, x)),
        'isclose': each(2, lambda x, y: isclose(x, y))})

    def isclose(x, y):
        if same(x, y):
            return True
        d = arith('-', x, y)
        return truth(cmpop('<=', d, 1e-8)) and truth(cmpop('<=', -1e-8, d))
    fs = {
        'array': array, 'asarray': asarray, 'asanyarray': asarray, 'ascontiguousarray': asarray, 'hstack': hstack, 'vstack': vstack,
        'concatenate': concatenate, 'column_stack': column_stack, 'stack': stack, 'arange': arange, 'expand_dims': expand_dims,
        'zeros': lambda a, k: full(a[0] if a else k['shape'], 0 if dt(dict(k, **({'dtype': a[1]} if len(a) > 1 else {})), 'f') == 'i' else 0.0, dt(dict(k, **({'dtype': a[1]} if len(a) > 1 else {})), 'f')),
        'ones': lambda a, k: full(a[0], 1.0, dt(k, 'f')), 'full': lambda a, k: full(a[0], a[1], dt(k, 'f')),
        'empty': lambda a, k: Arr(full(a[0], 0).shape, [Sym('uninitialised') for _ in full(a[0], 0).buf], None, dt(k, 'f')),
        'zeros_like': like(0.0), 'ones_like': like(1.0), 'atleast_1d': atleast(1), 'atleast_2d': atleast(2),
        'isinf': isx('isinf', math.isinf), 'isnan': isx('isnan', math.isnan), 'isfinite': isx('isfinite', math.isfinite),
        'isneginf': isx('isneginf', lambda v: v == -math.inf), 'isposinf': isx('isposinf', lambda v: v == math.inf),
        'allclose': allclose, 'array_equal': array_equal, 'delete': lambda a, k: delete(A(a[0]), a[1], k.get('axis', a[2] if len(a) > 2 else None)),
        'insert': insert, 'append': npappend, 'take': take, 'reshape': lambda a, k: reshape(A(a[0]), a[1]),
        'transpose': lambda a, k: transpose(A(a[0])), 'copy': lambda a, k: A(a[0]).copy(),
        'ndim': lambda a, k: len(A(a[0]).shape), 'shape': lambda a, k: A(a[0]).shape, 'size': lambda a, k: len(A(a[0]).idx),
        'squeeze': lambda a, k: reshape(A(a[0]), tuple(s for s in A(a[0]).shape if s != 1)),
        'split': lambda a, k: split(A(a[0]), a[1], k.get('axis', a[2] if len(a) > 2 else 0)),
        'hsplit': lambda a, k: split(A(a[0]), a[1], 1 if len(A(a[0]).shape) > 1 else 0),
        'append_': None, 'ravel': lambda a, k: reshape(A(a[0]), (-1,)),
        'all': lambda a, k: all(truth(x) for x in A(a[0]).flat()), 'any': lambda a, k: any(truth(x) for x in A(a[0]).flat()),
    }
    fs.update({n: f for n, f in elem.items() if n not in fs})
    m = {n: Prim('np.' + n, f) for n, f in fs.items() if f}
    m.update({'inf': math.inf, 'nan': math.nan, 'newaxis': None, 'pi': math.pi, 'ndarray': Type('ndarray'), 'float64': Type('float'),
              'float32': Type('float32'), 'single': Type('float32'), 'float16': Type('float32'), 'double': Type('float'), 'int64': Type('int'), 'int32': Type('int'), 'intp': Type('int'), 'integer': Type('npint'), 'floating': Type('npfloat'),
              'Inf': math.inf, 'PINF': math.inf, 'NINF': -math.inf, 'bool_': Type('bool'), 'r_': RC(0), 'c_': RC(1)})
    return Mod('numpy', m)


class RC:
    def __init__(self, ax):
        self.ax = ax

    def item(self, ix):
        parts = []
        for i in (ix if isinstance(ix, tuple) else (ix,)):
            if isinstance(i, slice):
                v = list(range(i.start or 0, i.stop, i.step or 1))
                parts.append(Arr((len(v),), v, None, 'i'))
            else:
                a = to_arr(i)
                parts.append(reshape(a, (1,)) if not a.shape else a)
        if self.ax == 0:
            return concat(parts, 0)
        return concat([reshape(q, (-1, 1)) if len(q.shape) == 1 else q for q in parts], 1)


def split(a, ix, axis):
    n = a.shape[axis]
    if isinstance(ix, int):
        if n % ix:
            raise PyRaise('ValueError', 'array split does not result in an equal division')
        cuts = [k * (n // ix) for k in range(ix + 1)]
    else:
        cuts = [0] + list(ix if not isinstance(ix, Arr) else ix.flat()) + [n]
    return [get_item(a, (slice(None),) * axis + (slice(cuts[i], cuts[i + 1]),)) for i in range(len(cuts) - 1)]


def seq(v):
    """the items of an iterable"""
    if isinstance(v, (list, tuple, range)):
        return list(v)
    if isinstance(v, Arr):
        if not v.shape:
            raise PyRaise('TypeError', 'iteration over a 0-d array')
        return v.rows()
    if isinstance(v, dict):
        return list(v)
    if isinstance(v, set):
        return sorted(v, key=lambda x: repr(key(x)))
    if isinstance(v, str):
        return list(v)
    if isinstance(v, Cls) and v.enum:
        return [x for x in v.attrs.values() if isinstance(x, Obj) and x.cls is v]
    if isinstance(v, (int, float, type(None), bool)):
        raise PyRaise('TypeError', '%s is not iterable' % type(v).__name__)
    raise Undecided('iteration over %r' % (v,))


def deepcopy(I, v, memo=None):
    memo = {} if memo is None else memo
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, list):
        r = memo[id(v)] = []
        r.extend(deepcopy(I, x, memo) for x in v)
        return r
    if isinstance(v, tuple):
        return tuple(deepcopy(I, x, memo) for x in v)
    if isinstance(v, dict):
        r = memo[id(v)] = {}
        for k, x in v.items():
            r[k] = deepcopy(I, x, memo)
        return r
    if isinstance(v, Arr):
        r = memo[id(v)] = v.copy()
        return r
    if isinstance(v, Obj):
        if v.cls and v.cls.enum:
            return v
        return I.reconstruct(v, memo)
    if isinstance(v, Robot):
        raise PyRaise('TypeError', 'cannot pickle the RobotModel of the binding')
    return v


# --------------------------------------------------------------------------- the binding
class Robot:
    """what a RobotModel of the binding is to the Python layer: recorded calls and the state they set"""

    def __init__(self, world, text):
        self.world = world
        self.text = text
        self.calls = []
        self.added = []
        self.angles = {}
        self.base = [0.0] * 6
        self.n = 0

    def fresh(self, what):
        self.n += 1
        return '%s#%d' % (what, self.n)

    def state(self):
        return key([self.text, self.added, self.angles, self.base])


class World:
    """the binding's table (from PYBIND11_MODULE) and how its methods answer"""

    def __init__(self, table, limits=()):
        self.table = table            # name -> [ [(param name, type text)] ]
        self.limits = limits
        self.robots = []
        self.rot = Cls('_tinyfk.RotationType', {}, enum=True)
        for n, v in table['enum'].items():
            self.rot.attrs[n] = Obj(self.rot, {'name': n, 'value': v})

    def module(self):
        return Mod('_tinyfk', {'RobotModel': Prim('_tinyfk.RobotModel', self.construct), 'RotationType': self.rot})

    def construct(self, args, kw):
        if len(args) != 1 or kw:
            raise PyRaise('TypeError', 'RobotModel takes one text')
        if not (isinstance(args[0], str) or (isinstance(args[0], Sym) and args[0].kind == 's')):
            raise PyRaise('TypeError', 'RobotModel takes one text')
        r = Robot(self, args[0])
        self.robots.append(r)
        return r

    def attr(self, r, name):
        if name in self.table['fields']:
            return Sym('robot.' + self.table['fields'][name])
        if name not in self.table['methods']:
            raise PyRaise('AttributeError', 'RobotModel has no attribute %s' % name)
        return Prim(name, lambda args, kw: self.call(r, name, args, kw))

    def call(self, r, name, args, kw):
        err = None
        for sig in self.table['methods'][name]:
            try:
                vals = self.convert(sig, args, kw)
                break
            except PyRaise as e:
                err = e
        else:
            raise PyRaise('TypeError', '%s: %s' % (name, err))
        target = sig['target']
        r.calls.append((name, vals))
        f = getattr(self, 'm_' + (target or ''), None)
        if f is None:
            raise Undecided('no model of the binding method %s' % name)
        return f(r, *vals)

    def convert(self, sig, args, kw):
        ps = sig['params']
        vals = list(args)
        if kw:
            names = sig.get('argnames')
            if not names:
                raise PyRaise('TypeError', 'the binding names no arguments')
            for n in names[len(args):]:
                if n not in kw:
                    raise PyRaise('TypeError', 'missing argument ' + n)
                vals.append(kw[n])
            if set(kw) - set(names[len(args):]):
                raise PyRaise('TypeError', 'unexpected keyword')
        if len(vals) != len(ps):
            raise PyRaise('TypeError', 'takes %d arguments, %d given' % (len(ps), len(vals)))
        return [conv(v, t) for v, (_n, t) in zip(vals, ps)]

    # ---- answers
    def grid(self, name, r, c, dtype='f'):
        return Arr((r, c), [Sym('%s[%d,%d]' % (name, i, j)) for i in range(r) for j in range(c)], None, 'f')

    def m_solve_forward_kinematics(self, r, qs, el, jt, rot, base, jac, cache):
        k = {'IGNORE': 3, 'RPY': 6, 'XYZW': 7}[rot.attrs['value']]
        nd = len(jt) + (6 if base else 0)
        for q in qs:
            if (len(q) != nd if base else len(q) < nd):
                raise PyRaise('ValueError', 'dof mismatch')
        n = r.fresh('fk')
        return [self.grid(n + '.P', len(qs) * len(el), k), self.grid(n + '.J', len(qs) * len(el) * k, nd)]

    def m_solve_com_forward_kinematics(self, r, qs, jt, al, af, base, jac):
        nd = len(jt) + (6 if base else 0)
        for q in qs:
            if (len(q) != nd if base else len(q) < nd):
                raise PyRaise('ValueError', 'dof mismatch')
        if len(al) != len(af):
            raise PyRaise('ValueError', 'one force per action link')
        n = r.fresh('com')
        return [self.grid(n + '.P', len(qs), 3), self.grid(n + '.J', 3 * len(qs), nd)]

    def m_compute_inter_link_squared_dists(self, r, qs, a, b, jt, base, jac, cache):
        nd = len(jt) + (6 if base else 0)
        for q in qs:
            if (len(q) != nd if base else len(q) < nd):
                raise PyRaise('ValueError', 'dof mismatch')
        if len(a) != len(b):
            raise PyRaise('ValueError', 'link lists must have the same length')
        n = r.fresh('sq')
        m = len(qs) * len(a)
        return (Arr((m,), [Sym('%s.V[%d]' % (n, i)) for i in range(m)], None, 'f'), self.grid(n + '.J', m, nd) if jac else self.grid(n + '.Z', 1, 1))

    def m_compute_total_inertia_matrix(self, r, q, jt):
        if len(q) < len(jt):
            raise PyRaise('ValueError', 'too few joint angles')
        return self.grid(r.fresh('inertia'), 3, 3)

    def m_get_joint_angles(self, r, ids):
        return [r.angles.get(slot(i), 0.0) for i in ids]

    def m_set_joint_angles(self, r, ids, angles):
        if len(angles) < len(ids):
            raise PyRaise('ValueError', 'too few joint angles')
        for i, a in zip(ids, angles):
            r.angles[slot(i)] = a

    def m_get_base_pose(self, r):
        return list(r.base)

    def m_set_base_pose(self, r, v):
        if len(v) != 6:
            raise PyRaise('ValueError', 'argument must have size 6')
        r.base = list(v)

    def m_get_root_link_name(self, r):
        return Sym('root name', 's')

    def m_get_joint_names(self, r):
        return [Sym(r.fresh('joint name'), 's')]

    def m_get_link_names(self, r):
        return [Sym(r.fresh('link name'), 's')]

    def m_get_joint_ids(self, r, names):
        return [Sym('joint id of %r' % (n,), 'i') for n in names]

    def m_get_link_ids(self, r, names):
        return [Sym('link id of %r' % (n,), 'i') for n in names]

    def m_get_joint_position_limits(self, r, ids):
        return [tuple(self.limits[i % len(self.limits)]) if self.limits else (-math.inf, math.inf) for i in range(len(ids))]

    def m_add_new_link(self, r, name, parent, pos, rot):
        if any(same(a[0], name) for a in r.added):
            raise PyRaise('RuntimeError', 'link name is already used')
        r.added.append([name, parent, pos, rot])

    def m_clear_cache(self, r):
        return None


def conv(v, t):
    """pybind11's conversion of v to the C++ parameter type t"""
    import re
    t = re.sub(r'\b(const|class|struct)\b|&', ' ', t)
    t = re.sub(r'\s+', ' ', t).strip()
    t = t.replace('unsigned long', 'size_t').replace('std::basic_string<char>', 'std::string').replace('tinyfk::', '')
    m = re.match(r'std::vector<(.*?)(, std::allocator.*)?>$', t)

    def items():
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, Arr) and v.shape:
            return v.rows()
        raise PyRaise('TypeError', '%r is not a sequence' % (v,))
    if m:
        return [conv(x, m.group(1)) for x in items()]
    m = re.match(r'std::array<(.*), (\d+)>$', t)
    if m:
        it = items()
        if len(it) != int(m.group(2)):
            raise PyRaise('TypeError', 'needs %s entries' % m.group(2))
        return [conv(x, m.group(1)) for x in it]
    if t == 'size_t' or t in ('int', 'unsigned int', 'long'):
        if is_int(v):
            if isinstance(v, int) and v < 0 and t not in ('int', 'long'):
                raise PyRaise('TypeError', 'negative id')
            return v
        raise PyRaise('TypeError', '%r is not an integer' % (v,))
    if t in ('double', 'float'):
        if is_num(v) and not isinstance(v, bool):
            return narrowed(v, 'f4') if t == 'float' else v
        raise PyRaise('TypeError', '%r is not a number' % (v,))
    if t == 'bool':
        if isinstance(v, bool):
            return v
        raise PyRaise('TypeError', '%r is not a bool' % (v,))
    if t == 'std::string':
        if isinstance(v, str) or (isinstance(v, Sym) and v.kind == 's'):
            return v
        raise PyRaise('TypeError', '%r is not a text' % (v,))
    if t == 'RotationType':
        if isinstance(v, Obj) and v.cls and v.cls.name == '_tinyfk.RotationType':
            return v
        raise PyRaise('TypeError', '%r is not a RotationType' % (v,))
    raise Undecided('conversion to %s' % t)


# --------------------------------------------------------------------------- the interpreter
class Env:
    def __init__(self, parent=None, cls=False):
        self.v = {}
        self.parent = parent
        self.cls = cls
        self.globals = set()
        self.nonlocals = set()

    def look(self, n):
        e = self
        first = True
        while e is not None:
            if n in e.v and (first or not e.cls):
                return e.v[n]
            e = e.parent
            first = False
        raise KeyError(n)


def _mods(I):
    import ast as _a
    return {
        'numpy': numpy_mod(),
        'copy': Mod('copy', {'deepcopy': Prim('deepcopy', lambda a, k: deepcopy(I, a[0])), 'copy': Prim('copy', lambda a, k: shallow(a[0]))}),
        'math': Mod('math', {'inf': math.inf, 'pi': math.pi, 'nan': math.nan, 'isinf': numpy_mod().attrs['isinf'], 'isnan': numpy_mod().attrs['isnan'], 'isfinite': numpy_mod().attrs['isfinite']}),
        'enum': Mod('enum', {'Enum': Type('Enum'), 'IntEnum': Type('Enum')}),
        'typing': Mod('typing', {'List': Type('list'), 'Tuple': Type('tuple'), 'Dict': Type('dict'), 'Sequence': Type('sequence')}),
    }


def shallow(v):
    if isinstance(v, Arr):
        return v.copy()
    if isinstance(v, (list, dict, set)):
        return v.copy()
    if isinstance(v, (Obj, Robot)) and not (isinstance(v, Obj) and v.cls.enum):
        raise Undecided('shallow copy of %r' % (v,))
    return v


class PyInterp:
    def __init__(self, path, world, package='_tinyfk'):
        self.path = path
        self.src = open(path).read()
        self.tree = ast.parse(self.src)
        self.world = world
        self.steps = 0
        self.functions = set()
        self.mods = _mods(self)
        self.g = Env()
        self.b = builtins(self)
        self.skipped = []
        for s in self.tree.body:
            if isinstance(s, (ast.If, ast.Expr, ast.For, ast.While, ast.With, ast.Try)):
                # start-up actions (downloads, cache folder); not part of the queries
                self.skipped.append(s.lineno)
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        self.g.v[n.id] = Opaque(n.id)
                continue
            try:
                self.stmt(s, self.g)
            except (Undecided, PyRaise) as e:
                if isinstance(s, (ast.ClassDef, ast.FunctionDef)):
                    raise
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        self.g.v[n.id] = Opaque('%s (%s)' % (n.id, e))

    # ---- statements
    def stmt(self, s, env):
        self.steps += 1
        if self.steps > 400000:
            raise Undecided('too many steps')
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Undecided('statement %s at line %d' % (type(s).__name__, s.lineno))
        m(s, env)

    def block(self, b, env):
        for s in b:
            self.stmt(s, env)

    def s_Import(self, s, env):
        for a in s.names:
            base = a.name.split('.')[0]
            env.v[a.asname or base] = self.mods.get(a.name if a.asname else base) or Opaque(a.name)

    def s_ImportFrom(self, s, env):
        for a in s.names:
            if s.level and a.name == '_tinyfk':
                env.v[a.asname or a.name] = self.world.module()
            elif s.level and s.module == '_tinyfk':
                env.v[a.asname or a.name] = self.world.module().attrs.get(a.name) or Opaque(a.name)
            else:
                m = self.mods.get(s.module)
                env.v[a.asname or a.name] = m.attrs[a.name] if m and a.name in m.attrs else Opaque('%s.%s' % (s.module, a.name))

    def s_Pass(self, s, env):
        pass

    def s_Global(self, s, env):
        env.globals |= set(s.names)

    def s_Nonlocal(self, s, env):
        env.nonlocals |= set(s.names)

    def s_Expr(self, s, env):
        self.ev(s.value, env)

    def s_Return(self, s, env):
        raise _Ret(None if s.value is None else self.ev(s.value, env))

    def s_Break(self, s, env):
        raise _Brk()

    def s_Continue(self, s, env):
        raise _Cont()

    def s_Assert(self, s, env):
        if not truth(self.ev(s.test, env)):
            raise PyRaise('AssertionError', ast.unparse(s.test))

    def s_If(self, s, env):
        self.block(s.body if truth(self.ev(s.test, env)) else s.orelse, env)

    def s_While(self, s, env):
        n = 0
        while truth(self.ev(s.test, env)):
            n += 1
            if n > 10000:
                raise Undecided('loop at line %d' % s.lineno)
            try:
                self.block(s.body, env)
            except _Brk:
                return
            except _Cont:
                pass
        self.block(s.orelse, env)

    def s_For(self, s, env):
        it = self.ev(s.iter, env)
        # a list is walked live, as Python does
        i = 0
        live = isinstance(it, list)
        items = it if live else seq(it)
        while i < len(items):
            if i > 10000:
                raise Undecided('loop at line %d' % s.lineno)
            self.assign(s.target, items[i], env)
            i += 1
            try:
                self.block(s.body, env)
            except _Brk:
                return
            except _Cont:
                pass
        self.block(s.orelse, env)

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**', ast.BitXor: '^', ast.BitAnd: '&', ast.BitOr: '|'}

    def s_AugAssign(self, s, env):
        t = ast.copy_location(type(s.target)(**{k: getattr(s.target, k) for k in s.target._fields if k != 'ctx'}, ctx=ast.Load()), s.target)
        cur = self.ev(t, env)
        v = self.ev(s.value, env)
        op = self.OPS[type(s.op)]
        if isinstance(cur, list) and op == '+':
            cur.extend(seq(v))
            self.assign(s.target, cur, env)
            return
        r = self.binop(op, cur, v)
        if isinstance(cur, Arr) and isinstance(r, Arr) and cur.shape == r.shape:
            for i, x in zip(cur.idx, r.flat()):
                cur.buf[i] = x
            r = cur
        self.assign(s.target, r, env)

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.v.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o, i = self.ev(t.value, env), self.index(t.slice, env)
                try:
                    del o[i]
                except (KeyError, IndexError):
                    raise PyRaise('KeyError')
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env)
                if t.attr not in o.attrs:
                    raise PyRaise('AttributeError', t.attr)
                del o.attrs[t.attr]

    def s_With(self, s, env):
        for it in s.items:
            v = self.ev(it.context_expr, env)
            if not isinstance(v, (Opaque, FileV)):
                raise Undecided('with %r' % (v,))
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
        self.block(s.body, env)

    def s_Raise(self, s, env):
        if s.exc is None:
            raise getattr(self, 'current', None) or PyRaise('RuntimeError', 'no active exception')
        v = self.ev(s.exc, env)
        if isinstance(v, Type) and v.name in EXC:
            raise PyRaise(v.name)
        if isinstance(v, ExcV):
            raise PyRaise(v.kind, v.args)
        raise Undecided('raise %r' % (v,))

    def s_Try(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except PyRaise as e:
                for h in s.handlers:
                    names = []
                    if h.type is not None:
                        t = self.ev(h.type, env)
                        names = [x.name for x in (t if isinstance(t, tuple) else (t,)) if isinstance(x, Type)]
                        if not names:
                            raise Undecided('except %r' % (t,))
                    if h.type is None or any(exc_is(e.kind, n) for n in names):
                        if h.name:
                            env.v[h.name] = ExcV(e.kind, ())
                        old = getattr(self, 'current', None)
                        self.current = e
                        try:
                            self.block(h.body, env)
                        finally:
                            self.current = old
                        return
                raise
            else:
                self.block(s.orelse, env)
        finally:
            self.block(s.finalbody, env)

    def s_FunctionDef(self, s, env):
        f = Func(s, env, [self.ev(d, env) for d in s.args.defaults], [None if d is None else self.ev(d, env) for d in s.args.kw_defaults], s.name)
        v = f
        for d in reversed(s.decorator_list):
            if isinstance(d, ast.Name) and d.id in ('property', 'staticmethod', 'classmethod'):
                v = Wrapped(d.id, f)
            elif isinstance(d, ast.Attribute) and d.attr == 'setter':
                v = Wrapped('property', env.v[s.name].f, f)
            else:
                raise Undecided('decorator %s' % ast.unparse(d))
        env.v[s.name] = v

    def s_ClassDef(self, s, env):
        if s.decorator_list:
            raise Undecided('class decorator at line %d' % s.lineno)
        bases = [self.ev(b, env) for b in s.bases]
        enum = any((isinstance(b, Type) and b.name == 'Enum') or (isinstance(b, Cls) and b.enum) for b in bases)
        e = Env(env, cls=True)
        self.block(s.body, e)
        c = Cls(s.name, e.v, bases, enum)
        if enum:
            for n, v in list(c.attrs.items()):
                if not isinstance(v, (Func, Wrapped)) and not n.startswith('_'):
                    # equal values are aliases of the first member
                    for m in c.attrs.values():
                        if isinstance(m, Obj) and m.cls is c and same(m.attrs['value'], v):
                            c.attrs[n] = m
                            break
                    else:
                        c.attrs[n] = Obj(c, {'name': n, 'value': v})
        env.v[s.name] = c

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            if t.id in env.globals:
                self.g.v[t.id] = v
            elif t.id in env.nonlocals:
                e = env.parent
                while e is not None and t.id not in e.v:
                    e = e.parent
                (e or env).v[t.id] = v
            else:
                env.v[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = seq(v)
            st = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if st:
                k = st[0]
                after = len(t.elts) - k - 1
                if len(items) < len(t.elts) - 1:
                    raise PyRaise('ValueError', 'not enough values to unpack')
                items = items[:k] + [items[k:len(items) - after]] + items[len(items) - after:]
                for x, y in zip(t.elts, items):
                    self.assign(x.value if isinstance(x, ast.Starred) else x, y, env)
                return
            if len(items) != len(t.elts):
                raise PyRaise('ValueError', 'cannot unpack %d values into %d' % (len(items), len(t.elts)))
            for x, y in zip(t.elts, items):
                self.assign(x, y, env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            if isinstance(o, Obj):
                w = o.cls.find(t.attr) if o.cls else None
                if isinstance(w, Wrapped) and w.kind == 'property':
                    if w.setter is None:
                        raise PyRaise('AttributeError', 'property has no setter')
                    self.call(w.setter, [o, v], {})
                    return
                o.attrs[t.attr] = v
            elif isinstance(o, Cls):
                o.attrs[t.attr] = v
            else:
                raise Undecided('store to attribute of %r' % (o,))
        elif isinstance(t, ast.Subscript):
            o, i = self.ev(t.value, env), self.index(t.slice, env)
            if isinstance(o, Arr):
                set_item(o, i, v)
            elif isinstance(o, list):
                try:
                    o[i] = v if not isinstance(i, slice) else seq(v)
                except IndexError:
                    raise PyRaise('IndexError')
                except TypeError:
                    raise Undecided('store at %r' % (i,))
            elif isinstance(o, dict):
                o[hashable(i)] = v
            else:
                raise Undecided('item store to %r' % (o,))
        else:
            raise Undecided('assignment to %s' % type(t).__name__)

    # ---- expressions
    def ev(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Undecided('expression %s at line %d' % (type(e).__name__, e.lineno))
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        try:
            return env.look(e.id)
        except KeyError:
            if e.id in self.b:
                return self.b[e.id]
            raise PyRaise('NameError', e.id)

    def e_List(self, e, env):
        return self.elts(e.elts, env)

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def e_Set(self, e, env):
        return {hashable(x) for x in self.elts(e.elts, env)}

    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out += seq(self.ev(x.value, env))
            else:
                out.append(self.ev(x, env))
        return out

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, env))
            else:
                d[hashable(self.ev(k, env))] = self.ev(v, env)
        return d

    def e_JoinedStr(self, e, env):
        out = ''
        for v in e.values:
            if isinstance(v, ast.Constant):
                out += v.value
            else:
                x = self.ev(v.value, env)
                out += str(x) if not isinstance(x, str) else x
        return out

    def e_IfExp(self, e, env):
        return self.ev(e.body if truth(self.ev(e.test, env)) else e.orelse, env)

    def e_BoolOp(self, e, env):
        for x in e.values:
            v = self.ev(x, env)
            if truth(v) != isinstance(e.op, ast.And):
                return v
        return v

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return not truth(v)
        if isinstance(e.op, ast.USub):
            return arith('-', 0, v) if isinstance(v, (Sym, Arr)) else -v
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(v, int):
            return ~v
        raise Undecided('unary operator')

    def e_BinOp(self, e, env):
        a = self.ev(e.left, env)
        b = self.ev(e.right, env)
        if type(e.op) not in self.OPS:
            raise Undecided('operator at line %d' % e.lineno)
        return self.binop(self.OPS[type(e.op)], a, b)

    def binop(self, op, a, b):
        return arith(op, a, b)

    def e_Compare(self, e, env):
        a = self.ev(e.left, env)
        r = True
        for op, c in zip(e.ops, e.comparators):
            b = self.ev(c, env)
            r = self.compare(op, a, b)
            if len(e.ops) > 1 and not truth(r):
                return False
            a = b
        return r

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return not self.is_(a, b)
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, dict):
                r = any(equal(a, k) for k in b)
            elif isinstance(b, str) and isinstance(a, str):
                r = a in b
            else:
                r = any(truth(cmpop('==', a, x)) for x in seq(b))
            return r if isinstance(op, ast.In) else not r
        o = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.Gt: '>', ast.LtE: '<=', ast.GtE: '>='}[type(op)]
        return cmpop(o, a, b)

    def is_(self, a, b):
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            return a is b
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Undecided('identity of %r' % (a,))
        return a is b

    def e_Lambda(self, e, env):
        return Func(e, env, [self.ev(d, env) for d in e.args.defaults], [None if d is None else self.ev(d, env) for d in e.args.kw_defaults], '<lambda>')

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Starred(self, e, env):
        raise Undecided('starred expression')

    def comp(self, gens, env, f):
        e2 = Env(env)

        def go(i):
            if i == len(gens):
                f(e2)
                return
            g = gens[i]
            for x in seq(self.ev(g.iter, e2 if i else env)):
                self.assign(g.target, x, e2)
                if all(truth(self.ev(c, e2)) for c in g.ifs):
                    go(i + 1)
        go(0)

    def e_ListComp(self, e, env):
        out = []
        self.comp(e.generators, env, lambda e2: out.append(self.ev(e.elt, e2)))
        return out

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, env):
        return {hashable(x) for x in self.e_ListComp(e, env)}

    def e_DictComp(self, e, env):
        d = {}
        self.comp(e.generators, env, lambda e2: d.__setitem__(hashable(self.ev(e.key, e2)), self.ev(e.value, e2)))
        return d

    def index(self, s, env):
        if isinstance(s, ast.Slice):
            return slice(*[None if x is None else self.ev(x, env) for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.index(x, env) for x in s.elts)
        return self.ev(s, env)

    def e_Slice(self, e, env):
        return self.index(e, env)

    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        if isinstance(o, (Type, Opaque)):
            return Opaque('type')
        i = self.index(e.slice, env)
        if isinstance(o, Arr):
            return get_item(o, i)
        if isinstance(o, RC):
            return o.item(i)
        if isinstance(o, (list, tuple, str, range)):
            if isinstance(i, slice) or isinstance(i, int):
                try:
                    return o[i]
                except IndexError:
                    raise PyRaise('IndexError', 'index %r' % (i,))
            if isinstance(i, Sym):
                raise Undecided('index %r' % i)
            raise PyRaise('TypeError', 'indices must be integers')
        if isinstance(o, dict):
            for k in o:
                if equal(k, i):
                    return o[k]
            raise PyRaise('KeyError', i)
        if isinstance(o, Cls) and o.enum:
            if i in o.attrs:
                return o.attrs[i]
            raise PyRaise('KeyError', i)
        if o is None:
            raise PyRaise('TypeError', 'None is not subscriptable')
        raise Undecided('subscript of %r' % (o,))

    def e_Attribute(self, e, env):
        return self.attr(self.ev(e.value, env), e.attr)

    def attr(self, o, n):
        if isinstance(o, Mod):
            if n in o.attrs:
                return o.attrs[n]
            if o.name == '_tinyfk':
                raise PyRaise('AttributeError', '_tinyfk.' + n)
            return Opaque('%s.%s' % (o.name, n))
        if isinstance(o, Robot):
            return self.world.attr(o, n)
        if isinstance(o, Obj):
            w = o.cls.find(n) if o.cls else None
            if isinstance(w, Wrapped) and w.kind == 'property':
                return self.call(w.f, [o], {})
            if n == '__dict__':
                return o.attrs
            if n == '__class__':
                return o.cls
            if n in o.attrs:
                return o.attrs[n]
            if isinstance(w, Func):
                return Bound(w, o)
            if isinstance(w, Wrapped):
                return w.f if w.kind == 'staticmethod' else Bound(w.f, o.cls)
            if o.cls and o.cls.has(n):
                return w
            raise PyRaise('AttributeError', n)
        if isinstance(o, Cls):
            if o.has(n):
                w = o.find(n)
                if isinstance(w, Wrapped):
                    return w.f if w.kind == 'staticmethod' else Bound(w.f, o)
                return w
            if n == '__new__':
                return Prim('__new__', lambda a, k: Obj(a[0], {}))
            if n == '__name__':
                return o.name
            raise PyRaise('AttributeError', n)
        if isinstance(o, Arr):
            return self.arr_attr(o, n)
        if isinstance(o, FileV):
            return Prim('read', lambda a, k: o.text) if n == 'read' else Prim(n, lambda a, k: None)
        if isinstance(o, (list, dict, str, tuple, set)):
            return self.host_attr(o, n)
        if isinstance(o, Type) and o.name == 'dict' and n == 'fromkeys':
            return Prim('fromkeys', lambda a, k: {hashable(x): (a[1] if len(a) > 1 else None) for x in seq(a[0])})
        if isinstance(o, Opaque):
            return Opaque('%s.%s' % (o.name, n))
        if isinstance(o, Sym) and o.kind == 's':
            raise Undecided('text method %s' % n)
        if o is None or isinstance(o, (int, float, range, Func, Bound)) or (isinstance(o, Sym) and o.kind != 's' and n in ('shape', 'ndim', 'append', 'T', 'copy', 'value')):
            raise PyRaise('AttributeError', '%s has no attribute %s' % (type(o).__name__, n))
        if isinstance(o, SuperV):
            w = o.cls.find(n)
            if isinstance(w, Func):
                return Bound(w, o.obj)
            if n in ('__init__', '__init_subclass__'):
                return Prim(n, lambda a, k: None)
            if n == '__setattr__':
                return Prim(n, lambda a, k: o.obj.attrs.__setitem__(a[0], a[1]))
        raise Undecided('attribute %s of %r' % (n, o))

    def arr_attr(self, a, n):
        if n == 'shape':
            return a.shape
        if n == 'ndim':
            return len(a.shape)
        if n == 'size':
            return len(a.idx)
        if n == 'T':
            return transpose(a)
        if n == 'dtype':
            return TYPES[a.dtype]
        f = {'copy': lambda x, k: a.copy(), 'tolist': lambda x, k: a.nested() if a.shape else a.flat()[0],
             'reshape': lambda x, k: reshape(a, x[0] if len(x) == 1 else tuple(x)), 'flatten': lambda x, k: reshape(a.copy(), (-1,)),
             'ravel': lambda x, k: reshape(a, (-1,)), 'transpose': lambda x, k: transpose(a),
             'astype': lambda x, k: Arr(a.shape, a.flat(), None, dt({'dtype': x[0]}, a.dtype)),
             'squeeze': lambda x, k: reshape(a, tuple(s for s in a.shape if s != 1)),
             'item': lambda x, k: a.flat()[0], 'all': lambda x, k: all(truth(y) for y in a.flat()),
             'any': lambda x, k: any(truth(y) for y in a.flat()),
             'take': lambda x, k: self.mods['numpy'].attrs['take'].fn([a] + list(x), k)}.get(n)
        if f is None:
            raise Undecided('array method %s' % n)
        return Prim(n, f)

    def host_attr(self, o, n):
        def h(f):
            return Prim(n, f)
        if isinstance(o, list):
            T = {'append': lambda a, k: o.append(a[0]), 'extend': lambda a, k: o.extend(seq(a[0])), 'copy': lambda a, k: list(o),
                 'clear': lambda a, k: o.clear(), 'insert': lambda a, k: o.insert(a[0], a[1]),
                 'pop': lambda a, k: self.guard(lambda: o.pop(*a), 'IndexError'), 'reverse': lambda a, k: o.reverse(),
                 'index': lambda a, k: self.find(o, a[0]), 'count': lambda a, k: sum(1 for x in o if equal(x, a[0]))}
            if n in T:
                return h(T[n])
        if isinstance(o, tuple):
            T = {'index': lambda a, k: self.find(o, a[0]), 'count': lambda a, k: sum(1 for x in o if equal(x, a[0]))}
            if n in T:
                return h(T[n])
        if isinstance(o, dict):
            T = {'copy': lambda a, k: dict(o), 'update': lambda a, k: o.update(dict(a[0]) if a else {}, **k), 'items': lambda a, k: list(o.items()),
                 'keys': lambda a, k: list(o), 'values': lambda a, k: list(o.values()), 'clear': lambda a, k: o.clear(),
                 'get': lambda a, k: o.get(hashable(a[0]), a[1] if len(a) > 1 else None),
                 'pop': lambda a, k: self.guard(lambda: o.pop(hashable(a[0]), *a[1:]), 'KeyError'),
                 'setdefault': lambda a, k: o.setdefault(hashable(a[0]), a[1] if len(a) > 1 else None)}
            if n in T:
                return h(T[n])
        if isinstance(o, str):
            if n == 'format':
                return h(lambda a, k: o)
            if n == 'join':
                return h(lambda a, k: o.join(str(x) for x in seq(a[0])))
            if n in ('strip', 'lower', 'upper', 'startswith', 'endswith', 'split', 'replace'):
                return h(lambda a, k: getattr(o, n)(*a))
        if isinstance(o, set):
            T = {'add': lambda a, k: o.add(hashable(a[0])), 'copy': lambda a, k: set(o)}
            if n in T:
                return h(T[n])
        raise Undecided('method %s of %s' % (n, type(o).__name__))

    def guard(self, f, kind):
        try:
            return f()
        except (KeyError, IndexError):
            raise PyRaise(kind)

    def find(self, o, v):
        for i, x in enumerate(o):
            if equal(x, v):
                return i
        raise PyRaise('ValueError', 'not in list')

    def e_Call(self, e, env):
        f = self.ev(e.func, env) if not (isinstance(e.func, ast.Name) and e.func.id == 'super') else 'super'
        if f == 'super':
            c = env
            while c is not None and 'self' not in c.v:
                c = c.parent
            o = c.v['self']
            return SuperV(o, Cls('super', {}, o.cls.bases))
        args = self.elts(e.args, env)
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                kw.update(v)
            else:
                kw[k.arg] = v
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        self.steps += 1
        if self.steps > 400000:
            raise Undecided('too many steps')
        if isinstance(f, Prim):
            try:
                return f.fn(list(args), kw)
            except (KeyError, TypeError, AttributeError, IndexError, ValueError) as e:
                raise Undecided('%s: %s: %s' % (f.name, type(e).__name__, e))
        if isinstance(f, Bound):
            return self.call(f.f, [f.self_] + list(args), kw)
        if isinstance(f, Func):
            return self.apply(f, args, kw)
        if isinstance(f, Cls):
            if f.enum:
                for m in f.attrs.values():
                    if isinstance(m, Obj) and m.cls is f and equal(m.attrs['value'], args[0]):
                        return m
                raise PyRaise('ValueError', 'not a member')
            o = Obj(f, {})
            init = f.find('__init__')
            if init is not None:
                self.call(init, [o] + list(args), kw)
            return o
        if isinstance(f, Type):
            if f.name in EXC:
                return ExcV(f.name, args)
            g = self.b.get('type:' + f.name)
            if g is not None:
                return g.fn(list(args), kw)
        if isinstance(f, Wrapped):
            return self.call(f.f, args, kw)
        if isinstance(f, (int, float, list, type(None), str)):
            raise PyRaise('TypeError', 'not callable')
        raise Undecided('call of %s' % (f.name if isinstance(f, (Opaque, Type)) else repr(f)))

    def apply(self, f, args, kw):
        n = f.node
        a = n.args
        env = Env(f.env)
        self.functions.add((f.name, n.lineno))
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kw = dict(kw)
        for i, name in enumerate(pos):
            if i < len(args):
                if name in kw:
                    raise PyRaise('TypeError', 'multiple values for ' + name)
                env.v[name] = args[i]
            elif name in kw:
                env.v[name] = kw.pop(name)
            else:
                k = i - (len(pos) - len(f.defaults))
                if k < 0:
                    raise PyRaise('TypeError', '%s: missing argument %s' % (f.name, name))
                env.v[name] = f.defaults[k]
        if len(args) > len(pos):
            if not a.vararg:
                raise PyRaise('TypeError', '%s takes %d arguments, %d given' % (f.name, len(pos), len(args)))
        if a.vararg:
            env.v[a.vararg.arg] = tuple(args[len(pos):])
        for i, x in enumerate(a.kwonlyargs):
            if x.arg in kw:
                env.v[x.arg] = kw.pop(x.arg)
            elif a.kw_defaults[i] is not None:
                env.v[x.arg] = f.kwdefaults[i]
            else:
                raise PyRaise('TypeError', 'missing argument ' + x.arg)
        if a.kwarg:
            env.v[a.kwarg.arg] = kw
        elif kw:
            raise PyRaise('TypeError', '%s: unexpected argument %s' % (f.name, sorted(kw)[0]))
        if isinstance(n, ast.Lambda):
            return self.ev(n.body, env)
        if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(n)):
            raise Undecided('generator %s' % f.name)
        try:
            self.block(n.body, env)
        except _Ret as r:
            return r.v
        return None

    # ---- pickling
    def reconstruct(self, o, memo):
        """pickle.loads(pickle.dumps(o)) for an instance of a class of the package"""
        for n in ('__reduce__', '__reduce_ex__', '__getnewargs__', '__getnewargs_ex__', '__new__', '__deepcopy__'):
            if o.cls.has(n):
                raise Undecided('%s is defined' % n)
        g = o.cls.find('__getstate__')
        st = self.call(g, [o], {}) if g is not None else o.attrs
        r = memo[id(o)] = Obj(o.cls, {})
        st = deepcopy(self, st, memo)
        s = o.cls.find('__setstate__')
        if s is not None:
            self.call(s, [r, st], {})
        else:
            r.attrs.update(st)
        return r

    def pickled(self, o):
        return self.reconstruct(o, {})


class FileV:
    def __init__(self, text):
        self.text = text


class SuperV:
    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls


def hashable(k):
    if isinstance(k, (list, Arr, dict)):
        raise PyRaise('TypeError', 'unhashable')
    return k


def isinst(v, t):
    if isinstance(t, tuple):
        return any(isinst(v, x) for x in t)
    if isinstance(t, Cls):
        if not isinstance(v, Obj):
            return False
        c = [v.cls]
        while c:
            x = c.pop()
            if x is t:
                return True
            if isinstance(x, Cls):
                c += list(x.bases)
        return False
    if isinstance(t, Type):
        n = t.name
        if n == 'list':
            return isinstance(v, list)
        if n == 'tuple':
            return isinstance(v, tuple)
        if n == 'dict':
            return isinstance(v, dict)
        if n == 'sequence':
            return isinstance(v, (list, tuple, str, range))
        if n == 'ndarray':
            return isinstance(v, Arr)
        if n == 'int':
            return isinstance(v, int) or (isinstance(v, Sym) and v.kind == 'i')
        if n == 'float':
            return isinstance(v, float) or (isinstance(v, Sym) and v.kind == 'f')
        if n == 'bool':
            return isinstance(v, bool)
        if n == 'str':
            return isinstance(v, str) or (isinstance(v, Sym) and v.kind == 's')
        if n in ('npint', 'npfloat'):
            return False
        if n in EXC:
            return isinstance(v, ExcV) and exc_is(v.kind, n)
    raise Undecided('isinstance of %r' % (t,))


def builtins(I):
    def length(v):
        if isinstance(v, Arr):
            if not v.shape:
                raise PyRaise('TypeError', 'len() of unsized object')
            return v.shape[0]
        if isinstance(v, (list, tuple, dict, str, set, range)):
            return len(v)
        if isinstance(v, (int, float, type(None))):
            raise PyRaise('TypeError', 'object has no len()')
        if isinstance(v, Cls) and v.enum:
            return len(seq(v))
        raise Undecided('len of %r' % (v,))

    def num(v):
        if isinstance(v, Arr) and len(v.idx) == 1:
            v = v.flat()[0]
        return v

    def to_int(a, k):
        v = num(a[0])
        if isinstance(v, Sym):
            if v.kind == 'i':
                return v
            raise Undecided('int of %r' % v)
        try:
            return int(v)
        except (ValueError, TypeError):
            raise PyRaise('ValueError', 'int()')

    def to_float(a, k):
        v = num(a[0])
        if isinstance(v, Sym):
            if v.kind == 's':
                raise Undecided('float of text')
            return v
        try:
            return float(v)
        except (ValueError, TypeError):
            raise PyRaise('ValueError', 'float()')

    def getattr_(a, k):
        try:
            return I.attr(a[0], a[1])
        except PyRaise as e:
            if e.kind == 'AttributeError' and len(a) > 2:
                return a[2]
            raise

    def hasattr_(a, k):
        try:
            I.attr(a[0], a[1])
            return True
        except PyRaise as e:
            if e.kind == 'AttributeError':
                return False
            raise

    def setattr_(a, k):
        a[0].attrs[a[1]] = a[2]

    def summ(a, k):
        r = a[1] if len(a) > 1 else 0
        for x in seq(a[0]):
            r = arith('+', r, x)
        return r

    def zip_(a, k):
        cols = [seq(x) for x in a]
        if k.get('strict') and len({len(c) for c in cols}) > 1:
            raise PyRaise('ValueError', 'zip')
        return [tuple(t) for t in zip(*cols)]

    def sorted_(a, k):
        v = seq(a[0])
        if any(isinstance(x, Sym) for x in v) or k.get('key') is not None:
            raise Undecided('sorted')
        return sorted(v, reverse=truth(k.get('reverse', False)))

    def minmax(f):
        def g(a, k):
            v = seq(a[0]) if len(a) == 1 else a
            if f in (min, max) and not k and v and all(is_num(x) for x in v):
                m = v[0]
                for x in v[1:]:
                    if truth(cmpop('<', x, m) if f is min else cmpop('<', m, x)):
                        m = x
                return m
            if len(v) == 1 and f not in (min, max) and isinstance(v[0], Sym):
                return arith('-', 0, v[0]) if truth(cmpop('<', v[0], 0)) else v[0]
            if any(not isinstance(x, (int, float)) for x in v):
                raise Undecided('min/max')
            return f(v)
        return g

    def open_(a, k):
        if a[0] is None:
            raise PyRaise('TypeError', 'open(None)')
        return FileV(Sym(('file text of', a[0]), 's'))

    def type_(a, k):
        v = a[0]
        if isinstance(v, Obj):
            return v.cls
        raise Undecided('type()')
    P = {
        'len': lambda a, k: length(a[0]), 'isinstance': lambda a, k: isinst(a[0], a[1]), 'zip': zip_,
        'range': lambda a, k: rng(a), 'enumerate': lambda a, k: [(i + (a[1] if len(a) > 1 else k.get('start', 0)), x) for i, x in enumerate(seq(a[0]))],
        'getattr': getattr_, 'hasattr': hasattr_, 'setattr': setattr_, 'sum': summ, 'sorted': sorted_,
        'reversed': lambda a, k: list(reversed(seq(a[0]))), 'map': lambda a, k: [I.call(a[0], list(t), {}) for t in zip(*[seq(x) for x in a[1:]])],
        'filter': lambda a, k: [x for x in seq(a[1]) if truth(I.call(a[0], [x], {}) if a[0] is not None else x)],
        'all': lambda a, k: all(truth(x) for x in seq(a[0])), 'any': lambda a, k: any(truth(x) for x in seq(a[0])),
        'min': minmax(min), 'max': minmax(max), 'abs': minmax(lambda v: abs(v[0])), 'print': lambda a, k: None, 'open': open_, 'type': type_,
        'vars': lambda a, k: a[0].attrs, 'iter': lambda a, k: seq(a[0]), 'callable': lambda a, k: isinstance(a[0], (Prim, Func, Bound, Cls)),
        'slice': lambda a, k: slice(*a), 'id': lambda a, k: id(a[0]), 'repr': lambda a, k: repr(a[0]),
    }
    b = {n: Prim(n, f) for n, f in P.items()}
    for t in ('list', 'tuple', 'dict', 'int', 'float', 'bool', 'str', 'object', 'set'):
        b[t] = Type(t)
    for t in EXC:
        b[t] = Type(t)
    b['type:list'] = Prim('list', lambda a, k: seq(a[0]) if a else [])
    b['type:tuple'] = Prim('tuple', lambda a, k: tuple(seq(a[0])) if a else ())
    b['type:dict'] = Prim('dict', lambda a, k: dict(a[0] if a else {}, **k))
    b['type:set'] = Prim('set', lambda a, k: {hashable(x) for x in seq(a[0])} if a else set())
    b['type:int'] = Prim('int', to_int)
    b['type:float'] = Prim('float', to_float)
    b['type:bool'] = Prim('bool', lambda a, k: truth(a[0]) if a else False)
    b['type:str'] = Prim('str', lambda a, k: a[0] if isinstance(a[0], (str,)) or (isinstance(a[0], Sym) and a[0].kind == 's') else str(a[0]))
    b['Ellipsis'] = Ellipsis
    b['NotImplemented'] = Opaque('NotImplemented')
    return b


def rng(a):
    if any(isinstance(x, Sym) for x in a):
        raise Undecided('range of a symbol')
    if not all(isinstance(x, int) for x in a):
        raise PyRaise('TypeError', 'range')
    return range(*a)
