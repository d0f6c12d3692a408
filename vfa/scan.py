"""Character-set analysis of code that scans a NUL-terminated text.

The text is abstracted by what is known of each position relative to the scanning pointers: the set of characters
that may stand there. A condition on a character splits its set. At the head of every loop the state is taken modulo
a shift along the text (what lies behind all pointers is forgotten, pointers left far behind lose their place); a state
that was met before is not explored again, so the exploration of a text of any length is finite. Recorded between two
visits of a loop head is how far the pointers moved, so a cycle in which nothing moves is a loop that never ends.

Reading a character requires that no earlier position can hold the terminating NUL."""
import time
from bisect import bisect_right
from collections import deque

ALL = (1 << 256) - 1
NUL = 1
IDENT = tuple(c if c < 128 else c - 256 for c in range(256))
LAG = 10
WHITE = sum(1 << c for c in (9, 10, 11, 12, 13, 32))
CLASSES = (WHITE, ALL & ~NUL & ~(1 << ord('<')), ALL & ~NUL, ALL)


GROUPS, ARITH = {}, {}


def groups(v):
    """value -> set of characters that give it"""
    g = GROUPS.get(v)
    if g is None:
        g = {}
        for c in range(256):
            g[v[c]] = g.get(v[c], 0) | 1 << c
        GROUPS[v] = g
    return g


class Top:
    def __repr__(self):
        return 'TOP'


TOP = Top()
NULLP = ('P', None)


class Tab:
    """a function of the character at one position"""
    __slots__ = ('pos', 'v')

    def __init__(self, pos, v):
        self.pos, self.v = pos, v

    def __repr__(self):
        return 'tab%s' % (self.pos,)

    def key(self):
        return (self.pos, self.v)


class Prune(Exception):
    pass


class Unsup(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Violation(Exception):
    pass


class Frame:
    __slots__ = ('fn', 'tu', 'id', 'this', 'site', 'vars')

    def __init__(self, fn, fid, this, site):
        self.fn, self.tu, self.id, self.this, self.site, self.vars = fn, fn.tu if fn else None, fid, this, site, []


class Run:
    """one path; the explorer repeats it with other decisions"""

    def __init__(self, X, prefix):
        self.X, self.P, self.prefix, self.taken = X, X.P, prefix, []
        self.env, self.mask, self.low = {}, {}, {}
        self.frames, self.nobj, self.nfr = [], 0, 0
        self.loops = []
        self.exact = True
        self.steps = 0
        self.cls = {}
        self.depth = 0
        self.notes = []
        self.vague = set()
        self.over = None

    # ------------------------------------------------------------ decisions
    def choose(self, n, label=None):
        i = len(self.taken)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.taken.append((c, n))
        return c

    def fresh(self):
        return len(self.taken) >= len(self.prefix)

    def m(self, pos):
        x = self.mask.get(pos)
        if x is None:
            lo = self.low.get(pos[0])
            return ALL & ~NUL if lo is not None and pos[1] < lo else ALL
        return x

    def split(self, tab, pred):
        """decide pred on the values of a table"""
        m = self.m(tab.pos)
        yes = 0
        for x, ms in groups(tab.v).items():
            if m & ms and pred(x):
                yes |= m & ms
        no = m & ~yes
        if not no:
            return True
        if not yes:
            return False
        r = self.choose(2) == 0
        self.mask[tab.pos] = yes if r else no
        return r

    def truth(self, v):
        if v is TOP:
            r = self.choose(2) == 0
            self.exact = False
            return r
        if isinstance(v, Tab):
            return self.split(v, lambda x: x != 0)
        if isinstance(v, tuple) and v[0] == 'P':
            if v[1] == ('?',):
                r = self.choose(2) == 0
                return r
            return v[1] is not None
        if isinstance(v, int):
            return v != 0
        raise Unsup('truth of %r' % (v,))

    # ------------------------------------------------------------ text positions
    def readable(self, tid, idx, node):
        """may the character at idx be read: no NUL before it"""
        lo = self.low.get(tid, 0)
        for r in range(lo, idx):
            m = self.m((tid, r))
            if m & NUL:
                self.report('reads past the end of the text', node, tid, r)
                m &= ~NUL
                if not m:
                    raise Prune()
                self.mask[(tid, r)] = m
        b = self.X.begin.get(tid)
        if b is not None and idx < b and (tid not in self.low or lo <= b):
            self.report('reads before the beginning of the text', node, tid, idx)

    def report(self, what, node, tid=None, at=None):
        self.X.report(self, what, node, at)

    def char(self, loc, node):
        k = loc[0]
        if k == 't':
            if loc[2] is None:
                return TOP
            self.readable(loc[1], loc[2], node)
            pos = (loc[1], loc[2])
            m = self.m(pos)
            if m & (m - 1) == 0:
                c = m.bit_length() - 1
                return IDENT[c]
            return Tab(pos, IDENT)
        if k == 'k':
            s, i = loc[1], loc[2]
            if 0 <= i < len(s):
                return self.norm(s[i])
            if i == len(s):
                return 0
            self.report('reads outside of a string', node)
            raise Prune()
        if k == 'K':
            return TOP
        return None

    def norm(self, v):
        if isinstance(v, Tab):
            m = self.m(v.pos)
            if m & (m - 1) == 0:
                return v.v[m.bit_length() - 1]
            one = None
            for x, ms in groups(v.v).items():
                if m & ms:
                    if one is not None:
                        return v
                    one = (x,)
            return one[0]
        return v

    # ------------------------------------------------------------ memory
    def load(self, loc, node, t=None):
        if loc is None:
            self.report('follows a null pointer', node)
            raise Prune()
        c = self.char(loc, node)
        if c is not None:
            return self.wrap(c, t) if t is not None and c is not TOP and t['k'] in ('char', 'int', 'uint') else c
        if loc[0] == 'e':
            self.inside(loc, node)
        if loc in self.env:
            return self.norm(self.env[loc])
        if loc[0] in ('?', 'x'):
            return TOP
        if loc[0] == 'f' and loc[1] and loc[1][0] in ('?', 'x', 'o') or loc[0] in ('v', 'f', 'e'):
            if t is not None:
                if t['k'] == 'rec' and 'basic_string' in t['s']:
                    return ('S', None if self.base(loc) in self.vague or loc[0] == 'x' else ())
            return TOP
        raise Unsup('load %r' % (loc,))

    def inside(self, loc, node):
        n = self.X.extent.get(loc[1]) or self.env.get(('n', loc[1]))
        if n is not None and isinstance(loc[2], int) and not 0 <= loc[2] < n:
            self.report('goes outside of an array of %d' % n, node)
            raise Prune()

    def store(self, loc, v, node):
        if loc is None:
            self.report('writes through a null pointer', node)
            raise Prune()
        if loc[0] == 'e':
            self.inside(loc, node)
        if loc[0] in ('t', 'k'):
            raise Unsup('write into the text')
        self.env[loc] = v

    # ------------------------------------------------------------ expressions
    def T(self, i):
        return self.frames[-1].tu.types[i]

    def wrap(self, v, t):
        if isinstance(v, Tab):
            k = ('w', t['k'], t.get('bits'), t['s'] if t['k'] == 'char' else '', v.v)
            r = ARITH.get(k)
            if r is None:
                r = ARITH[k] = tuple(self.wrapi(x, t) for x in v.v)
            return self.norm(Tab(v.pos, r))
        if isinstance(v, int):
            return self.wrapi(v, t)
        return v

    def wrapi(self, x, t):
        k = t['k']
        if k == 'bool':
            return int(x != 0)
        b = t.get('bits')
        if k == 'char':
            b = 8
            if 'unsigned' in t['s']:
                return x & 255
            x &= 255
            return x - 256 if x > 127 else x
        if k == 'uint':
            return x & ((1 << (b or 64)) - 1)
        if k == 'int' and b:
            x &= (1 << b) - 1
            return x - (1 << b) if x >> (b - 1) else x
        return x

    def where(self, n):
        f = self.frames[-1].fn if self.frames else None
        fl = self.frames[-1].tu.files[n['f']] if self.frames and isinstance(n.get('f'), int) else (f.file if f else '?')
        return '%s:%s' % (fl, n.get('l') or (f.line if f else 0))

    def lv(self, n):
        """location an lvalue designates"""
        k = n['k']
        fr = self.frames[-1]
        if k == 'Ref':
            if n.get('global'):
                if n.get('static') and not n.get('q'):
                    return ('v', 's', n['id'])
                return ('g', n.get('q') or n['id'])
            loc = ('v', fr.id, n['id'])
            r = self.env.get(('r', loc))
            return r if r is not None else loc
        if k == 'Mem':
            b = n['c'][0]
            base = self.rv(b)[1] if n.get('arrow') else self.lv(b)
            if base is None:
                self.report('follows a null pointer', n)
                raise Prune()
            if base[0] in ('?', 'x'):
                return ('x',)
            return self.field(base, n['n'])
        if k == 'Un' and n['op'] == '*':
            p = self.rv(n['c'][0])
            return self.deref(p, n)
        if k == 'Un' and n['op'] in ('++', '--'):
            self.rv(n)
            return self.lv(n['c'][0])
        if k == 'Sub':
            p, i = self.rv(n['c'][0]), self.rv(n['c'][1])
            if not (isinstance(p, tuple) and p[0] == 'P'):
                p, i = i, p
            return self.deref(self.padd(p, i, n), n)
        if k == 'Bin' and n['op'] == '=' or k == 'CAssign':
            self.rv(n)
            return self.lv(n['c'][0])
        if k == 'Bin' and n['op'] == ',':
            self.rv(n['c'][0])
            return self.lv(n['c'][1])
        if k == 'Cast':
            return self.lv(n['c'][0])
        if k == 'Cond':
            return self.lv(n['c'][1 if self.truth(self.rv(n['c'][0])) else 2])
        if k == 'Call':
            v = self.call(n)
            if isinstance(v, tuple) and v[0] == 'L':
                return v[1]
            return self.temp(v)
        if k == 'This':
            return fr.this
        if k == 'Str':
            return ('k', tuple(ord(c) if ord(c) < 128 else ord(c) - 256 for c in n['v']), 0)
        if k == 'Mat':
            return self.temp(self.rv(n['c'][0]))
        return self.temp(self.rv(n))

    def temp(self, v):
        self.nobj += 1
        loc = ('v', 'tmp', self.nobj)
        self.env[loc] = v
        return loc

    def field(self, base, name):
        loc = ('f', base, name)
        return loc

    def deref(self, p, n):
        if p is TOP:
            return ('x',)
        if not (isinstance(p, tuple) and p[0] == 'P'):
            raise Unsup('dereference of %r at %s' % (p, self.where(n)))
        if p[1] is None:
            self.report('follows a null pointer', n)
            raise Prune()
        return p[1]

    def padd(self, p, i, n, sign=1):
        if p is TOP:
            return TOP
        if p[1] is None:
            if isinstance(i, int) and i == 0:
                return p
            self.report('moves a null pointer', n)
            raise Prune()
        loc = p[1]
        i = self.norm(i)
        if isinstance(i, Tab):
            if loc[0] == 'e':
                return ('P', ('e', loc[1], Tab(i.pos, tuple(sign * x + loc[2] for x in i.v))))
            if loc[0] == 'g' and self.X.garray(loc[1]) is not None:
                return ('P', ('e', loc, i))
            i = self.concrete(i)
        if i is TOP:
            if loc[0] == 't':
                return ('P', ('t', loc[1], None))
            if loc[0] in ('k', 'K'):
                return ('P', ('K',))
            return TOP
        if loc[0] == 't':
            return ('P', ('t', loc[1], None if loc[2] is None else loc[2] + sign * i))
        if loc[0] == 'k':
            return ('P', ('k', loc[1], loc[2] + sign * i))
        if loc[0] == 'e':
            if isinstance(loc[2], Tab):
                return ('P', ('e', loc[1], Tab(loc[2].pos, tuple(x + sign * i for x in loc[2].v))))
            return ('P', ('e', loc[1], loc[2] + sign * i))
        if loc[0] in ('K', 'x', '?'):
            return p
        return ('P', ('e', loc, sign * i)) if i else p

    def concrete(self, v):
        """split a table into its values"""
        v = self.norm(v)
        if isinstance(v, Tab):
            m = self.m(v.pos)
            g = groups(v.v)
            vals = sorted(x for x, ms in g.items() if m & ms)
            k = self.choose(len(vals))
            self.mask[v.pos] = m & g[vals[k]]
            return vals[k]
        return v

    def rv(self, n):
        self.steps += 1
        if self.steps > 200000:
            raise Unsup('too many steps on one path')
        k = n['k']
        if k in ('Int', 'Char', 'Bool', 'EnumC'):
            return int(n['v'])
        if k == 'Cast':
            ck = n['ck']
            c = n['c'][0]
            if ck == 'LValueToRValue':
                return self.read(self.lv(c), n)
            if ck == 'NullToPointer':
                return NULLP
            if ck == 'ArrayToPointerDecay':
                loc = self.lv(c)
                if loc[0] == 'k':
                    return ('P', loc)
                return ('P', ('e', loc, 0))
            if ck in ('IntegralCast',):
                return self.wrap(self.rv(c), self.T(n['t']))
            if ck in ('IntegralToBoolean', 'PointerToBoolean'):
                v = self.rv(c)
                if isinstance(v, Tab):
                    return self.norm(Tab(v.pos, tuple(int(x != 0) for x in v.v)))
                if v is TOP:
                    return TOP
                return int(self.truth(v))
            if ck == 'ToVoid':
                self.rv(c)
                return None
            if ck in ('NoOp', 'BitCast', 'DerivedToBase', 'UncheckedDerivedToBase', 'ConstructorConversion', 'UserDefinedConversion', 'BaseToDerived', 'FunctionToPointerDecay', 'Dynamic'):
                return self.rv(c)
            if ck in ('IntegralToFloating', 'FloatingToIntegral', 'FloatingCast'):
                self.rv(c)
                return TOP
            raise Unsup('cast %s' % ck)
        if k == 'Ref':
            return self.read(self.lv(n), n) if n.get('lv') is None else self.read(self.lv(n), n)
        if k == 'This':
            return ('P', self.frames[-1].this)
        if k == 'Null':
            return NULLP
        if k == 'Str':
            return ('P', self.lv(n))
        if k == 'Un':
            return self.unary(n)
        if k == 'Bin':
            return self.binary(n)
        if k == 'CAssign':
            loc = self.lv(n['c'][0])
            a = self.read(loc, n['c'][0])
            b = self.rv(n['c'][1])
            v = self.arith(n['op'].rstrip('='), a, b, n)
            self.store(loc, self.wrap(v, self.T(n['t'])), n)
            return self.read(loc, n)
        if k == 'Cond':
            return self.rv(n['c'][1 if self.truth(self.rv(n['c'][0])) else 2])
        if k == 'Call':
            v = self.call(n)
            if isinstance(v, tuple) and v and v[0] == 'L':
                return self.read(v[1], n)
            return v
        if k == 'Ctor':
            return self.construct(n)
        if k == 'Mat':
            return self.rv(n['c'][0])
        if k in ('Mem', 'Sub'):
            return self.read(self.lv(n), n)
        if k == 'New':
            self.nobj += 1
            loc = ('o', self.nobj)
            at = self.T(n['at'])
            if n.get('arr'):
                raise Unsup('array new')
            self.cls[loc] = at['s'].replace('const ', '')
            init = n.get('init')
            if init is not None and init['k'] == 'Ctor':
                self.construct(init, loc)
            return ('P', loc)
        if k == 'Delete':
            self.rv(n['c'][0])
            return None
        if k == 'SizeOf':
            return int(n['v']) if 'v' in n else TOP
        if k == 'InitList':
            if self.T(n['t'])['k'] not in ('array', 'rec'):
                return self.rv(n['args'][0])
            return ('I', tuple(self.rv(a) for a in n['args']))
        if k == 'ValInit':
            return 0
        if k == 'Float':
            return TOP
        raise Unsup('%s at %s' % (k, self.where(n)))

    def read(self, loc, n):
        if isinstance(loc, tuple) and loc and loc[0] == 'e' and isinstance(loc[2], Tab):
            a = self.X.garray(loc[1][1]) if loc[1][0] == 'g' else None
            if a is None:
                loc = ('e', loc[1], self.concrete(loc[2]))
            else:
                t = loc[2]
                m = self.m(t.pos)
                if any(not 0 <= t.v[c] < len(a) for c in range(256) if m >> c & 1):
                    bad = 0
                    for c in range(256):
                        if m >> c & 1 and not 0 <= t.v[c] < len(a):
                            bad |= 1 << c
                    self.report('goes outside of an array of %d' % len(a), n)
                    if not m & ~bad:
                        raise Prune()
                    self.mask[t.pos] = m & ~bad
                return self.norm(Tab(t.pos, tuple(a[x] if 0 <= x < len(a) else 0 for x in t.v)))
        g = self.X.global_value(self, loc)
        if g is not None:
            return g
        return self.load(loc, n, self.T(n['t']) if isinstance(n.get('t'), int) else None)

    def unary(self, n):
        op, c = n['op'], n['c'][0]
        if op == '&':
            return ('P', self.lv(c))
        if op == '*':
            return self.read(self.lv(n), n)
        if op in ('++', '--'):
            loc = self.lv(c)
            a = self.read(loc, c)
            if isinstance(a, tuple) and a[0] == 'P' or a is TOP:
                b = self.padd(a, 1, n, 1 if op == '++' else -1) if a is not TOP else TOP
            else:
                b = self.wrap(self.arith('+' if op == '++' else '-', a, 1, n), self.T(n['t']))
            self.store(loc, b, n)
            return a if n.get('post') else b
        v = self.rv(c)
        if op == '!':
            if isinstance(v, Tab):
                return self.norm(Tab(v.pos, tuple(int(not x) for x in v.v)))
            if v is TOP:
                return TOP
            return int(not self.truth(v))
        if v is TOP:
            return TOP
        f = {'-': lambda x: -x, '~': lambda x: ~x, '+': lambda x: x}[op]
        return Tab(v.pos, tuple(map(f, v.v))) if isinstance(v, Tab) else f(v)

    def arith(self, op, a, b, n):
        a, b = self.norm(a), self.norm(b)
        ap, bp = isinstance(a, tuple) and a[0] == 'P', isinstance(b, tuple) and b[0] == 'P'
        if ap or bp:
            return self.parith(op, a, b, n)
        if isinstance(a, tuple) or isinstance(b, tuple):
            raise Unsup('arithmetic on %r' % (a,))
        if a is TOP or b is TOP:
            return TOP
        f = OPS.get(op)
        if f is None:
            raise Unsup('operator ' + op)
        if isinstance(a, int) and isinstance(b, int):
            if op in ('/', '%') and b == 0:
                raise Unsup('division by zero')
            return f(a, b)
        if isinstance(a, Tab) and isinstance(b, Tab):
            if a.pos == b.pos:
                return self.norm(Tab(a.pos, tuple(f(x, y) for x, y in zip(a.v, b.v))))
            m = self.m(a.pos)
            va = {x for x, ms in groups(a.v).items() if m & ms}
            m = self.m(b.pos)
            vb = {x for x, ms in groups(b.v).items() if m & ms}
            if op == '==' and not va & vb:
                return 0
            if op == '!=' and not va & vb:
                return 1
            if self.X.coarse:
                return TOP
            if len(va) <= 8:
                return self.arith(op, self.concrete(a), b, n)
            if len(vb) <= 8:
                return self.arith(op, a, self.concrete(b), n)
            return TOP
        k = (op, a.v if isinstance(a, Tab) else a, b.v if isinstance(b, Tab) else b)
        r = ARITH.get(k)
        if r is None:
            if isinstance(a, Tab):
                r = tuple(f(x, b) if not (op in '/%' and b == 0) else 0 for x in a.v)
            else:
                r = tuple(f(a, x) if not (op in '/%' and x == 0) else 0 for x in b.v)
            ARITH[k] = r
        return self.norm(Tab(a.pos if isinstance(a, Tab) else b.pos, r))

    def parith(self, op, a, b, n):
        ap, bp = isinstance(a, tuple), isinstance(b, tuple)
        if op == '+':
            return self.padd(a, b, n) if ap else self.padd(b, a, n)
        if op == '-' and ap and not bp:
            return self.padd(a, b, n, -1)
        if a is TOP or b is TOP:
            return TOP
        if not ap or not bp:
            x, y = (a, b) if ap else (b, a)
            if y == 0:
                y = NULLP
                a, b = x, y
            else:
                return TOP
        la, lb = a[1], b[1]
        if la == ('?',) or lb == ('?',):
            return TOP
        if op in ('==', '!='):
            if la is None or lb is None:
                r = la is None and lb is None
            elif la[0] == 't' and lb[0] == 't' and la[1] == lb[1] and (la[2] is None or lb[2] is None):
                return TOP
            else:
                r = la == lb
            return int(r if op == '==' else not r)
        if la is None or lb is None:
            return TOP if la != lb else int(op in ('<=', '>=')) if op != '-' else 0
        if la[0] == lb[0] and la[0] in ('t', 'k', 'e') and la[1] == lb[1]:
            i, j = la[2], lb[2]
            if i is None or j is None:
                return TOP
            if op == '-' and self.X.coarse and abs(i - j) >= LAG:
                return TOP
            return OPS[op](i, j)
        return TOP

    def binary(self, n):
        op = n['op']
        a, b = n['c']
        if op == '=':
            loc = self.lv(a)
            c = b
            while c['k'] == 'Cast':
                c = c['c'][0]
            if c['k'] == 'Call' and loc[0] == 'v' and isinstance(loc[1], int):
                self.over = loc                     # what it holds is not used once the arguments are known
            v = self.rv(b)
            self.over = None
            self.store(loc, v, n)
            return v
        if op == ',':
            self.rv(a)
            return self.rv(b)
        if op == '&&':
            if not self.truth(self.rv(a)):
                return 0
            v = self.rv(b)
            return v if isinstance(v, (int, Tab)) or v is TOP else int(self.truth(v))
        if op == '||':
            if self.truth(self.rv(a)):
                return 1
            v = self.rv(b)
            return v if isinstance(v, (int, Tab)) or v is TOP else int(self.truth(v))
        x = self.rv(a)
        y = self.rv(b)
        v = self.arith(op, x, y, n)
        if op in ('+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^') and isinstance(v, (int, Tab)) and isinstance(n.get('t'), int):
            v = self.wrap(v, self.T(n['t']))
        return v

    # ------------------------------------------------------------ calls
    def classof(self, loc):
        return self.cls.get(loc)

    def dispatch(self, fn, loc):
        c = self.classof(loc)
        if c is None:
            return None
        return self.X.override(c, fn)

    def call(self, n):
        fn = n.get('fn')
        if fn is None:
            raise Unsup('call through a value at %s' % self.where(n))
        over, self.over = self.over, None
        h = self.X.summary(self, fn, n)
        if h is not None:
            return h(self, n)
        g = self.P.fns.get(fn['id'])
        this = None
        args = n['args']
        if n.get('obj') is not None:
            o = n['obj']
            this = self.rv(o)[1] if n.get('arrow') else self.lv(o)
        elif n.get('opm'):
            this = self.lv(args[0])
            args = args[1:]
        if fn.get('virt') and this is not None and n.get('obj') is not None:
            if this[0] in ('?', 'x'):
                raise Unsup('virtual call on an unknown object: %s' % fn['q'])
            g2 = self.dispatch(fn, this)
            if g2 is None:
                raise Unsup('virtual call %s' % fn['q'])
            g = g2
        if g is None or g.body is None:
            if fn.get('defaulted') and fn['n'] == 'operator=':
                src = self.lv(args[0])
                self.copy(src, this)
                return ('L', this)
            raise Unsup('no body: %s at %s' % (fn['q'], self.where(n)))
        if this is None and fn.get('rec') and not fn.get('static'):
            raise Unsup('no object for %s' % fn['q'])
        vals = [self.arg(a, g.tu.types[p['t']]) for a, p in zip(args, g.params)]
        if over is not None and not any(isinstance(v, tuple) and len(v) == 2 and v[1] == over for v in vals) and this != over:
            self.env[over] = TOP
        return self.enter(g, this, vals, n)

    def copy(self, src, dst):
        for k in [k for k in self.env if isinstance(k, tuple) and k[0] == 'f' and k[1] == dst]:
            del self.env[k]
        for k, v in list(self.env.items()):
            if isinstance(k, tuple) and k[0] == 'f' and k[1] == src:
                self.env[('f', dst, k[2])] = v

    def arg(self, a, t):
        if t['k'] in ('ref', 'rref'):
            return ('L', self.lv(a))
        if t['k'] == 'rec' and 'basic_string' not in t['s']:
            return ('L', self.lv(a))
        return self.rv(a)

    def enter(self, g, this, vals, site):
        if len(self.frames) > 40:
            raise Unsup('calls too deep')
        self.X.analysed.add(g)
        self.nfr += 1
        fr = Frame(g, self.nfr, this, id(site))
        for p, v in zip(g.params, vals):
            loc = ('v', fr.id, p['id'])
            if isinstance(v, tuple) and v and v[0] == 'L':
                self.env[('r', loc)] = v[1]
            else:
                self.env[loc] = v
        self.frames.append(fr)
        nl = len(self.loops)
        try:
            if g.d.get('kind') == 'ctor':
                for i in g.d.get('inits', ()):
                    if 'm' in i:
                        self.init_field(this, i)
                    elif i.get('e') is not None and i['e']['k'] == 'Ctor':
                        self.construct(i['e'], this)
            self.exec(g.body)
            r = None
        except Ret as e:
            r = e.v
        self.frames.pop()
        del self.loops[nl:]
        if not (isinstance(r, tuple) and r and r[0] == 'L' and r[1] and r[1][0] == 'v' and r[1][1] == fr.id):
            self.drop(fr.id)
        return r

    def drop(self, fid):
        for k in [k for k in self.env if self.owner(k) == fid]:
            del self.env[k]

    def owner(self, k):
        while isinstance(k, tuple):
            if k[0] == 'v':
                return k[1]
            if k[0] in ('f', 'e', 'r', 'n'):
                k = k[1]
            else:
                return None
        return None

    def init_field(self, this, i):
        e = i.get('e')
        name = i['m'] if isinstance(i['m'], str) else i.get('n')
        loc = ('f', this, name)
        if e is None:
            return
        if e['k'] == 'Ctor':
            v = self.construct(e, loc)
            if v is not None and not (isinstance(v, tuple) and v[0] == 'L'):
                self.env[loc] = v
        else:
            self.env[loc] = self.rv(e)

    def construct(self, n, loc=None):
        fn = n['fn']
        t = self.T(n['t'])
        if 'basic_string' in t['s']:
            a = n['args']
            if not a:
                v = ('S', ())
            elif fn.get('copy'):
                v = self.read(self.lv(a[0]), a[0])
            else:
                v = self.tostr(self.rv(a[0]), self.rv(a[1]) if len(a) > 1 and self.T(a[1]['t'])['k'] in ('int', 'uint') else None, n)
            if loc is not None:
                self.env[loc] = v
            return v
        if 'allocator' in t['s']:
            return None
        if loc is None:
            self.nobj += 1
            loc = ('o', self.nobj)
            r = ('L', loc)
        else:
            r = ('L', loc)
        if loc not in self.cls:
            self.cls[loc] = t['s'].replace('const ', '')
        g = self.P.fns.get(fn['id'])
        if fn['q'] in self.X.summaries:
            self.X.summaries[fn['q']](self, n)
            return r
        if g is None or g.body is None:
            if fn.get('copy'):
                self.copy(self.lv(n['args'][0]), loc)
                return r
            if fn.get('defc') or not n['args']:
                return r
            raise Unsup('constructor %s' % fn['q'])
        vals = [self.arg(a, g.tu.types[p['t']]) for a, p in zip(n['args'], g.params)]
        self.enter(g, loc, vals, n)
        return r

    # ------------------------------------------------------------ strings
    def tostr(self, p, count, n):
        """characters from a pointer, up to NUL or a count"""
        if isinstance(p, tuple) and p[0] == 'S':
            return p
        if p is TOP or p[1] is None and (self.report('makes a string of a null pointer', n) or True):
            if p is TOP:
                return ('S', None)
            raise Prune()
        if isinstance(count, Tab):
            count = self.concrete(count)
        if count is TOP or p[1][0] in ('K', 'x', '?') or p[1][0] == 't' and p[1][2] is None:
            return ('S', None)
        out, q = [], p
        while True:
            if count is not None and len(out) >= count:
                break
            c = self.read(q[1], n)
            if count is None and (c is TOP):
                return ('S', None)
            if count is None and not self.truth(c):
                break
            out.append(self.norm(c))
            if len(out) > self.X.cap and q[1][0] == 't':
                if count is None:
                    raise Unsup('long text')
                return ('S', None)
            q = self.padd(q, 1, n)
        return self.strv(out)

    def strv(self, cs):
        cs = tuple(cs)
        if sum(isinstance(c, Tab) and c.pos[0] == 0 or c is TOP for c in cs) > self.X.cap or len(cs) > self.X.longest:
            return ('S', None)
        return ('S', cs)

    # ------------------------------------------------------------ statements
    def exec(self, s):
        if s is None:
            return
        k = s['k']
        if k == 'Block':
            for c in s['c']:
                self.exec(c)
        elif k == 'Expr':
            e = s['e']
            if e is None:
                return
            if e.get('lv') and e['k'] in ('Call',):
                self.call(e)
            else:
                self.rv(e)
        elif k == 'Decl':
            for v in s['c']:
                if v.get('k') == 'Var':
                    self.decl(v)
        elif k == 'If':
            if s.get('init'):
                self.exec(s['init'])
            if s.get('cvar'):
                self.decl(s['cvar'])
            if self.truth(self.rv(s['cond'])):
                self.exec(s['then'])
            else:
                self.exec(s.get('else'))
        elif k == 'Return':
            e = s.get('e')
            if e is None:
                raise Ret(None)
            t = self.T(self.frames[-1].fn.d['rt'])
            if t['k'] in ('ref', 'rref'):
                raise Ret(('L', self.lv(e)))
            if t['k'] == 'rec' and 'basic_string' not in t['s']:
                raise Ret(('L', self.lv(e)))
            raise Ret(self.rv(e))
        elif k in ('While', 'For', 'Do'):
            self.loop(s)
        elif k == 'Break':
            raise Brk()
        elif k == 'Continue':
            raise Cont()
        elif k == 'Switch':
            self.switch(s)
        elif k in ('Case', 'Default', 'Label'):
            self.exec(s.get('body'))
        elif k == 'Null':
            pass
        else:
            raise Unsup('statement %s' % k)

    def decl(self, v):
        fr = self.frames[-1]
        loc = ('v', fr.id, v['id'])
        t = self.T(v['t'])
        e = v.get('init')
        if v.get('static'):
            loc = ('v', 's', v['id'])
            self.env[('r', ('v', fr.id, v['id']))] = loc
        for k in [k for k in self.env if self.owner(k) == fr.id and isinstance(k, tuple) and self.root(k) == loc]:
            del self.env[k]
        if t['k'] in ('ref', 'rref'):
            self.env[('r', loc)] = self.lv(e)
            return
        if t['k'] == 'array':
            self.env[('n', loc)] = t.get('n') if isinstance(t.get('n'), int) else None
            if e is not None and e['k'] == 'InitList':
                vals = self.rv(e)[1]
                for i, x in enumerate(vals):
                    self.env[('e', loc, i)] = x
                for i in range(len(vals), t.get('n') or 0):
                    self.env[('e', loc, i)] = 0
            elif e is not None and e['k'] == 'Str':
                for i, x in enumerate(self.lv(e)[1] + (0,)):
                    self.env[('e', loc, i)] = x
            return
        if e is None:
            self.env[loc] = TOP
            return
        if e['k'] == 'Ctor':
            x = self.construct(e, loc)
            return
        if t['k'] == 'rec' and 'basic_string' not in t['s']:
            self.copy(self.lv(e), loc)
            self.cls[loc] = t['s'].replace('const ', '')
            return
        self.env[loc] = self.rv(e)

    def root(self, k):
        while isinstance(k, tuple) and k[0] in ('f', 'e', 'r', 'n'):
            k = k[1]
        return k

    def switch(self, s):
        if s.get('cvar'):
            self.decl(s['cvar'])
        v = self.rv(s['cond'])
        flat = []

        def go(x):
            if x is None:
                return
            if x['k'] in ('Case', 'Default'):
                flat.append(('label', x))
                go(x.get('body'))
            else:
                flat.append(('stmt', x))
        for c in (s['body']['c'] if s['body']['k'] == 'Block' else [s['body']]):
            go(c)
        start = None
        for i, (w, x) in enumerate(flat):
            if w == 'label' and x['k'] == 'Case':
                cv = self.rv(x['e']) if 'e' in x and x['e'] is not None else int(x['v'])
                if self.truth(self.arith('==', v, cv, s)):
                    start = i
                    break
                v = self.norm(v)
        if start is None:
            for i, (w, x) in enumerate(flat):
                if w == 'label' and x['k'] == 'Default':
                    start = i
        if start is None:
            return
        try:
            for w, x in flat[start:]:
                if w == 'stmt':
                    self.exec(x)
        except Brk:
            pass

    def loop(self, s):
        k = s['k']
        if k == 'For' and s.get('init') is not None:
            self.exec(s['init'])
        act = [id(s), None, None, {}]
        self.loops.append(act)
        first = True
        while True:
            if not (k == 'Do' and first):
                self.head(act, s)
                if s.get('cvar'):
                    self.decl(s['cvar'])
                if s.get('cond') is not None and not self.truth(self.rv(s['cond'])):
                    break
            first = False
            try:
                self.exec(s['body'])
            except Brk:
                break
            except Cont:
                pass
            if k == 'For' and s.get('inc') is not None:
                self.rv(s['inc'])
        if self.loops and self.loops[-1] is act:
            self.loops.pop()

    # ------------------------------------------------------------ loop heads
    def head(self, act, s):
        if self.X.unroll:
            act[3]['n'] = act[3].get('n', 0) + 1
            if act[3]['n'] > self.X.unroll:
                if not self.X.probe:
                    self.report('does not come to an end', s)
                raise Prune()
            return
        inner = self.X.inner(s)
        fid = self.frames[-1].id
        for k in [k for k in self.env if k[0] != 'g' and self.root(k)[0] == 'v' and self.root(k)[1] == fid and self.root(k)[2] in inner]:
            del self.env[k]
        live = set()
        for v in self.env.values():
            self.locs(v, live)
        for f in self.frames:
            self.locs(f.this, live)
        for k in [k for k in self.env if self.root(k)[:2] == ('v', 'tmp') and self.root(k) not in live]:
            del self.env[k]
        # widen integers that keep changing
        for k, v in list(self.env.items()):
            if type(v) is int and isinstance(k, tuple) and k[0] in ('v', 'f'):
                seen = act[3].setdefault(k, set())
                seen.add(v)
                if len(seen) > 12:
                    self.env[k] = TOP
            elif self.X.coarse and isinstance(v, tuple) and v[0] == 'S' and v[1] is not None:
                if act[3].setdefault(k, v) != v:
                    self.env[k] = ('S', None)
        idx = [v[1][2] for v in self.env.values() if isinstance(v, tuple) and v and v[0] == 'P' and v[1] and v[1][0] == 't' and v[1][1] == 0 and v[1][2] is not None]
        if not idx:
            anchor = 0                              # nothing points into the text any more
            self.unpin(None)
            pinned = set()
            for v in self.env.values():
                self.pins(v, pinned)
            for pos in [p for p in self.mask if p[0] == 0 and p not in pinned]:
                del self.mask[pos]
            if not pinned:
                self.low[0] = 0
        else:
            anchor = max(idx)
            lo = anchor - LAG
            for k, v in list(self.env.items()):
                if isinstance(v, tuple) and v and v[0] == 'P' and v[1] and v[1][0] == 't' and v[1][1] == 0 and v[1][2] is not None and v[1][2] < lo:
                    self.env[k] = ('P', ('t', 0, lo if self.X.coarse else None))
            idx = [max(i, lo) for i in idx] if self.X.coarse else [i for i in idx if i >= lo]
            cut = min(idx)
            self.unpin(cut)
            pinned = set()
            for v in self.env.values():
                self.pins(v, pinned)
            if cut > self.low.get(0, -10 ** 9) and self.can_drop(cut):
                self.low[0] = cut
                for pos in [p for p in self.mask if p[0] == 0 and p[1] < cut and p not in pinned]:
                    del self.mask[pos]
        if self.X.coarse and act[1] is not None and anchor > act[2]:
            # a loop that moves on: of the characters behind only their class is kept, the same for all of them; nothing of those ahead
            # between one pointer and the next
            marks = sorted(set(idx))
            behind = {}
            for p, m in list(self.mask.items()):
                if p[0] == 0:
                    if p[1] > anchor or p[1] == anchor and m & NUL and m != NUL:
                        del self.mask[p]
                    elif p[1] == anchor and m != NUL:
                        self.mask[p] = ALL & ~NUL
                    elif p[1] < anchor:
                        b = bisect_right(marks, p[1])
                        behind[b] = behind.get(b, 0) | m
            for b, m in behind.items():
                behind[b] = next(x for x in CLASSES if not m & ~x)
            for p in self.mask:
                if p[0] == 0 and p[1] < anchor:
                    self.mask[p] = behind[bisect_right(marks, p[1])]
        elif self.X.coarse:
            for p, m in list(self.mask.items()):
                if p[0] == 0 and p[1] > anchor:
                    if m & NUL and m != NUL:
                        del self.mask[p]
                    elif m != NUL:
                        self.mask[p] = ALL & ~NUL
        key = self.key(anchor, s)
        kk = self.X.ids.setdefault(key, len(self.X.ids))
        if act[1] is not None:
            e = (act[1], kk)
            sh = anchor - act[2]
            if sh <= 0 and idx:
                self.X.still(self, e, s, sh)
            elif not idx:
                self.X.still(self, e, s, 0)
        act[1], act[2] = kk, anchor
        i = len(self.taken)
        if i < len(self.prefix):
            self.taken.append((0, 1))               # gone on from here
            return
        if kk not in self.X.visited:
            self.X.visited.add(kk)
            self.X.queue.append([c for c, _ in self.taken] + [0])
        raise Prune()

    def unpin(self, cut):
        if self.X.coarse:
            for k, v in list(self.env.items()):
                if isinstance(v, Tab) and v.pos[0] == 0 and (cut is None or v.pos[1] < cut):
                    self.env[k] = TOP

    def can_drop(self, cut):
        lo = self.low.get(0, None)
        r = range(lo if lo is not None else min([p[1] for p in self.mask if p[0] == 0] + [cut]), cut)
        for i in r:
            if self.m((0, i)) & NUL:
                return False
        return True

    def base(self, k):
        while isinstance(k, tuple) and k and k[0] in ('f', 'e'):
            k = k[1]
        return k

    def pins(self, v, out):
        if isinstance(v, Tab):
            out.add(v.pos)
        elif isinstance(v, tuple):
            for x in v:
                if isinstance(x, (tuple, Tab)):
                    self.pins(x, out)

    def locs(self, v, out):
        if isinstance(v, tuple):
            if len(v) == 3 and v[:2] == ('v', 'tmp'):
                out.add(v)
            else:
                for x in v:
                    if isinstance(x, tuple):
                        self.locs(x, out)

    def key(self, anchor, s):
        names = {}

        def loc(x):
            if isinstance(x, Tab):
                return ('tab', x.pos[0], x.pos[1] - anchor if x.pos[0] == 0 else x.pos[1], hash(x.v))
            if isinstance(x, tuple):
                if x and x[0] == 't' and len(x) == 3:
                    return ('t', x[1], None if x[2] is None else x[2] - anchor if x[1] == 0 else x[2])
                if x and x[0] == 'o' and len(x) == 2:
                    return ('o', obj(x))
                if x and x[0] == 'v' and len(x) == 3:
                    return ('v', frames.get(x[1], x[1] if not isinstance(x[1], int) else -1), x[2] if x[1] != 'tmp' else 0)
                return tuple(loc(y) for y in x)
            if x is TOP:
                return 'TOP'
            return x

        def obj(o):
            if o not in names:
                names[o] = len(names)
                todo.append(o)
            return names[o]
        frames = {f.id: i for i, f in enumerate(self.frames)}
        todo = []
        roots = []
        byobj = {}
        for k, v in self.env.items():
            b = self.root(k)
            if b[0] == 'v' and b[1] in frames:
                roots.append((frames[b[1]], k, v))
            elif b[0] == 'o':
                byobj.setdefault(b, []).append((k, v))
            elif b[0] == 'g' or b[0] == 'v' and b[1] == 's':
                roots.append((-1, k, v))
        roots.sort(key=lambda r: (r[0], repr(r[1])))
        out = [('T', i, loc(f.this) if f.this is not None else None) for i, f in enumerate(self.frames)]
        out += [(loc(k), loc(v)) for _, k, v in roots]
        while todo:
            o = todo.pop(0)
            for k, v in sorted(byobj.get(o, ()), key=lambda r: repr(r[0])):
                out.append((loc(k), loc(v)))
        lo = self.low.get(0)
        ms = tuple(sorted((p[0], p[1] - anchor if p[0] == 0 else p[1], m) for p, m in self.mask.items() if m != ALL))
        return (tuple((f.site, id(f.fn)) for f in self.frames), tuple(a[0] for a in self.loops), id(s), tuple(out), ms,
                None if lo is None else lo - anchor, self.exact or self.X.coarse, self.X.extra_key(self))


import operator as _o
OPS = {'+': _o.add, '-': _o.sub, '*': _o.mul, '&': _o.and_, '|': _o.or_, '^': _o.xor, '<<': _o.lshift, '>>': _o.rshift,
       '==': lambda a, b: int(a == b), '!=': lambda a, b: int(a != b), '<': lambda a, b: int(a < b), '>': lambda a, b: int(a > b),
       '<=': lambda a, b: int(a <= b), '>=': lambda a, b: int(a >= b),
       '/': lambda a, b: abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1), '%': lambda a, b: abs(a) % abs(b) * (1 if a >= 0 else -1)}


class Explorer:
    """all paths of one entry point"""

    def __init__(self, P, cap=2, unroll=0, limit=60000, coarse=False):
        self.coarse, self.inn, self.until, self.stream = coarse, {}, None, False
        self.P, self.cap, self.unroll, self.limit = P, cap, unroll, limit
        self.visited, self.ids, self.stills, self.where = set(), {}, {}, {}
        self.reports = {}
        self.analysed = set()
        self.extent, self.begin = {}, {}
        self.paths = 0
        self.gv = {}
        self.summaries = {}
        self.globals = {}
        self.longest = 24
        self.first = None
        self.probe = False
        self.lost = {}

    def inner(self, s):
        """variables that live in the body of a loop only"""
        r = self.inn.get(id(s))
        if r is None:
            r = set()

            def go(x):
                if isinstance(x, list):
                    for y in x:
                        go(y)
                elif isinstance(x, dict):
                    if x.get('k') == 'Decl':
                        for v in x['c']:
                            if v.get('k') == 'Var' and not v.get('static'):
                                r.add(v['id'])
                    for y in x.values():
                        if isinstance(y, (dict, list)):
                            go(y)
            go(s['body'])
            self.inn[id(s)] = r
        return r

    def extra_key(self, run):
        return None

    def report(self, run, what, node, at):
        w = run.where(node) if run.frames else '?'
        k = (what, w, run.frames[-1].fn.q if run.frames else '?')
        old = self.reports.get(k)
        if old is None or run.exact and not old[0]:
            self.reports[k] = (run.exact, [f.fn.q for f in run.frames], self.picture(run))

    def picture(self, run):
        ps = sorted(p for p in run.mask if p[0] == 0)
        out = []
        for p in ps[-16:]:
            m = run.m(p)
            cs = [c for c in range(256) if m >> c & 1]
            c = cs[0] if len(cs) == 1 else next((x for x in cs if 33 <= x < 127), cs[0])
            out.append(('\\0' if c == 0 else chr(c) if 32 <= c < 127 else '\\x%02x' % c) + ('' if len(cs) == 1 else '~'))
        return ' '.join(out)

    def still(self, run, e, s, sh):
        self.stills.setdefault(e, (run.where(s), run.frames[-1].fn.q, run.exact, self.picture(run), sh))

    def garray(self, q):
        """values of a global array of numbers"""
        if q not in self.gv:
            g = self.P.globals.get(q)
            self.gv[q] = None
            if g is not None and g[0].get('init') is not None and g[0]['init']['k'] == 'InitList':
                vals = []
                for a in g[0]['init']['args']:
                    while a['k'] == 'Cast':
                        a = a['c'][0]
                    if a['k'] not in ('Int', 'Char', 'Bool'):
                        vals = None
                        break
                    vals.append(int(a['v']))
                t = g[1].types[g[0]['t']]
                if vals is not None and isinstance(t.get('n'), int):
                    vals += [0] * (t['n'] - len(vals))
                self.gv[q] = vals
        return self.gv[q]

    def global_value(self, run, loc):
        b, path = loc, []
        while isinstance(b, tuple) and b and b[0] in ('f', 'e'):
            path.insert(0, b[2])
            b = b[1]
        if not (isinstance(b, tuple) and b and b[0] == 'g'):
            return None
        if loc in run.env:
            return run.norm(run.env[loc])
        if b[1] in self.globals:
            return self.globals[b[1]]
        if b[1] == 'std::basic_string::npos':
            return 2 ** 64 - 1
        g = self.P.globals.get(b[1])
        if g is None:
            raise Unsup('global %s' % (b[1],))
        e, tu = g[0].get('init'), g[1]
        t = tu.types[g[0]['t']]
        for p in path:
            if e is None:
                return 0
            if isinstance(p, Tab):
                p = run.concrete(p)
            if isinstance(p, str):
                r = self.P.rec_of(t)
                names = [f['n'] for _, f, _ in self.P.all_fields(r)]
                i = names.index(p)
                t = None if r is None else r['tu'].types[r['fields'][i]['t']]
            else:
                i = p
                n = t.get('n')
                if isinstance(n, int) and not 0 <= i < n:
                    run.report('goes outside of an array of %d' % n, {'f': g[0].get('f')})
                    raise Prune()
                t = t['tu'].types[t['e']]
            e = e['args'][i] if e['k'] == 'InitList' and i < len(e['args']) else None
        if e is None:
            return 0
        fr = Frame(None, 0, None, 0)
        fr.tu = tu
        run.frames.append(fr)
        try:
            return run.rv(e)
        finally:
            run.frames.pop()

    def override(self, cls, fn):
        c = cls
        while True:
            for f in self.P.fns.values():
                if f.body is not None and f.d.get('rec') == c and f.n == fn['n'] and len(f.params) == len(fn['pt']) and bool(f.d.get('const')) == bool(fn.get('const')):
                    return f
            r = self.P.records.get(c)
            if r is None or not r.get('bases'):
                return None
            c = r['tu'].types[r['bases'][0]['t']]['s']

    def summary(self, run, fn, n):
        h = self.summaries.get(fn['q'])
        if h is not None:
            return h
        if fn.get('repo'):
            return None
        h = LIB.get(fn['q'])
        return h

    def explore(self, start):
        """start(run) runs one path from the entry; returns [(decisions, result)] outcomes"""
        outcomes = []
        self.queue = deque([[]])
        while self.queue:
            prefix = self.queue.popleft()
            run = Run(self, prefix)
            self.paths += 1
            if self.first and (any(e for e, _, _ in self.reports.values()) if self.first == 'exact' else self.reports):
                raise Unsup('stopped at the first alarm')
            if self.until and time.time() > self.until:
                raise Unsup('out of time after %d paths' % self.paths)
            if self.paths > self.limit:
                raise Unsup('more than %d paths' % self.limit)
            try:
                outcomes.append((run, start(run)))
            except Prune:
                pass
            t = [c for c, _ in run.taken]
            for i in range(len(prefix), len(t)):
                for k in range(1, run.taken[i][1]):
                    self.queue.append(t[:i] + [k])
        return outcomes

    def endless(self):
        """cycles of loop heads between which no pointer moves"""
        g = {}
        for (a, b), w in self.stills.items():
            g.setdefault(a, []).append(b)
        out = []
        for (a, b), w in self.stills.items():
            seen, todo = set(), [b]
            while todo:
                x = todo.pop()
                if x == a:
                    out.append(w)
                    break
                if x in seen:
                    continue
                seen.add(x)
                todo += g.get(x, ())
        return out


# ---------------------------------------------------------------- library
def this_loc(run, n):
    o = n.get('obj')
    if o is not None:
        return run.rv(o)[1] if n.get('arrow') else run.lv(o)
    return run.lv(n['args'][0])


def args_of(n):
    return n['args'][1:] if n.get('opm') else n['args']


def sval(run, loc, n):
    v = run.load(loc, n)
    return ('S', ()) if v is TOP and loc not in run.env else v if isinstance(v, tuple) and v[0] == 'S' else ('S', None)


def s_assign(run, n):
    loc = this_loc(run, n)
    a = args_of(n)
    x = asstr(run, a, n)
    run.store(loc, x, n)
    return ('L', loc)


def asstr(run, a, n):
    t = run.T(a[0]['t'])
    if t['k'] == 'char':
        return ('S', (run.norm(run.rv(a[0])),))
    if len(a) == 2 and t['k'] in ('int', 'uint'):
        c = run.rv(a[1])
        k = run.concrete(run.rv(a[0]))
        return ('S', None) if k is TOP else run.strv([c] * k)
    if t['k'] == 'rec':
        return sval(run, run.lv(a[0]), n)
    return run.tostr(run.rv(a[0]), run.rv(a[1]) if len(a) > 1 else None, n)


def s_append(run, n):
    loc = this_loc(run, n)
    x = asstr(run, args_of(n), n)
    cur = sval(run, loc, n)
    v = ('S', None) if x[1] is None or cur[1] is None else run.strv(cur[1] + x[1])
    run.store(loc, v, n)
    return ('L', loc)


def s_length(run, n):
    v = sval(run, this_loc(run, n), n)
    return TOP if v[1] is None else len(v[1])


def s_empty(run, n):
    v = sval(run, this_loc(run, n), n)
    return TOP if v[1] is None else int(not v[1])


def s_cstr(run, n):
    v = sval(run, this_loc(run, n), n)
    return ('P', ('K',)) if v[1] is None else ('P', ('k', v[1], 0))


def s_at(run, n):
    v = sval(run, this_loc(run, n), n)
    i = run.concrete(run.rv(args_of(n)[0]))
    if v[1] is None or i is TOP:
        return TOP
    if i == len(v[1]) and n['fn']['n'] != 'at':
        return 0
    if not 0 <= i < len(v[1]):
        run.report('reads outside of a string', n)
        raise Prune()
    return run.norm(v[1][i])


def s_clear(run, n):
    run.store(this_loc(run, n), ('S', ()), n)


def s_push(run, n):
    return s_append(run, n)


def s_eq(neg):
    def h(run, n):
        a = n['args']
        x, y = [asstr(run, [e], n) for e in a]
        if x[1] is None or y[1] is None:
            return TOP
        if len(x[1]) != len(y[1]):
            return int(neg)
        for p, q in zip(x[1], y[1]):
            if not run.truth(run.arith('==', p, q, n)):
                return int(neg)
        return int(not neg)
    return h


def l_strlen(run, n):
    p = run.rv(n['args'][0])
    if p is TOP or p[1] is not None and p[1][0] in ('K', 'x', '?'):
        return TOP
    if p[1] is not None and p[1][0] == 'k':
        for i, c in enumerate(p[1][1][p[1][2]:]):
            if not run.truth(c):
                return i
        return len(p[1][1]) - p[1][2]
    i = 0
    while True:
        c = run.read(run.deref(p, n), n)
        if c is TOP:
            return TOP
        if not run.truth(c):
            return i
        i += 1
        if i > 40:
            raise Unsup('strlen of the text')
        p = run.padd(p, 1, n)


def l_strchr(run, n):
    p, ch = run.rv(n['args'][0]), run.concrete(run.rv(n['args'][1]))
    for i in range(run.X.reach):
        c = run.read(run.deref(p, n), n)
        if c is TOP:
            raise Unsup('strchr in an unknown text')
        if run.truth(run.arith('==', c, ch, n)):
            return p
        if not run.truth(run.read(run.deref(p, n), n)):
            return NULLP
        p = run.padd(p, 1, n)
    run.X.lost['references longer than %d characters' % run.X.reach] = True
    raise Prune()


def compare(nocase, counted):
    def h(run, n):
        a = n['args']
        p, q = run.rv(a[0]), run.rv(a[1])
        m = run.concrete(run.rv(a[2])) if counted else None
        if m is TOP:
            return TOP
        i = 0
        while m is None or i < m:
            x, y = run.read(run.deref(p, n), n), run.read(run.deref(q, n), n)
            if nocase:
                x, y = lower(run, x), lower(run, y)
            if x is TOP or y is TOP:
                return TOP
            if not run.truth(run.arith('==', x, y, n)):
                return 1
            if not run.truth(x):
                return 0
            p, q = run.padd(p, 1, n), run.padd(q, 1, n)
            i += 1
            if i > 60:
                raise Unsup('long comparison')
        return 0
    return h


def cmap(f):
    def h(run, n):
        v = run.rv(n['args'][0])
        if v is TOP:
            return TOP
        return run.norm(Tab(v.pos, tuple(f(x) for x in v.v))) if isinstance(v, Tab) else f(v)
    return h


def lower(run, v):
    f = lambda x: x + 32 if 65 <= x <= 90 else x
    return run.norm(Tab(v.pos, tuple(f(x) for x in v.v))) if isinstance(v, Tab) else f(v) if isinstance(v, int) else v


def isal(x):
    return int(65 <= x <= 90 or 97 <= x <= 122)


def isdig(x):
    return int(48 <= x <= 57)


def l_print(run, n):
    """(buffer, [size,] format, one number)"""
    a = list(n['args'])
    buf = run.rv(a[0])
    if n['fn']['n'] == 'snprintf':
        run.rv(a[1])
        a.pop(1)
    f = run.rv(a[1])
    fmt = ''.join(chr(c) for c in f[1][1])
    if len(a) != 3 or fmt.count('%') != 1:
        raise Unsup('format %s' % fmt)
    v = run.norm(run.rv(a[2]))
    if isinstance(v, Tab):
        by = {}
        for c in range(256):
            if run.m(v.pos) >> c & 1:
                try:
                    by.setdefault(len(fmt % v.v[c]), []).append(c)
                except (TypeError, ValueError):
                    raise Unsup('format %s' % fmt)
        sizes = sorted(by)
        size = sizes[run.choose(len(sizes)) if len(sizes) > 1 else 0]
        m = sum(1 << c for c in by[size])
        run.mask[v.pos] = m
        for i in range(size):
            run.store(run.padd(buf, i, n)[1], run.norm(Tab(v.pos, tuple(ord((fmt % v.v[c])[i]) if m >> c & 1 else 0 for c in range(256)))), n)
        run.store(run.padd(buf, size, n)[1], 0, n)
        return size
    v = run.concrete(v)
    if v is TOP:
        raise Unsup('printing an unknown number')
    try:
        out = fmt % v
    except (TypeError, ValueError):
        raise Unsup('format %s' % fmt)
    for i, c in enumerate(out + '\0'):
        run.store(run.padd(buf, i, n)[1], ord(c), n)
    return len(out)


def s_find(run, n):
    v = sval(run, this_loc(run, n), n)
    a = args_of(n)
    if run.T(a[0]['t'])['k'] != 'char' or len(a) > 1 and run.concrete(run.rv(a[1])) != 0 or v[1] is None:
        return TOP
    c = run.rv(a[0])
    for i, x in enumerate(v[1]):
        if run.truth(run.arith('==', x, c, n)):
            return i
    return 2 ** 64 - 1


LIB = {'strlen': l_strlen, 'std::strlen': l_strlen, 'strchr': l_strchr, 'std::strchr': l_strchr, 'strncmp': compare(False, True), 'std::strncmp': compare(False, True),
       'strcmp': compare(False, False), 'std::strcmp': compare(False, False), 'strncasecmp': compare(True, True), 'strcasecmp': compare(True, False),
       'snprintf': l_print, 'sprintf': l_print,
       'isalpha': cmap(isal), 'isalnum': cmap(lambda x: int(isal(x) or isdig(x))), 'isdigit': cmap(isdig), 'isxdigit': cmap(lambda x: int(isdig(x) or 65 <= x <= 70 or 97 <= x <= 102)),
       'isspace': cmap(lambda x: int(x in (32, 9, 10, 11, 12, 13))), 'tolower': cmap(lambda x: x + 32 if 65 <= x <= 90 else x), 'toupper': cmap(lambda x: x - 32 if 97 <= x <= 122 else x)}
for k in ('isalpha', 'isalnum', 'isdigit', 'isxdigit', 'isspace', 'tolower', 'toupper'):
    LIB['std::' + k] = LIB[k]
B = 'std::basic_string::'
LIB.update({B + 'operator=': s_assign, B + 'assign': s_assign, B + 'operator+=': s_append, B + 'append': s_append, B + 'push_back': s_push,
            B + 'length': s_length, B + 'size': s_length, B + 'empty': s_empty, B + 'c_str': s_cstr, B + 'data': s_cstr, B + 'clear': s_clear,
            B + 'operator[]': s_at, B + 'at': s_at, B + 'find': s_find, 'std::operator==': s_eq(False), 'std::operator!=': s_eq(True), B + 'reserve': lambda run, n: None})
