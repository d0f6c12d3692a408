"""Search for an interpretation that tells two terms apart: the conditions found anywhere in them are made to hold
(or not) by solving them for one input at a time."""
import math
import random
from .terms import *
from . import terms as TM
from . import cmp as CM
from .cmp import Uneval, Forcing

LEAF = ('any:', 'arg:', '.', 'read ', 'NUMBER', 'COMPONENT', 'SHADE', 'charat', 'strlen')
BUDGET = [60_000_000]        # evaluation steps left for this process
INVERSE = {'sin': math.asin, 'cos': math.acos, 'tan': math.atan, 'asin': math.sin, 'acos': math.cos, 'atan': math.tan,
           'exp': math.log, 'log': math.exp, 'sqrt': lambda v: v * v if v >= 0 else math.sqrt(-1), 'abs': lambda v: v if v >= 0 else math.sqrt(-1)}
S = math.sqrt(0.5)
UNIT4 = [(0, 0, 0, 1), (1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, S, 0, S), (S, 0, 0, S), (0, 0, S, S), (0, 0, 0, -1), (0.5, 0.5, 0.5, 0.5), (0, 0.6, 0, -0.8)]
UNIT3 = [(0, 0, 1), (1, 0, 0), (0, 1, 0), (0, 0, -1), (0, -1, 0), (-1, 0, 0), (0, 0.6, 0.8), (0.6, 0, 0.8), (0.6, 0.8, 0)]
BIND = {'sum': (0, 2), 'exists': (0, 2), 'first': (1, 2), 'last': (1, 2), 'nth': (0, 1), 'iter': (0, 1)}


def atoms_in(*ts, limit=3000):
    """conditions in the terms, outer ones first; bodies of bound variables at the indices 0 and 1"""
    out, seen, todo = {}, set(), list(ts)
    while todo and len(seen) < limit * 20 and len(out) < limit:
        t = todo.pop(0)
        if isinstance(t, tuple):
            todo += [a for a in t if isinstance(a, (T, tuple))]
            continue
        if not isinstance(t, T) or t in seen:
            continue
        seen.add(t)
        if t.op == 'ite' and t.args[0].op in ('lt0', 'le0', 'eq0', 'eq', 'truth') and height(t.args[0]) == 0:
            out[t.args[0]] = True
        i = BIND.get(t.op)
        if i is not None:
            h, body = t.args[i[0]], t.args[i[1]]
            todo += [a for a in t.args if isinstance(a, T) and a is not body]
            try:
                todo += [open_(h, body, const(k)) for k in (0, 1)]
            except (Blowup, RecursionError):
                pass
            continue
        if t.op == 'lam':
            h, sorts, body = t.args
            if list(sorts) == ['i']:
                todo += [open_(h, body, const(k)) for k in (0, 1, 2)]
                continue
        todo += [a for a in t.args if isinstance(a, (T, tuple))]
    return list(out)


def numbers_in(t, free, limit=4000):
    """the real inputs a term depends on; bodies of bound variables at the indices 0 and 1"""
    out, seen, todo = {}, set(), [t]
    while todo and len(seen) < limit:
        t = todo.pop(0)
        if isinstance(t, tuple):
            todo += [a for a in t if isinstance(a, (T, tuple))]
            continue
        if not isinstance(t, T) or t in seen:
            continue
        seen.add(t)
        if t.op == 'app' and t.sort == 'r' and free(t) and height(t) == 0:
            out[t] = True
            continue
        i = BIND.get(t.op)
        if i is not None:
            h, body = t.args[i[0]], t.args[i[1]]
            todo += [a for a in t.args if isinstance(a, T) and a is not body]
            try:
                todo += [open_(h, body, const(k)) for k in (0, 1)]
            except (Blowup, RecursionError):
                pass
            continue
        if t.op == 'lam':
            h, sorts, body = t.args
            if list(sorts) == ['i']:
                todo += [open_(h, body, const(k)) for k in (0, 1)]
                continue
        todo += [a for a in t.args if isinstance(a, (T, tuple))]
    return list(out)


def linsolve(A, b):
    n = len(b)
    M = [list(A[i]) + [b[i]] for i in range(n)]
    for i in range(n):
        p = max(range(i, n), key=lambda r: abs(M[r][i]))
        if abs(M[p][i]) < 1e-9:
            return None
        M[i], M[p] = M[p], M[i]
        for r in range(n):
            if r != i:
                k = M[r][i] / M[i][i]
                M[r] = [x - k * y for x, y in zip(M[r], M[i])]
    return [M[i][n] / M[i][i] for i in range(n)]


class Solver(Forcing):
    def __init__(self, m, rnd):
        Forcing.__init__(self, m)
        self.rnd = rnd
        self.eqs = []            # what root has made hold: (term, value)
        self.mine = {}           # inputs root has chosen values for

    def root(self, p, g):
        """make p come out as g, keeping what was made so before: Newton's method in as many inputs as there are equations"""
        m = self.m
        eqs = self.eqs + [(p, g)]
        if len(eqs) > 4:
            return False
        pool = {}
        for t, _ in eqs:
            for x in numbers_in(t, self.free):
                try:
                    k = self.key(x)
                except (Uneval, TypeError):
                    continue
                if k in self.mine or k not in self.iv and k not in m.forced:
                    pool[k] = x
        s0 = self.save()
        for _ in range(6):
            if len(pool) < len(eqs):
                return False
            ks = self.rnd.sample(list(pool), len(eqs))
            if self.newton(eqs, ks):
                self.eqs = eqs
                for k in ks:
                    self.mine[k] = True
                    self.iv[k] = (m.forced[k], m.forced[k])
                return True
            self.back(s0)
        return False

    def newton(self, eqs, ks):
        m = self.m
        xs = [m.forced[k] if k in m.forced else self.rnd.uniform(-1, 1) for k in ks]

        def f(xs):
            for k, x in zip(ks, xs):
                m.forced[k] = x
            m.memo.clear()
            return [float(m.ev(t)) - g for t, g in eqs]
        try:
            y = f(xs)
            for _ in range(8):
                if max(abs(v) for v in y) < 1e-11:
                    return all(abs(x) < 50 for x in xs)
                J = []
                for j in range(len(xs)):
                    d = 0.125
                    z = f(xs[:j] + [xs[j] + d] + xs[j + 1:])
                    J.append([(v - w) / d for v, w in zip(z, y)])
                step = linsolve([[J[j][i] for j in range(len(xs))] for i in range(len(eqs))], [-v for v in y])
                if step is None:
                    return False
                xs = [x + d for x, d in zip(xs, step)]
                y = f(xs)
        except (Uneval, OverflowError, ZeroDivisionError, TypeError, ValueError):
            pass
        return False

    def key(self, t):
        m = self.m
        return (t.args[0], tuple(m.q(m.akey(a, {})) for a in t.args[1:]))

    def free(self, t):
        if t.op != 'app' or t.sort not in ('r', 'i') or not isinstance(t.args[0], str):
            return False
        if t.args[0] == 'at':
            a = t.args[1]
            if not (isinstance(a, T) and a.op == 'app' and isinstance(a.args[0], str) and a.args[0].startswith(LEAF)):
                return False
        elif not t.args[0].startswith(LEAF):
            return False
        return CM._unit_of(t) is None and t.args[0] not in CM.EXACT and t.args[0] not in self.m.fixed

    def make(self, t, val, depth=0):
        """make a number come out as val through one of the inputs it depends on"""
        m = self.m
        if depth > 8:
            return False
        if t.op == 'ite':
            return self.make(t.args[1 if m.cond(t.args[0], {}) else 2], val, depth + 1)
        if t.op == 'poly':
            cand = []
            for a in atoms_in_poly(t):
                k, rest, ok = 0.0, 0.0, True
                for mono, c in t.args[0]:
                    p = float(c)
                    e0 = 0
                    for x, e in mono:
                        if x is a:
                            e0 = e
                        else:
                            p *= float(m.ev(x)) ** e
                    if e0 == 0:
                        rest += p
                    elif e0 == 1:
                        k += p
                    else:
                        ok = False
                if ok and abs(k) > 1e-9:
                    cand.append((a, (val - rest) / k))
                elif not ok and len(t.args[0]) <= 2 and val - rest == 0 and k == 0:
                    cand.append((a, 0.0))
            self.rnd.shuffle(cand)
            for a, w in cand:
                s = self.save()
                try:
                    if self.make(a, w, depth + 1) and abs(m.ev(t) - val) < 1e-7 * (1 + abs(val)):
                        return True
                except (Uneval, OverflowError, ZeroDivisionError, TypeError):
                    pass
                self.back(s)
            return False
        if t.op == 'app':
            if self.free(t):
                if t.sort == 'i':
                    if abs(val - round(val)) > 1e-9:
                        return False
                    val = int(round(val))
                elif abs(val - round(val)) < 1e-12:
                    val = int(round(val))
                k = self.key(t)
                if k in self.iv:
                    lo, hi = self.iv[k]
                    if not lo <= val <= hi:
                        return False
                elif k in m.forced:
                    return abs(m.forced[k] - val) < 1e-9
                self.iv[k] = (val, val)
                m.forced[k] = val
                m.memo.clear()
                return True
            u = CM._unit_of(t)
            if u is not None:
                return self.unit(u, lambda: abs(m.ev(t) - val) < 1e-9)
            if t.args[0] == 'size' and t.sort == 'i':
                k = self.key(t)
                if abs(val - round(val)) > 1e-9 or not 0 <= val <= 4 or k in m.forced:
                    return False
                m.forced[k] = int(round(val))
                m.memo.clear()
                return True
            f = INVERSE.get(t.args[0])
            if f is not None and len(t.args) == 2:
                try:
                    w = f(val)
                except (ValueError, OverflowError):
                    return False
                return self.make(t.args[1], w, depth + 1)
        return False

    def unit(self, u, good):
        """choose one of the special unit vectors or quaternions"""
        m = self.m
        try:
            key = tuple(m._akey(a, {}) for a in u)
        except (Uneval, TypeError):
            return False
        if key in m.units:
            return bool(good())
        tab = list(UNIT4 if len(u) == 4 else UNIT3)
        self.rnd.shuffle(tab)
        for w in tab:
            m.units[key] = w
            m.memo.clear()
            try:
                if good():
                    return True
            except (Uneval, OverflowError, ZeroDivisionError):
                pass
        del m.units[key]
        m.memo.clear()
        return False

    def save(self):
        return dict(self.m.forced), dict(self.iv), dict(self.m.units), list(self.eqs), dict(self.mine)

    def back(self, s):
        self.m.forced, self.iv, self.m.units, self.eqs, self.mine = (dict(x) if isinstance(x, dict) else list(x) for x in s)
        self.m.memo.clear()

    def literal(self, c, v):
        m = self.m
        try:
            if c.op in ('lt0', 'le0', 'eq0'):
                if not (c.op == 'eq0' and v):
                    try:
                        r = self.bound(c, v)
                        if r is not None:
                            return r
                    except TypeError:
                        pass
                p = c.args[0]
                try:
                    if bool(m.cond(c, {})) == v:
                        return True
                except Uneval:
                    pass
                if c.op == 'eq0':
                    goals = [0.0] if v else [self.rnd.choice((0.7, -0.7, 1.0))]
                elif v:
                    goals = [-0.5, -1e-3, -30.0, -1.0]
                else:
                    goals = [0.5, 1e-3, 30.0, 1.0]
                    if c.op == 'lt0':
                        goals.insert(self.rnd.randrange(2), 0.0)
                if c.op == 'le0' and v:
                    goals.insert(self.rnd.randrange(2), 0.0)
                for g in goals:
                    s = self.save()
                    if self.make(p, g):
                        return True
                    self.back(s)
                for a in atoms_in_poly(p) if p.op == 'poly' else ():
                    u = CM._unit_of(a)
                    if u is not None and self.unit(u, lambda: bool(m.cond(c, {})) == v):
                        return True
                return self.root(p, goals[0])
            return self.literal1(c, v)
        except (Uneval, OverflowError, ZeroDivisionError, TypeError):
            return False


def seek(a, b, guard, seed, fixed, tol, cls, rounds=160, budget=1_500_000):
    """description of an interpretation under which a and b differ, or None"""
    if BUDGET[0] <= 0 or CM.has_unk(a) or CM.has_unk(b):
        return None
    aa, bb = atoms_in(a), atoms_in(b)
    sa, sb = set(aa), set(bb)
    odd = [c for c in aa + bb if (c in sa) != (c in sb)]
    rest = [c for c in aa if c in sb]
    if not odd and not rest:
        return None
    odd = odd[:60]
    rest = rest[:40]
    plans = []
    for c in odd[:24]:
        plans += [[(c, True)], [(c, False)]]
    plans += [[(c, v) for c in odd] for v in (True, False)]
    for i in range(0, max(0, rounds - len(plans))):
        plans.append(i)
    used = 0
    for i, plan in enumerate(plans):
        if used > budget or BUDGET[0] <= 0:
            break
        rnd = random.Random('%s %s' % (seed, i))
        m = cls((seed, 'seek', i), CM.IRANGES[i % len(CM.IRANGES)], 3, fixed)
        S = Solver(m, rnd)
        if isinstance(plan, int):
            pool = odd + (rest if plan % 3 == 0 else [])
            if plan % 2:
                rnd.shuffle(pool)
            k = len(pool) if plan % 4 else min(len(pool), 1 + rnd.randrange(4))
            p = rnd.choice((0.5, 0.5, 0.8, 0.2))
            plan = [(c, rnd.random() < p) for c in pool[:k]]
        done = []
        try:
            g = guard
            for _ in range(200):
                if g.op != 'ite':
                    break
                c = g.args[0]
                vs = [v for v in (True, False) if g.args[1 if v else 2] is not FALSE]
                rnd.shuffle(vs)
                for v in vs:
                    s = S.save()
                    if S.literal(c, v):
                        break
                    S.back(s)
                else:
                    v = vs[0]
                g = g.args[1 if v else 2]
            for c, v in plan:
                s = S.save()
                if S.literal(c, v):
                    done.append((c, v))
                else:
                    S.back(s)
            m.memo.clear()
            used += m.steps
            BUDGET[0] -= m.steps
            m.steps = 0
            if guard is not TRUE and not m.ev(guard):
                continue
            va, vb = m.ev(a), m.ev(b)
        except (Uneval, OverflowError, ZeroDivisionError, TypeError):
            used += m.steps
            BUDGET[0] -= m.steps
            continue
        used += m.steps
        BUDGET[0] -= m.steps
        if CM.differs(va, vb, tol):
            held = []
            for c, v in done:
                try:
                    if bool(m.cond(c, {})) == v:
                        held.append(show(c) if v else 'not ' + show(c))
                except Uneval:
                    pass
            return '%s instead of %s when %s' % (CM.fmt(va), CM.fmt(vb), '; '.join(held)[:1500])
    return None
