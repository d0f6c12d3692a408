"""Closed forms for loop-carried values: integer division, inverses of injective
functions, unique-writer iterations, last writers, pointer chains, folds."""
from .terms import *
from . import terms as TM
from .values import *

INF = mk('app', 'INF', sort='i')


# ------------------------------------------------------------------ idiv
def idiv(u, A):
    """floor(u / A) for A > 0, u >= 0 in the uses made of it"""
    return lift('idiv', lambda x, y: _idiv(num(x), num(y)), u, A)


def _idiv(u, A):
    cA, cu = const_val(A), const_val(u)
    if cA is not None and cA > 0 and cu is not None and cu.denominator == 1 and cA.denominator == 1:
        return const(cu.numerator // cA.numerator)
    if cA == 1:
        return u
    q, r = _split_mult(u, A)
    if q is not ZERO:
        if TM._bound_decide(r) is False and TM._bound_decide(p_sub(r, A)) is True:
            return q
        if TM._bound_decide(r) is False:
            return p_add(q, _idiv(r, A))
    else:
        if TM._bound_decide(r) is False and TM._bound_decide(p_sub(r, A)) is True:
            return ZERO
    return num(mk('app', 'idiv', u, A, sort='i'))


def _split_mult(u, A):
    """u = q*A + r, moving to q the monomials divisible by A"""
    if len(A.args[0]) == 1:
        mA, cA = A.args[0][0]
        q, r = {}, {}
        for m, c in u.args[0]:
            d = dict(m)
            ok = all(d.get(a, 0) >= e for a, e in mA) and (c / cA).denominator == 1
            if ok:
                rest = tuple(sorted([(a, d[a] - dict(mA).get(a, 0)) for a in d if d[a] - dict(mA).get(a, 0)],
                                    key=lambda x: x[0].id))
                q[rest] = q.get(rest, 0) + c / cA
            else:
                r[m] = c
        return poly_from_dict(q), poly_from_dict(r)
    # several monomials: use the first monomial of A that has unit coefficient as a pivot
    q = ZERO
    r = u
    for _ in range(8):
        piv, cp = A.args[0][-1]
        cand = None
        for m, c in r.args[0]:
            d = dict(m)
            if piv and all(d.get(a, 0) >= e for a, e in piv) and (c / cp).denominator == 1:
                rest = tuple(sorted([(a, d[a] - dict(piv).get(a, 0)) for a in d if d[a] - dict(piv).get(a, 0)],
                                    key=lambda x: x[0].id))
                cand = poly_from_dict({rest: c / cp})
                break
        if cand is None:
            break
        q = p_add(q, cand)
        r = p_sub(r, p_mul(cand, A))
    return q, r


TM._app_hooks['idiv'] = lambda u, A: idiv(u, A)


def imod(u, A):
    return sub(u, mul(A, idiv(u, A)))


_old_atom_lt = TM.atom_lt


def _atom_lt(p):
    # idiv(u, A) + r < 0  <=>  u + r*A < 0        (A > 0)
    if p.op == 'poly':
        for m, c in p.args[0]:
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'app' and m[0][0].args[0] == 'idiv' and abs(c) == 1:
                a = m[0][0]
                rest = p_sub(p, mk('poly', ((m, c),)))
                if a in atoms_in_poly(rest):
                    continue
                u, A = a.args[1], a.args[2]
                if c == 1:
                    return _atom_lt(p_add(u, p_mul(rest, A)))
                # r - idiv < 0 <=> idiv >= r+1 <=> u - (r+1)A >= 0
                return b_not(_atom_lt(p_sub(u, p_mul(p_add(rest, ONE), A))))
    return _old_atom_lt(p)


TM.atom_lt = _atom_lt

# ------------------------------------------------------------------ injective functions
_inj = []        # predicates: app term -> index of the injective argument (1-based) or None


def inj_arg(t):
    for f in _inj:
        r = f(t)
        if r is not None:
            return r
    return None


def inverse(t, i, y):
    """the x with t[arg i := x] == y"""
    other = tuple(a for j, a in enumerate(t.args[1:], 1) if j != i)
    return inv_app(t.args[0], i, t.sort, t.args[i].op == 'poly', other, y)


def inv_app(name, i, sort, isnum, other, y):
    def f(yy):
        if yy.op == 'app' and yy.args[0] == name:
            o2 = tuple(a for j, a in enumerate(yy.args[1:], 1) if j != i)
            if o2 == other:
                return yy.args[i]
        t = mk('app', 'inv~%s~%d~%s~%s' % (name, i, sort, 'n' if isnum else 'p'), *other, yy, sort='i' if isnum else 'p')
        return num(t) if isnum else t
    a = atom_of(y) if y.op == 'poly' else None
    if y.op == 'poly' and a is not None:
        return f(a)
    return lift(('inv', name, i, other), f, y)


def _inv_rebuild(name, xs):
    _, n, i, s, k = name.split('~')
    return inv_app(n, int(i), s, k == 'n', tuple(xs[:-1]), xs[-1])


_old_mkapp = TM._mkapp


def _mkapp(name, xs, sort):
    if isinstance(name, str) and name.startswith('inv~'):
        return _inv_rebuild(name, xs)
    return _old_mkapp(name, xs, sort)


TM._mkapp = _mkapp


def invert(t, v, y):
    """solve t(v) == y for v where t is built from injective functions; returns term or None"""
    for _ in range(12):
        if t is v:
            return y
        if t.op == 'poly':
            a = atom_of(t)
            if a is not None:
                t = a
                continue
            s = lin_solve(p_sub(t, num(y)) if y.op in ('poly',) or not isinstance(y, T) or y.op != 'ite' else None, v) \
                if y.op != 'ite' else None
            return s
        if t.op == 'fresh':
            if v not in t.args[1:] and num(v) not in t.args[1:]:
                return None
            i = [j for j, a in enumerate(t.args[1:], 1) if a is v or a is num(v)]
            if len(i) != 1:
                return None
            return alloc_index(t.args[0], i[0], y)
        if t.op == 'iter':
            return iter_index(t, v, y)
        if t.op != 'app':
            return None
        i = inj_arg(t)
        if i is None or v not in free_lvs(t.args[i]):
            return None
        if any(v in free_lvs(a) for j, a in enumerate(t.args[1:], 1) if j != i):
            return None
        y = inverse(t, i, y)
        t = t.args[i]
    return None


def alloc_index(site, i, y):
    def f(yy):
        if yy.op == 'fresh' and yy.args[0] == site:
            return yy.args[i]
        return num(mk('app', 'allocidx', mk('str', site), const(i), yy, sort='i'))
    return lift(('alloc', site, i), f, y)


TM._app_hooks['allocidx'] = lambda s, i, y: alloc_index(s.args[0], int(const_val(i)), y)


# ------------------------------------------------------------------ pointer chains
def iterate(step_phi, step, init, j):
    """x_0 = init, x_{k+1} = step(x_k); the value x_j"""
    h = height(step)
    body = subst(step, {step_phi: ((), _bvv(h, step_phi))})
    return _mkiter(h, body, init, j)


def _bvv(h, phi):
    s = phi.args[1]
    b = mk('bv', h, sort=s)
    return num(b) if s in ('i', 'r') else b


def _mkiter(h, body, init, j):
    def f(i0, jj):
        c = const_val(num(jj))
        if c is not None and c.denominator == 1 and 0 <= c <= 6:
            x = i0
            b = mk('bv', h, sort=_bvsort(body, h))
            for _ in range(int(c)):
                x = subst(body, {b: x})
            return x
        t = mk('iter', h, body, i0, num(jj), sort=sort_of(i0) if sort_of(i0) != 'n' else 'p')
        return num(t) if t.sort in ('i', 'r') else t
    return lift(('iter', h, body), f, init, j)


def _bvsort(body, h):
    s = []
    contains(body, lambda x: x.op == 'bv' and x.args[0] == h and s.append(x.sort))
    return s[0] if s else 'p'


def _rb_iter(x, go):
    h, body, init, j = x.args
    srt = _bvsort(body, h)
    ph = mk('phi', ('it', TM._lvc[0] + 1), srt)
    TM._lvc[0] += 1
    b = subst(body, {mk('bv', h, sort=srt): rdval(ph, [], srt)})
    return iterate(ph, go(b), go(init), go(j))


TM._rebuilders['iter'] = _rb_iter


def iter_index(t, v, y):
    if num(t.args[3]) is not num(v) and v not in free_lvs(t.args[3]):
        return None
    if any(v in free_lvs(a) for a in (t.args[1], t.args[2])):
        return None

    def f(yy):
        if yy.op == 'iter' and yy.args[:3] == t.args[:3]:
            return yy.args[3]
        return num(mk('app', 'iteridx', mk('tup', *t.args[1:3]), yy, sort='i'))
    idx = lift(('iteri', t.args[:3]), f, y)
    jj = t.args[3]
    if jj is num(v):
        return idx
    if idx.op == 'ite':
        return None
    return lin_solve(p_sub(jj, num(idx)), v)


# ------------------------------------------------------------------ solving conditions for a variable
def lin_coef(p, v):
    """(coefficient poly, rest) when p is linear in v, else None"""
    co, rest = {}, {}
    for m, c in p.args[0]:
        d = dict(m)
        if v in d:
            if d[v] != 1:
                return None
            mm = tuple((a, e) for a, e in m if a is not v)
            if any(v in free_lvs(a) for a, e in mm):
                return None
            co[mm] = c
        else:
            if any(v in free_lvs(a) for a, e in m):
                return None
            rest[m] = c
    if not co:
        return None
    return poly_from_dict(co), poly_from_dict(rest)


def lin_solve(p, v):
    """v with p == 0"""
    if p is None:
        return None
    r = lin_coef(p, v)
    if r is None:
        return None
    co, rest = r
    c = const_val(co)
    if c is not None and abs(c) == 1:
        return p_scale(rest, -1 / c)
    if c is not None:
        if c < 0:
            co, rest = p_neg(co), p_neg(rest)
        return idiv(p_neg(rest), co)
    if lead_coef(co) < 0:
        co, rest = p_neg(co), p_neg(rest)
    return idiv(p_neg(rest), co)


def solve_candidates(g, v):
    """candidate unique solutions of guard g for loop variable v"""
    out = []
    conds = sorted(cond_support(g), key=lambda c: c.id)
    for c in conds:
        if v not in free_lvs(c):
            continue
        if c.op == 'eq0':
            p = c.args[0]
            if implies(g, ite_atom(c)):
                s = lin_solve(p, v)
                if s is not None:
                    out.append(s)
                else:
                    s = solve_count(p, v)
                    if s is not None:
                        out.append(s)
                    # an injective function of v inside an otherwise v-free equation
                    for m, cc in p.args[0]:
                        if len(m) == 1 and m[0][1] == 1 and v in free_lvs(m[0][0]) and m[0][0] is not v and abs(cc) == 1:
                            a = m[0][0]
                            rest = p_sub(p, poly_from_dict({m: cc}))
                            if v in free_lvs(rest):
                                continue
                            s = invert(a, v, p_scale(rest, -1 / cc))
                            if s is not None:
                                out.append(s)
        elif c.op == 'eq':
            if implies(g, ite_atom(c)):
                a, b = c.args
                va, vb = v in free_lvs(a), v in free_lvs(b)
                if va and not vb:
                    s = invert(a, v, b)
                elif vb and not va:
                    s = invert(b, v, a)
                else:
                    s = None
                if s is not None:
                    out.append(s)
    if not out:
        for c in conds:
            if c.op != 'lt0' or v not in free_lvs(c):
                continue
            r = lin_coef(c.args[0], v)
            if r is None:
                continue
            co, rest = r
            if lead_coef(co) < 0:
                A, u = p_neg(co), rest
            else:
                A, u = co, p_neg(rest)
            us = [u]
            # the bound may be shifted by the width or by one
            us += [p_sub(u, A), p_add(u, A), p_sub(u, ONE), p_add(u, ONE), p_sub(p_sub(u, A), p_neg(ONE)), p_add(p_add(u, A), ONE)]
            for uu in us:
                x = p_sub(uu, p_mul(A, num(v)))
                if implies(g, TM.atom_le(p_neg(x))) and implies(g, TM.atom_lt(p_sub(x, A))):
                    out.append(idiv(uu, A))
                    return out
    return out


def solve_count(p, v):
    """K - SUM_{j<v} [g(j)] == 0 : v is the index of the K-th element satisfying g"""
    for m, c in p.args[0]:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'sum' and abs(c) == 1 and m[0][0].sort == 'i':
            a = m[0][0]
            h, N, body = a.args
            if N is not num(v) or v in free_lvs(body):
                continue
            rest = p_scale(p_sub(p, poly_from_dict({m: c})), -1 / c)
            if v in free_lvs(rest):
                continue
            return nth(h, body, rest)
    return None


def nth(h, body, k):
    """index of the k-th element with indicator body(bv h) = 1"""
    def f(kk):
        return num(mk('nth', h, body, num(kk), sort='i'))
    return lift(('nth', h, body), f, k)


def _rb_nth(x, go):
    h, body, k = x.args
    v = new_lv()
    b = go(open_(h, body, num(v)))
    h2, b2 = close(v, b)
    return nth(h2, b2, go(k))


TM._rebuilders['nth'] = _rb_nth


def last(v, N, g):
    """greatest v < N with g(v) (meaningful when one exists)"""
    h, body = close(v, g)
    return lift(('last', h, body), lambda n: num(mk('last', num(n), h, body, sort='i')), N)


def _rb_last(x, go):
    N, h, body = x.args
    v = new_lv()
    b = go(open_(h, body, num(v)))
    return last(v, go(N), b)


TM._rebuilders['last'] = _rb_last


def leaf_guard(e, selfv):
    """(guard under which e is not selfv)"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            if x is selfv:
                r = FALSE
            elif x.op == 'ite':
                c, a, b = x.args
                r = mux(ite_atom(c), go(a), go(b))
            else:
                r = TRUE
            memo[x] = r
        return r
    return go(e)


def has_phi(t, phi):
    return phi in free_lvs(t)


def phis_in(t):
    return {x for x in free_lvs(t) if x.op == 'phi'}


def at_j(t, v, s):
    return subst(t, {v: s})


def solve_cell(phi, keys, sort, e, init, v):
    """closed form of the recurrence cell' = e(v, cell); value at iteration v, or None"""
    selfv = rdval(phi, keys, sort)
    if e is selfv:
        return init
    other = _other_cells(e, phi, selfv)
    if other and keys:
        e = _canon_cells(e, phi, keys, selfv)
        other = _other_cells(e, phi, selfv)
    if sort == 'b':
        t = selfv.args[0]
        a, b = restrict(e, t, True), restrict(e, t, False)
        if has_phi(a, phi) or has_phi(b, phi):
            return None
        if a is b:
            return last_write(TRUE, a, init, v)
        g = b_not(b_and(a, b_not(b)))
        if b_and(b_not(a), b) is not FALSE:
            return None
        return last_write(g, a, init, v)
    if sort in ('i', 'r'):
        d = _diff(e, selfv)
        if d is not None and not has_phi(d, phi):
            v2 = new_lv(num(v))
            return add(init, lsum(v2, num(v), subst(d, {v: num(v2)})))
    if not other:
        g = leaf_guard(e, selfv)
        if not has_phi(g, phi):
            if sort in ('i', 'r'):
                val = _replace_leaf(e, selfv)
            else:
                val = _replace_leaf(e, selfv)
            if val is not None and not has_phi(val, phi):
                return last_write(g, val, init, v)
            if val is not None and g is not TRUE:
                # written in at most one round: what it reads of itself is the initial value
                for c in solve_candidates(g, v):
                    if v not in free_lvs(c):
                        return last_write(g, subst(val, {phi: (keys, init)}), init, v)
        if not keys and v not in free_lvs(e) and phis_in(e) == {phi}:
            return iterate(phi, e, init, num(v))
    return None


def _canon_cells(e, phi, keys, selfv):
    """reads of phi at an index the path fixes to this very cell become the cell itself"""
    s0 = selfv.args[0] if selfv.op == 'ite' else (atom_of(selfv) or selfv)
    if s0.op == 'truth':
        s0 = s0.args[0]

    def reads(x):
        out = set()
        seen = set()

        def f(y):
            if isinstance(y, tuple):
                for z in y:
                    f(z)
            elif isinstance(y, T) and y not in seen:
                seen.add(y)
                if phi in free_lvs(y):
                    if y.op == 'rd' and y.args[0] is phi and y is not s0:
                        out.add(y)
                    for z in y.args:
                        f(z)
        f(x)
        return out

    def leaf(x, eqs):
        if not eqs:
            return x
        mp = {}
        for r in reads(x):
            good = True
            for k, a in zip(s0.args[1:], r.args[1:]):
                ks = subst(k, eqs)
                if ks is not a and ks is not subst(a, eqs):
                    good = False
            if good:
                mp[r] = num(s0) if s0.sort in ('i', 'r') else s0
        return subst(x, mp) if mp else x

    def go(x, eqs):
        if x.op != 'ite' or not _other_cells(x, phi, selfv):
            return leaf(x, eqs)
        c = x.args[0]
        e2 = eqs
        if c.op == 'eq0':
            for k in keys:
                if k in free_lvs(c) and k not in eqs:
                    r = lin_coef(c.args[0], k)
                    if r is not None and const_val(r[0]) in (1, -1) and k not in free_lvs(r[1]):
                        e2 = dict(eqs)
                        e2[k] = scale_neg(r[1], const_val(r[0]))
                        break
        return mux(ite_atom(c), go(x.args[1], e2), go(x.args[2], eqs))
    return go(e, {})


def scale_neg(rest, co):
    return neg(rest) if co == 1 else rest


def _diff(e, selfv):
    try:
        return sub(e, selfv)
    except Blowup:
        return None


def _replace_leaf(e, selfv):
    """e where it differs from selfv (some other leaf in its place elsewhere)"""
    alt = []

    def find(x):
        if x.op == 'ite':
            find(x.args[1])
            find(x.args[2])
        elif x is not selfv:
            alt.append(x)
    find(e)
    if not alt:
        return None
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == 'ite':
            c, a, b = x.args
            a2, b2 = go(a), go(b)
            if a2 is None:
                r = b2
            elif b2 is None:
                r = a2
            else:
                r = mux(ite_atom(c), a2, b2)
        elif x is selfv:
            return None
        else:
            r = x
        memo[x] = r
        return r
    return go(e)


def _other_cells(e, phi, selfv):
    s = selfv.args[0] if selfv.op == 'ite' else (atom_of(selfv) or selfv)
    if s.op == 'truth':
        s = s.args[0]
    return contains(e, lambda x: x.op == 'rd' and x.args[0] is phi and x is not s)


def last_write(g, val, init, v):
    """value at iteration v of a cell that iteration k < v sets to val(k) when g(k)"""
    if g is FALSE:
        return init
    jv = num(v)
    if g is TRUE:
        if v not in free_lvs(val):
            return vmux(TM.atom_eq0(jv), init, val)
        return vmux(TM.atom_eq0(jv), init, at_j(val, v, sub(jv, ONE)))
    for s in solve_candidates(g, v):
        if v in free_lvs(s):
            continue
        ok = b_and(le(ZERO, s), lt(s, jv))
        ok = b_and(ok, at_j(g, v, s))
        return vmux(ok, at_j(val, v, s), init)
    if v not in free_lvs(g):
        val1 = val if v not in free_lvs(val) else at_j(val, v, sub(jv, ONE))
        return vmux(b_and(g, lt(ZERO, jv)), val1, init)
    # disjuncts by value
    parts = split_by_leaf(val, g)
    if len(parts) > 1:
        r = _disjoint_writes(parts, init, v)
        if r is not None:
            return r
    v2 = new_lv(jv)
    ex = exists(v2, jv, subst(g, {v: num(v2)}))
    if v not in free_lvs(val):
        return vmux(ex, val, init)
    v3 = new_lv(jv)
    return vmux(ex, at_j(val, v, last(v3, jv, subst(g, {v: num(v3)}))), init)


def split_by_leaf(val, g):
    out = {}

    def go(x, c):
        c2 = c
        if c2 is FALSE:
            return
        if x.op == 'ite':
            a = ite_atom(x.args[0])
            go(x.args[1], b_and(c, a))
            go(x.args[2], b_and(c, b_not(a)))
        else:
            out[x] = b_or(out.get(x, FALSE), c)
    go(val, g)
    return list(out.items())


def _disjoint_writes(parts, init, v):
    jv = num(v)
    res = init
    prev = []
    sols = []
    for val, g in parts:
        ss = [s for s in solve_candidates(g, v) if v not in free_lvs(s)]
        if not ss:
            return None
        s = ss[0]
        ok = b_and(b_and(le(ZERO, s), lt(s, jv)), at_j(g, v, s))
        sols.append((s, ok, at_j(val, v, s)))
    for s, ok, val in sols:
        cond = ok
        for s2, ok2, _v in prev:
            cond = b_and(cond, b_or(b_not(ok2), le(s2, s)))
        res = vmux(cond, val, res)
        prev.append((s, ok, val))
    return res


# ------------------------------------------------------------------ folds
def fold(i, n, phis, steps, inits, v):
    """i-th component after n rounds of the simultaneous recurrence"""
    h = height(mk('tup', *steps))
    mp = {v: num(mk('bv', h, sort='i'))}
    for k, ph in enumerate(phis):
        mp[ph] = ((), _bvv(h + 1 + k, ph))
    body = tuple(subst(s, mp) for s in steps)
    srt = tuple(ph.args[1] for ph in phis)
    return _mkfold(i, n, h, srt, body, tuple(inits))


def _mkfold(i, n, h, srt, body, inits):
    def f(nn):
        c = const_val(num(nn))
        if c is not None and c.denominator == 1 and 0 <= c <= 4:
            cur = list(inits)
            for k in range(int(c)):
                mp = {mk('bv', h, sort='i'): const(k)}
                for q, s in enumerate(srt):
                    mp[mk('bv', h + 1 + q, sort=s)] = cur[q]
                cur = [subst(b, mp) for b in body]
            return cur[i]
        t = mk('fold', i, num(nn), h, srt, body, inits, sort=srt[i])
        return num(t) if srt[i] in ('i', 'r') else (ite_atom(mk('truth', t)) if srt[i] == 'b' else t)
    return lift(('fold', i, h, srt, body, inits), f, n)


def _rb_fold(x, go):
    i, n, h, srt, body, inits = x.args
    v = new_lv()
    phis = [mk('phi', ('fo', v.args[0], k), s) for k, s in enumerate(srt)]
    mp = {mk('bv', h, sort='i'): num(v)}
    for k, s in enumerate(srt):
        mp[mk('bv', h + 1 + k, sort=s)] = rdval(phis[k], [], s)
    steps = [go(subst(b, mp)) for b in body]
    return fold(i, go(n), phis, steps, [go(t) for t in inits], v)


TM._rebuilders['fold'] = _rb_fold
