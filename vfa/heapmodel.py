"""Objects with dynamic types: virtual calls, virtual destructors and the fate of every allocation.
install(I) makes `delete` run the destructors and records, per allocation, whether it was released."""
from .terms import *
from .values import *
from . import models as MD

from .interp import ADDR, LOC, Unsupported, assume, vmux, b_and, b_or, b_not


def leaves(p):
    """[(condition, pointer)] of a pointer value"""
    out = []

    def go(t, c):
        if t.op == 'ite':
            a = ite_atom(t.args[0])
            go(t.args[1], b_and(c, a))
            go(t.args[2], b_and(c, b_not(a)))
        elif c is not FALSE:
            out.append((c, t))
    go(p, TRUE)
    return out


def dynamic(I, p):
    """record name of the object p points to (None when it is not known)"""
    if p.op == 'fresh':
        return I.allocated.get(p.args[0])
    if p is NULL:
        return None
    if p.op == 'addr' or p.op == 'loc':
        r = I.objtype.get(p)
        if r is not None:
            return r
    raise Unsupported('dynamic type of %s' % show(p)[:80])


def override(I, fn, rec):
    """the function a call of fn on an object of type rec reaches"""
    if rec is None:
        return fn
    pt = [fn.tu.types[p['t']]['s'] for p in fn.params]
    want = fn.d.get('const')
    for b in bases_in_order(I, rec):
        for f in I.P.fns.values():
            if f.n == fn.n and f.d.get('rec') == b and f.body is not None and len(f.params) == len(pt) and \
                    [f.tu.types[p['t']]['s'] for p in f.params] == pt and f.d.get('const') == want:
                return f
    return fn


def bases_in_order(I, rec):
    out = [rec]
    r = I.P.records.get(rec)
    for b in (r or {}).get('bases', []):
        out += bases_in_order(I, r['tu'].types[b['t']]['s'])
    return out


def dtor(I, rec):
    for f in I.P.fns.values():
        if f.d.get('kind') == 'dtor' and f.d.get('rec') == rec and f.body is not None:
            return f
    return None


def freed(p):
    return LOC('freed', p)


def install(I):
    I.track = True
    I.made = []

    def release(p, st, fr, ctx, n):
        """run by delete on one concrete allocation, under st"""
        rec = dynamic(I, p)
        if p is NULL:
            return
        if p.op != 'fresh' or rec is None:
            raise Unsupported('delete of %s at %s' % (show(p)[:80], I.where(n, fr)))
        I.fault(st, ctx, st.env.get(freed(p), FALSE), 'released twice', n, fr)
        misuse(I, p, st)
        destroy(I, p, rec, st, fr, ctx, n)
        st.env[freed(p)] = TRUE

    I.release = release

    def s_unreleased(I, n, st, fr, ctx):
        r = ZERO
        for p in I.made:
            r = add(r, mux(st.env.get(freed(p), TRUE), ZERO, ONE))
        return r

    def s_misused(I, n, st, fr, ctx):
        return st.env.get(MISUSE, FALSE)
    I.summaries['vf::unreleased'] = s_unreleased
    I.summaries['vf::misused'] = s_misused


MISUSE = LOC('misused')


def misuse(I, p, st):
    """p is about to be touched or released"""
    for c, q in leaves(p):
        if q.op == 'addr':
            q = q.args[0]
        if q.op == 'fresh':
            f = st.env.get(freed(q))
            if f is not None and f is not FALSE:
                st.env[MISUSE] = b_or(st.env.get(MISUSE, FALSE), b_and(c, f))


def destroy(I, p, rec, st, fr, ctx, n):
    for b in bases_in_order(I, rec):
        d = dtor(I, b)
        if d is not None:
            I.call_fn(d, p, [], st, ctx, fr, n)
        r = I.P.records.get(b)
        for f in reversed((r or {}).get('fields', [])):
            t = r['tu'].types[f['t']]
            if t['k'] == 'rec':
                m = dtor(I, t['s'])
                if m is not None:
                    I.call_fn(m, I.field_addr(p, b, f['n']), [], st, ctx, fr, n)


def delete(I, n, st, fr, ctx):
    p = assume(I.rv(n['c'][0], st, fr, ctx), st.lits)
    each(I, p, st, fr, ctx, lambda q, s: I.release(q, s, fr, ctx, n))
    return mk('void')


def each(I, p, st, fr, ctx, f):
    """f(pointer, state) for every pointer p may be; the results joined"""
    ls = leaves(p)
    if len(ls) == 1:
        return f(ls[0][1], st)
    lits = st.lits
    cur, val = None, None
    for c, q in ls:
        s = I.fork(st, c)
        if s.pc is FALSE:
            continue
        v = f(q, s)
        if s.pc is FALSE:
            continue
        if cur is None:
            cur, val = s, v
        else:
            m = I.merge(c, s, cur, lits)
            val = None if v is None else vmux(c, v, val)
            cur = m
    if cur is None:
        st.pc = FALSE
        return val
    st.env, st.pc, st.lits = cur.env, cur.pc, cur.lits
    return val


def dispatch(I, fn, this, vals, st, ctx, fr, n):
    """call of a virtual function"""
    if fn.d.get('rec') is None:
        return I.call_fn(fn, this, vals, st, ctx, fr, n)
    groups = {}
    for c, p in leaves(assume(this, st.lits)):
        groups.setdefault(dynamic(I, p), []).append((c, p))
    if len(groups) == 1:
        return I.call_fn(override(I, fn, list(groups)[0]), this, vals, st, ctx, fr, n)
    return each(I, this, st, fr, ctx, lambda q, s: I.call_fn(override(I, fn, dynamic(I, q)), q, vals, s, ctx, fr, n))


def declared(I, f):
    """a function standing for the declaration f of a pure virtual method"""
    c = [g for g in I.P.fns.values() if g.n == f['n'] and g.body is not None and g.d.get('virt') and len(g.d['pt']) == len(f['pt'])]
    return c[0] if c else None
