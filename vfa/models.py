"""Meaning of the library functions the analysed code calls (std, Eigen)."""
import re
from .terms import *
from . import terms as TM
from .values import *
from .solve import *
from . import values as VL

M = {}


def model(*names):
    def deco(f):
        for n in names:
            M[n] = f
        return f
    return deco


def install(I):
    I.models.update(M)
    I.as_mat = lambda v, st: as_mat(I, v, st)


# ---------------------------------------------------------------- helpers
def throw_if(I, st, ctx, cond, exc, val=None):
    from .interp import Exit, cube_lits
    cond = I_assume(cond, st)
    if cond is FALSE:
        return
    e = st.copy()
    e.pc = b_and(st.pc, cond)
    ctx.thr.append(Exit(e.pc, e, val if val is not None else mk('exc'), exc))
    g = b_not(cond)
    st.pc = b_and(st.pc, g)
    st.lits = st.lits + cube_lits(g)


def I_assume(t, st):
    from .interp import assume
    return assume(t, st.lits)


def addr_of(I, n, st, fr, ctx):
    from .interp import ADDR
    return I.self_args(n, st, fr, ctx)


def selfval(I, n, st, fr, ctx):
    a, rest = I.self_args(n, st, fr, ctx)
    o = n['args'][0] if n.get('opm') else n['obj']
    t = I.deref_type(I.T(fr, o['t']))
    if n.get('arrow') and not n.get('opm'):
        t = I.pointee(t) or t
    return a, I_assume(I.load(st, a, t), st), rest


def rvs(I, ns, st, fr, ctx):
    return [I.norm_value(I.rv(a, st, fr, ctx), st) for a in ns]


def type_of(I, n, fr):
    return I.deref_type(I.T(fr, n['t']))


def ret_ref(I, n, a, st, fr, t=None):
    """a is an address; the call node may yield a glvalue or a prvalue"""
    if I.is_gl(n):
        return a
    return I.load(st, a, I.T(fr, n['t']))


# ---------------------------------------------------------------- math
def _math(name, k=1):
    def f(I, n, st, fr, ctx):
        a = rvs(I, n['args'], st, fr, ctx)
        return real_fn(name, *a)
    return f


for _n in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'sqrt', 'exp', 'log', 'floor', 'ceil', 'round', 'hypot',
           'pow', 'fmod', 'trunc', 'cbrt', 'log2', 'log10', 'sinh', 'cosh', 'tanh'):
    M[_n] = M['std::' + _n] = _math(_n)


def _pow(I, n, st, fr, ctx):
    a, b = rvs(I, n['args'], st, fr, ctx)
    c = const_val(b) if b.op == 'poly' else None
    if c is not None and c.denominator == 1 and 0 <= c <= 4:
        r = ONE
        for _ in range(int(c)):
            r = mul(r, a)
        return r
    return real_fn('pow', a, b)


M['pow'] = M['std::pow'] = _pow


@model('fabs', 'std::fabs', 'abs', 'std::abs')
def m_abs(I, n, st, fr, ctx):
    a, = rvs(I, n['args'], st, fr, ctx)
    return mux(lt(a, ZERO), neg(a), a)


@model('std::min', 'fmin', 'std::fmin')
def m_min(I, n, st, fr, ctx):
    a, b = rvs(I, n['args'], st, fr, ctx)
    r = vmux(lt(b, a), b, a)
    return I.temp(st, fr, n, r) if I.is_gl(n) else r


@model('std::max', 'fmax', 'std::fmax')
def m_max(I, n, st, fr, ctx):
    a, b = rvs(I, n['args'], st, fr, ctx)
    r = vmux(lt(a, b), b, a)
    return I.temp(st, fr, n, r) if I.is_gl(n) else r


@model('std::swap')
def m_swap(I, n, st, fr, ctx):
    a, b = [I.ev(x, st, fr, ctx) for x in n['args']]
    ta, tb = [type_of(I, x, fr) for x in n['args']]
    x, y = I.load(st, a, ta), I.load(st, b, tb)
    I.store(st, a, y)
    I.store(st, b, x)
    return mk('void')


@model('std::isnan', 'std::isfinite', 'std::isinf', 'isnan', 'isinf', 'isfinite')
def m_isnan(I, n, st, fr, ctx):
    a, = rvs(I, n['args'], st, fr, ctx)
    return lift(('fp', n['fn']['n'] if 'n' in n['fn'] else n['fn']['q']),
                lambda x: ite_atom(mk('truth', mk('app', n['fn']['q'].split('::')[-1], num(x), sort='b'))), a)


@model('std::numeric_limits::infinity')
def m_inf(I, n, st, fr, ctx):
    return num(mk('app', 'inf', sort='r'))


@model('std::numeric_limits::max')
def m_nmax(I, n, st, fr, ctx):
    from .interp import width
    w = width(type_of(I, n, fr))
    if w:
        return const(2 ** (w[0] - (1 if w[1] else 0)) - 1)
    return num(mk('app', 'nmax:' + type_of(I, n, fr)['s'], sort='r'))


@model('std::numeric_limits::min', 'std::numeric_limits::lowest')
def m_nmin(I, n, st, fr, ctx):
    from .interp import width
    w = width(type_of(I, n, fr))
    if w:
        return const(-2 ** (w[0] - 1) if w[1] else 0)
    q = n['fn']['q'].split('::')[-1]
    return num(neg(mk('app', 'nmax:' + type_of(I, n, fr)['s'], sort='r'))) if q == 'lowest' else num(mk('app', 'nmin:' + type_of(I, n, fr)['s'], sort='r'))


@model('std::numeric_limits::quiet_NaN')
def m_nan(I, n, st, fr, ctx):
    return num(mk('app', 'nan', sort='r'))


@model('std::numeric_limits::epsilon', 'std::numeric_limits::min', 'std::numeric_limits::lowest')
def m_nlim(I, n, st, fr, ctx):
    return num(mk('app', n['fn']['q'] + type_of(I, n, fr)['s'], sort='r'))


# ---------------------------------------------------------------- utility
@model('std::move', 'std::forward', 'std::as_const', 'std::addressof')
def m_move(I, n, st, fr, ctx):
    a = n['args'][0]
    v = I.ev(a, st, fr, ctx)
    if I.is_gl(a) and not I.is_gl(n) and n['fn']['q'] != 'std::addressof':
        return I.load(st, v, I.T(fr, a['t']))
    return v


@model('std::make_pair')
def m_make_pair(I, n, st, fr, ctx):
    a, b = rvs(I, n['args'], st, fr, ctx)
    return struct('std::pair', [('first', a), ('second', b)])


@model('ctor:std::pair')
def c_pair(I, n, st, fr, ctx):
    a = rvs(I, n['args'], st, fr, ctx)
    if not a:
        return I.default(type_of(I, n, fr), fr, st, ctx)
    if len(a) == 1:
        return a[0]
    if len(a) == 2:
        ts = [I.deref_type(x) for x in I.targs(type_of(I, n, fr))[:2]]
        a = [conv(I, x, t) for x, t in zip(a, ts)]
        return struct('std::pair', [('first', a[0]), ('second', a[1])])
    raise Unsupported('pair constructor')


@model('ctor:std::allocator')
def c_alloc(I, n, st, fr, ctx):
    return mk('void')


def conv(I, v, t):
    """implicit conversion of a char pointer to a string"""
    if t['k'] == 'rec' and t.get('rec') == 'std::basic_string':
        return to_str(v)
    return v


def to_str(v):
    def f(x):
        if x.op in ('str', 'unk') or x.sort == 's':
            return x
        if x.op == 'app' and x.args[0] == 'cstr':
            return x.args[1]
        return mk('app', 'strof', x, sort='s')
    return vlift(f, v)


TM._app_hooks['strof'] = lambda x: to_str(x)


def _is_iter_type(t):
    return t['k'] == 'rec' and ('iterator' in (t.get('rec') or ''))


# ---------------------------------------------------------------- smart pointers
@model('std::__shared_ptr::get', 'std::shared_ptr::get', 'std::__shared_ptr_access::operator->', 'std::unique_ptr::get',
       'std::unique_ptr::operator->', 'std::weak_ptr::lock', 'std::__shared_ptr_access::operator*',
       'std::unique_ptr::operator*', 'std::__shared_ptr::operator->', 'std::__shared_ptr::operator*')
def m_sp_get(I, n, st, fr, ctx):
    a, v, _ = selfval(I, n, st, fr, ctx)
    return v


@model('std::__shared_ptr::operator conv', 'std::shared_ptr::operator conv', 'std::unique_ptr::operator conv')
def m_sp_bool(I, n, st, fr, ctx):
    a, v, _ = selfval(I, n, st, fr, ctx)
    return to_bool(v)


@model('std::__shared_ptr::reset', 'std::shared_ptr::reset', 'std::unique_ptr::reset', 'std::weak_ptr::reset', 'std::__weak_ptr::reset')
def m_sp_reset(I, n, st, fr, ctx):
    a, rest = I.self_args(n, st, fr, ctx)
    v = rvs(I, rest, st, fr, ctx)
    a = I_assume(a, st)
    I.store(st, a, v[0] if v else NULL)
    return mk('void')


@model('std::shared_ptr::operator=', 'std::weak_ptr::operator=', 'std::unique_ptr::operator=', 'std::__shared_ptr::operator=')
def m_sp_asg(I, n, st, fr, ctx):
    a, rest = I.self_args(n, st, fr, ctx)
    v = rvs(I, rest, st, fr, ctx)
    I.store(st, a, v[0])
    return a


@model('ctor:std::shared_ptr', 'ctor:std::weak_ptr', 'ctor:std::unique_ptr')
def c_sp(I, n, st, fr, ctx):
    v = rvs(I, n['args'][:1], st, fr, ctx)
    return v[0] if v else NULL


@model('std::make_shared', 'std::make_unique')
def m_make_shared(I, n, st, fr, ctx):
    T_ = I.targs(type_of(I, n, fr))[0]
    p = I.new_object(fr, n)
    I.allocated[p.args[0]] = I.recname(T_)
    rec = I.P.rec_of(T_)
    if rec is not None:
        c = I.find_ctor(rec['s'], len(n['args']))
        if c is not None:
            args = I.eval_args(n['args'], c, st, fr, ctx)
            I.call_fn(c, p, args, st, ctx, fr, n)
            return p
        if not n['args']:
            I.default_fields(rec, p, fr, st, ctx)
            return p
        if len(n['args']) == 1:
            I.store(st, p, rvs(I, n['args'], st, fr, ctx)[0])
            return p
        raise Unsupported('make_shared of %s' % T_['s'])
    v = rvs(I, n['args'], st, fr, ctx)
    I.store(st, p, v[0] if v else I.default(T_, fr, st, ctx))
    return p


@model('std::dynamic_pointer_cast')
def m_dpc(I, n, st, fr, ctx):
    v, = rvs(I, n['args'], st, fr, ctx)
    T_ = I.targs(type_of(I, n, fr))[0]
    return vlift(lambda p: NULL if p is NULL else mux(isa(I, p, I.recname(T_)), p, NULL), v)


@model('std::static_pointer_cast', 'std::const_pointer_cast')
def m_spc(I, n, st, fr, ctx):
    return rvs(I, n['args'], st, fr, ctx)[0]


def isa(I, p, rec):
    if p.op == 'fresh':
        made = I.allocated.get(p.args[0])
        if made is not None:
            return TRUE if made == rec or rec in I.P.all_bases(made) else FALSE
    if p is NULL:
        return FALSE
    return ite_atom(mk('truth', mk('app', 'isa:' + rec, p, sort='b')))


# ---------------------------------------------------------------- strings
def s_cat(a, b):
    def f(x, y):
        px = x.args[1:] if x.op == 'app' and x.args[0] == 'cat' else (x,)
        py = y.args[1:] if y.op == 'app' and y.args[0] == 'cat' else (y,)
        out = []
        for p in px + py:
            if p.op == 'str' and p.args[0] == '':
                continue
            if out and p.op == 'str' and out[-1].op == 'str':
                out[-1] = mk('str', out[-1].args[0] + p.args[0])
            else:
                out.append(p)
        if not out:
            return mk('str', '')
        if len(out) == 1:
            return out[0]
        return mk('app', 'cat', *out, sort='s')
    return lift('cat', f, to_str(a), to_str(b))


def _cat_hook(*xs):
    r = mk('str', '')
    for x in xs:
        r = s_cat(r, x)
    return r


TM._app_hooks['cat'] = _cat_hook


@model('ctor:std::basic_string')
def c_string(I, n, st, fr, ctx):
    a = [x for x in n['args'] if not (I.deref_type(I.T(fr, x['t'])).get('rec') == 'std::allocator')]
    v = rvs(I, a, st, fr, ctx)
    if not v:
        return mk('str', '')
    if len(v) == 1 and v[0].op in ('str', 'app', 'ite', 'poly', 'unk', 'rd', 'iter', 'fold', 'fresh'):
        return to_str(v[0])
    return mk('app', 'string', *[x if x.op not in STRUCTURED else mk('unk', 0, 'string') for x in v], sort='s')


def _str_charlit(v):
    if v.op == 'poly' and const_val(v) is not None:
        return mk('str', chr(int(const_val(v))))
    return None


@model('std::basic_string::c_str', 'std::basic_string::data')
def m_cstr(I, n, st, fr, ctx):
    a, v, _ = selfval(I, n, st, fr, ctx)
    return v


@model('std::basic_string::clear')
def m_sclear(I, n, st, fr, ctx):
    a, v, _ = selfval(I, n, st, fr, ctx)
    I.store(st, a, mk('str', ''))
    return mk('void')


@model('std::basic_string::empty')
def m_sempty(I, n, st, fr, ctx):
    a, v, _ = selfval(I, n, st, fr, ctx)
    return eq(v, mk('str', ''))


@model('std::basic_string::length', 'std::basic_string::size')
def m_slen(I, n, st, fr, ctx):
    a, v, _ = selfval(I, n, st, fr, ctx)
    return vlift(str_size, v)


def str_size(x):
    return const(len(x.args[0])) if x.op == 'str' else num(mk('app', 'strlen', x, sort='i'))


@model('strlen', 'std::strlen')
def m_strlen(I, n, st, fr, ctx):
    return vlift(str_size, to_str(rvs(I, n['args'], st, fr, ctx)[0]))


@model('std::basic_string::operator=', 'std::basic_string::assign')
def m_sasg(I, n, st, fr, ctx):
    a, rest = I.self_args(n, st, fr, ctx)
    v = rvs(I, rest, st, fr, ctx)
    if len(v) != 1:
        raise Unsupported('string assign')
    I.store(st, a, to_str(v[0]))
    return a


@model('std::basic_string::operator+=', 'std::basic_string::append', 'std::basic_string::push_back')
def m_sapp(I, n, st, fr, ctx):
    a, v, rest = selfval(I, n, st, fr, ctx)
    w = rvs(I, rest, st, fr, ctx)
    if len(w) != 1:
        raise Unsupported('string append')
    x = w[0]
    if x.op == 'poly':
        x = _str_charlit(x) or mk('app', 'chr', x, sort='s')
    I.store(st, a, s_cat(v, x))
    return a


@model('std::basic_string::find_first_of', 'std::basic_string::find', 'std::basic_string::rfind', 'std::basic_string::find_last_of',
       'std::basic_string::find_first_not_of', 'std::basic_string::find_last_not_of')
def m_sfind(I, n, st, fr, ctx):
    a, v, rest = selfval(I, n, st, fr, ctx)
    w = rvs(I, rest, st, fr, ctx)
    name = n['fn']['q'].split('::')[-1]

    def f(s, k, *at):
        r = _find(name, s, k, *at)
        return const(r) if r is not None else num(mk('app', 'str.' + name, s, k, *at, sort='i'))
    return lift(('str.' + name,), f, v, w[0] if w[0].op == 'poly' else to_str(w[0]), *w[1:])


NPOS = 2 ** 64 - 1


def _int(x):
    c = const_val(x) if x.op == 'poly' else None
    return int(c) if c is not None else None


def _find(name, s, k, *at):
    if s.op != 'str':
        return None
    t = s.args[0]
    if k.op == 'poly':
        k = _str_charlit(k)
    if k is None or k.op != 'str':
        return None
    k = k.args[0]
    pos = None
    if at:
        pos = _int(at[0])
        if pos is None or len(at) > 1:
            return None
    if name in ('find', 'find_first_of', 'find_first_not_of'):
        if name == 'find':
            r = t.find(k, pos or 0)
            return r if r >= 0 else NPOS
        for i in range(pos or 0, len(t)):
            if (t[i] in k) == (name == 'find_first_of'):
                return i
        return NPOS
    if name == 'rfind':
        r = t.rfind(k) if pos is None else t.rfind(k, 0, pos + len(k))
        return r if r >= 0 else NPOS
    for i in range(len(t) - 1 if pos is None else min(pos, len(t) - 1), -1, -1):
        if (t[i] in k) == (name == 'find_last_of'):
            return i
    return NPOS


@model('std::basic_string::substr')
def m_substr(I, n, st, fr, ctx):
    a, v, rest = selfval(I, n, st, fr, ctx)
    w = rvs(I, rest, st, fr, ctx)

    def f(x, *ws):
        ks = [_int(y) for y in ws]
        if x.op == 'str' and None not in ks:
            b = ks[0] if ks else 0
            e = len(x.args[0]) if len(ks) < 2 or ks[1] < 0 else min(len(x.args[0]), b + ks[1])
            if 0 <= b <= len(x.args[0]):
                return mk('str', x.args[0][b:e])
        return mk('app', 'substr', x, *ws, sort='s')
    return lift(('substr',), f, v, *w)


def char_at(v, i):
    """character of a text; the one at its length is the terminator"""
    def f(x, k):
        c = _int(k)
        if x.op == 'str' and c is not None and 0 <= c <= len(x.args[0]):
            return const(ord(x.args[0][c]) if c < len(x.args[0]) else 0)
        return num(mk('app', 'charat', x, k, sort='i'))
    return lift(('charat',), f, v, i)


@model('std::basic_string::operator[]', 'std::basic_string::at')
def m_sidx(I, n, st, fr, ctx):
    a, v, rest = selfval(I, n, st, fr, ctx)
    i = rvs(I, rest, st, fr, ctx)[0]
    r = char_at(v, i)
    return I.temp(st, fr, n, r) if I.is_gl(n) else r


def str_order(a, b):
    return mux(eq(a, b), ZERO, mux(ite_atom(mk('truth', mk('app', 'strless', a, b, sort='b'))), const(-1), const(1)))


@model('std::basic_string::compare')
def m_scmp(I, n, st, fr, ctx):
    a, v, rest = selfval(I, n, st, fr, ctx)
    w = rvs(I, rest, st, fr, ctx)
    if len(w) != 1:
        raise Unsupported('compare')
    w = to_str(w[0])
    return str_order(v, w)


@model('strcmp', 'std::strcmp')
def m_strcmp(I, n, st, fr, ctx):
    a, b = rvs(I, n['args'], st, fr, ctx)
    a, b = to_str(a), to_str(b)
    return str_order(a, b)


@model('strncmp', 'std::strncmp')
def m_strncmp(I, n, st, fr, ctx):
    a, b, k = rvs(I, n['args'], st, fr, ctx)
    a, b = to_str(a), to_str(b)

    def f(a, b, k):
        for x, y in ((b, a), (a, b)):
            if k is str_size(x):
                pre = mk('app', 'strprefix', x, y, sort='b')
                if x.op == y.op == 'str':
                    pre = TRUE if y.args[0].startswith(x.args[0]) else FALSE
                else:
                    pre = ite_atom(mk('truth', pre))
                return mux(eq(a, b), ZERO, mux(pre, ZERO, str_order(a, b)))
        raise Unsupported('strncmp with a length that is not that of one of the texts at %s' % I.where(n, fr))
    return lift(('strncmp',), f, a, b, num(k))


@model('std::to_string')
def m_tostring(I, n, st, fr, ctx):
    return ufn('to_string', rvs(I, n['args'], st, fr, ctx)[0], sort='s')


@model('strtol', 'std::strtol', 'atoi', 'std::atoi', 'std::stoi', 'strtod', 'std::strtod', 'std::stod', 'atof', 'std::atof')
def m_strtol(I, n, st, fr, ctx):
    name = n['fn']['q'].split('::')[-1]
    if name == 'strtol' and len(n['args']) == 3:
        s, end, base = [I_assume(x, st) for x in rvs(I, n['args'], st, fr, ctx)]
        s = to_str(s)
        if s.op == 'str' and _int(base) == 10:
            m = re.match(r'[ \t\n\v\f\r]*([+-]?[0-9]+)', s.args[0])
            if end is not NULL:
                I.store(st, end, mk('str', s.args[0][m.end():]) if m else s)
            return const(max(-2 ** 63, min(2 ** 63 - 1, int(m.group(1)))) if m else 0)
        if end is not NULL:
            raise Unsupported('end of an unknown number at %s' % I.where(n, fr))
    return ufn('conv:' + n['fn']['q'].split('::')[-1], to_str(rvs(I, n['args'][:1], st, fr, ctx)[0]),
               sort='r' if n['fn']['q'][-1] in 'df' else 'i')


# comparison / concatenation operators at namespace scope
@model('std::operator==', 'std::operator!=', 'std::__detail::operator==', 'std::__detail::operator!=',
       '__gnu_cxx::operator==', '__gnu_cxx::operator!=')
def m_eqop(I, n, st, fr, ctx):
    a, b = rvs(I, n['args'], st, fr, ctx)
    ts = [type_of(I, x, fr) for x in n['args']]
    if any(t['k'] == 'rec' and t.get('rec') == 'std::basic_string' for t in ts):
        a, b = to_str(a), to_str(b)
    r = I_assume(I.equal(a, b, st), st)
    return b_not(r) if n['fn']['q'].endswith('!=') else r


@model('std::operator<', 'std::operator>', 'std::operator<=', 'std::operator>=', '__gnu_cxx::operator<',
       '__gnu_cxx::operator-', 'std::operator-')
def m_ltop(I, n, st, fr, ctx):
    a, b = rvs(I, n['args'], st, fr, ctx)
    op = n['fn']['q'].split('operator')[-1]
    if a.op == 'it' and b.op == 'it':
        x, y = a.args[1], b.args[1]
        return {'<': lambda: lt(x, y), '>': lambda: lt(y, x), '<=': lambda: le(x, y), '>=': lambda: le(y, x),
                '-': lambda: sub(x, y)}[op]()
    raise Unsupported('operator' + op)


@model('std::operator+', '__gnu_cxx::operator+')
def m_plus(I, n, st, fr, ctx):
    v = rvs(I, n['args'], st, fr, ctx)
    if any(x.op == 'it' for x in v):
        return I.ptr_add(v[0], v[1]) if v[0].op == 'it' else I.ptr_add(v[1], v[0])
    v = [(_str_charlit(x) or mk('app', 'chr', x, sort='s')) if x.op == 'poly' else x for x in v]
    return s_cat(v[0], v[1])


# ---------------------------------------------------------------- streams
# a string stream is its text, the locale and precision in force, and its state;
# what a number looks like in a locale and what a text reads as are unknown functions
STREAMS = ('std::basic_stringstream', 'std::basic_ostringstream', 'std::basic_istringstream')
IOS = STREAMS + ('std::basic_ios', 'std::ios_base', 'std::basic_ostream', 'std::basic_istream', 'std::basic_iostream')


def stream(text):
    return struct('sstream', [('text', text), ('loc', mk('app', 'GLOBAL', sort='p')), ('prec', const(6)), ('fail', FALSE), ('eof', FALSE)])


def is_stream(v):
    return v.op == 'struct' and v.args[0] == 'sstream'


@model(*['ctor:' + c for c in STREAMS])
def c_stream(I, n, st, fr, ctx):
    v = [x for x, a in zip(rvs(I, n['args'], st, fr, ctx), n['args']) if type_of(I, a, fr).get('rec') == 'std::basic_string' or type_of(I, a, fr)['k'] in ('ptr', 'array')]
    return stream(to_str(v[0]) if v else mk('str', ''))


@model('std::locale::classic')
def m_classic(I, n, st, fr, ctx):
    v = mk('app', 'CLASSIC', sort='p')
    return I.temp(st, fr, n, v) if I.is_gl(n) else v


@model('ctor:std::locale')
def c_locale(I, n, st, fr, ctx):
    v = rvs(I, n['args'], st, fr, ctx)
    if not v:
        return mk('app', 'GLOBAL', sort='p')
    if v[0].op == 'str':
        return mk('app', 'CLASSIC', sort='p') if v[0].args[0] in ('C', 'POSIX') else mk('app', 'LOCALE', v[0], sort='p')
    return v[0]


def stream_fn(*names):
    return model(*['%s::%s' % (c, n) for c in IOS for n in names])


def the_stream(I, n, st, fr, ctx):
    a, v, rest = selfval(I, n, st, fr, ctx)
    if not is_stream(v):
        raise Unsupported('stream of unknown kind at %s' % I.where(n, fr))
    return a, dict(v.args[1]), rest


def put_stream(I, st, a, d):
    I.store(st, a, struct('sstream', [(k, d[k]) for k in ('text', 'loc', 'prec', 'fail', 'eof')]))


@stream_fn('imbue')
def m_imbue(I, n, st, fr, ctx):
    a, d, rest = the_stream(I, n, st, fr, ctx)
    d['loc'] = rvs(I, rest, st, fr, ctx)[0]
    put_stream(I, st, a, d)
    return mk('void')


@stream_fn('precision')
def m_prec(I, n, st, fr, ctx):
    a, d, rest = the_stream(I, n, st, fr, ctx)
    old = d['prec']
    if rest:
        d['prec'] = rvs(I, rest, st, fr, ctx)[0]
        put_stream(I, st, a, d)
    return old


@stream_fn('str')
def m_str(I, n, st, fr, ctx):
    a, d, rest = the_stream(I, n, st, fr, ctx)
    if rest:
        d['text'] = to_str(rvs(I, rest, st, fr, ctx)[0])
        put_stream(I, st, a, d)
        return mk('void')
    return d['text']


@stream_fn('fail', 'operator!')
def m_fail(I, n, st, fr, ctx):
    return the_stream(I, n, st, fr, ctx)[1]['fail']


@stream_fn('operator conv')
def m_sbool(I, n, st, fr, ctx):
    return b_not(the_stream(I, n, st, fr, ctx)[1]['fail'])


@stream_fn('eof')
def m_eof(I, n, st, fr, ctx):
    return the_stream(I, n, st, fr, ctx)[1]['eof']


@stream_fn('good')
def m_good(I, n, st, fr, ctx):
    d = the_stream(I, n, st, fr, ctx)[1]
    return b_and(b_not(d['fail']), b_not(d['eof']))


@stream_fn('clear')
def m_clear(I, n, st, fr, ctx):
    a, d, rest = the_stream(I, n, st, fr, ctx)
    d['fail'] = d['eof'] = FALSE
    put_stream(I, st, a, d)
    return mk('void')


@model('std::setprecision')
def m_setprec(I, n, st, fr, ctx):
    return mk('app', 'setprecision', rvs(I, n['args'], st, fr, ctx)[0], sort='p')


def shown(x, v, t, d):
    """text of the value v of type t"""
    if t['k'] == 'bool':
        return vlift(lambda b: mk('app', 'shown', b, sort='s'), mux(v, ONE, ZERO))
    if t['k'] == 'float':
        return lift(('shown', d['loc'], d['prec']), lambda y, p: mk('app', 'shown', y, d['loc'], p, sort='s'), num(v) if v.op != 'ite' else v, d['prec'])
    if t['k'] in ('int', 'uint', 'enum'):
        return vlift(lambda y: mk('app', 'shown', y, d['loc'], sort='s'), v)
    if t['k'] == 'char':
        return vlift(lambda y: _str_charlit(y) or mk('app', 'chr', y, sort='s'), v)
    if t['k'] in ('ptr', 'array') or t.get('rec') == 'std::basic_string':
        return to_str(v)
    return unk('shown ' + t['s'], sort='s')


@model('std::operator<<', 'std::basic_ostream::operator<<')
def m_sink(I, n, st, fr, ctx):
    xs = n['args']
    a = I_assume(I.ev(xs[0], st, fr, ctx), st)
    s = None
    if a.op == 'addr':
        try:
            s = I_assume(I.load(st, a), st)
        except Unsupported:
            s = None
    if s is None or not is_stream(s):
        for x in xs[1:]:
            if type_of(I, x, fr)['k'] in ('fn', 'memptr') or x['k'] == 'FnRef':
                continue
            try:
                I.ev(x, st, fr, ctx)
            except Unsupported:
                continue
        return a
    d = dict(s.args[1])
    x = xs[1]
    t = type_of(I, x, fr)
    if t['k'] in ('fn', 'memptr') or x['k'] == 'FnRef':
        d['text'] = unk('manipulator', sort='s')
    else:
        v = I_assume(I.norm_value(I.rv(x, st, fr, ctx), st), st)
        if v.op == 'app' and v.args[0] == 'setprecision':
            d['prec'] = v.args[1]
        else:
            d['text'] = mux(d['fail'], d['text'], s_cat(d['text'], shown(x, v, t, d)))
    put_stream(I, st, a, d)
    return a


@model('std::operator>>', 'std::basic_istream::operator>>')
def m_source(I, n, st, fr, ctx):
    xs = n['args']
    a = I_assume(I.ev(xs[0], st, fr, ctx), st)
    s = I_assume(I.load(st, a), st) if a.op == 'addr' else None
    if s is None or not is_stream(s):
        raise Unsupported('stream of unknown kind at %s' % I.where(n, fr))
    d = dict(s.args[1])
    t = type_of(I, xs[1], fr)
    if xs[1]['k'] == 'FnRef' or t['k'] == 'fn':
        if xs[1].get('fn', {}).get('n') == 'ws':
            eof = vlift(lambda x: ite_atom(mk('truth', mk('app', 'blank', x, sort='b'))), d['text'])
            d['text'] = vlift(lambda x: mk('app', 'trimmed', x, sort='s'), d['text'])
            d['eof'] = b_or(d['eof'], eof)
            put_stream(I, st, a, d)
            return a
        raise Unsupported('manipulator at %s' % I.where(n, fr))
    if t['k'] not in ('float', 'int', 'uint'):
        raise Unsupported('reading %s at %s' % (t['s'], I.where(n, fr)))
    to = I.ev(xs[1], st, fr, ctx)
    kind = t['s']
    tm = lambda what, sort: lift((what, kind, d['loc'], sort), lambda x: mk('app', what + ' ' + kind, x, d['loc'], sort=sort), d['text'])
    ok = lift((kind, d['loc'], 'reads'), lambda x: ite_atom(mk('truth', mk('app', 'reads ' + kind, x, d['loc'], sort='b'))), d['text'])
    end = lift((kind, d['loc'], 'ends'), lambda x: ite_atom(mk('truth', mk('app', 'ends after ' + kind, x, d['loc'], sort='b'))), d['text'])
    val = tm('read', 'r' if t['k'] == 'float' else 'i')
    old = I.load(st, to, t)
    dead = b_or(d['fail'], d['eof'])
    I.store(st, to, mux(dead, old, vlift(num, val)))
    rest = tm('rest', 's')
    d['fail'] = b_or(d['fail'], mux(dead, TRUE, b_not(ok)))
    d['text'] = mux(dead, d['text'], rest)
    d['eof'] = b_or(d['eof'], b_and(b_not(dead), end))
    put_stream(I, st, a, d)
    return a


# ---------------------------------------------------------------- vectors, arrays, stacks
SEQ = ('std::vector', 'std::array', 'std::deque', 'std::list', 'std::stack', 'std::queue')


def seq(*names):
    return model(*['%s::%s' % (c, n) for c in SEQ for n in names])


def outside(i, n):
    return b_not(b_and(le(ZERO, i), lt(i, n)))


def elem_fault(I, n, a, i, st, fr, ctx):
    """element i of the sequence at a must exist"""
    if not I.faults:
        return
    o = n['args'][0] if n.get('opm') else n['obj']
    t = I.deref_type(I.T(fr, o['t']))
    if n.get('arrow') and not n.get('opm'):
        t = I.pointee(t) or t
    v = I_assume(I.load(st, a, t), st)
    c = vlift(lambda x: outside(i, x.args[0]) if x.op == 'vec' else FALSE, v) if v.op == 'ite' or v.op == 'vec' else FALSE
    I.fault(st, ctx, as_cond(c), 'element %s of %d..%s' % (show(i)[:40], 0, show(vec_n(v))[:40]) if v.op == 'vec' else 'element out of range', n, fr)


def as_cond(c):
    if c.op == 'ite':
        return mux(ite_atom(c.args[0]), as_cond(c.args[1]), as_cond(c.args[2]))
    return c


@seq('operator[]')
def m_vidx(I, n, st, fr, ctx):
    a, rest = I.self_args(n, st, fr, ctx)
    i = rvs(I, rest, st, fr, ctx)[0]
    elem_fault(I, n, a, i, st, fr, ctx)
    e = I.elem_addr(a, i) if i.op != 'ite' else I.elem_addr(a, i)
    t = type_of(I, n, fr)
    if I.is_gl(n) or t.get('rec') == 'std::_Bit_reference':
        return e
    return I.load(st, e, t)


@seq('at')
def m_vat(I, n, st, fr, ctx):
    a, v, rest = selfval(I, n, st, fr, ctx)
    i = rvs(I, rest, st, fr, ctx)[0]
    throw_if(I, st, ctx, b_not(b_and(le(ZERO, i), lt(i, vec_n(v)))), 'std::out_of_range')
    e = I.elem_addr(a, i)
    t = type_of(I, n, fr)
    if I.is_gl(n) or t.get('rec') == 'std::_Bit_reference':
        return e
    return I.load(st, e, t)


@model('std::_Bit_reference::operator=')
def m_bitasg(I, n, st, fr, ctx):
    ref = I.rv(n['args'][0], st, fr, ctx)
    t = type_of(I, n['args'][1], fr)
    v = I.rv(n['args'][1], st, fr, ctx)
    if t.get('rec') == 'std::_Bit_reference':
        v = I.load(st, v)
    else:
        v = to_bool(v) if not I.is_bool(v) else v
    I.store(st, ref, v)
    return I.temp(st, fr, n, ref)


@model('std::_Bit_reference::operator conv')
def m_bitbool(I, n, st, fr, ctx):
    ref = I.rv(n['obj'], st, fr, ctx)
    return I_assume(I.load(st, ref), st)


@seq('size')
def m_vsize(I, n, st, fr, ctx):
    a, v, _ = selfval(I, n, st, fr, ctx)
    return vec_n(v)


@seq('empty')
def m_vempty(I, n, st, fr, ctx):
    a, v, _ = selfval(I, n, st, fr, ctx)
    return I_assume(eqn(vec_n(v), ZERO), st)


@seq('clear')
def m_vclear(I, n, st, fr, ctx):
    a, rest = I.self_args(n, st, fr, ctx)
    I.store(st, a, vec(ZERO, lam_const(('i',), mk('undef'))))
    return mk('void')


@seq('push_back', 'push', 'emplace_back', 'emplace')
def m_vpush(I, n, st, fr, ctx):
    a, v, rest = selfval(I, n, st, fr, ctx)
    o = n['args'][0] if n.get('opm') else n['obj']
    et = I.targs(type_of(I, o, fr))[0]
    et = I.deref_type(et)
    x = rvs(I, rest, st, fr, ctx)
    if 'emplace' in n['fn']['q'] and len(x) != 1:
        if et.get('rec') == 'std::pair' and len(x) == 2:
            x = [struct('std::pair', [('first', x[0]), ('second', x[1])])]
        elif not x:
            x = [I.default(et, fr, st, ctx)]
        else:
            raise Unsupported('emplace_back of %s' % et['s'])
    x = conv(I, x[0], et)
    if et['k'] == 'bool' and not I.is_bool(x):
        x = to_bool(x)
    v = I.load(st, a, type_of(I, o, fr))

    def f(y):
        if y.op != 'vec':
            return unk('push_back on ' + y.op)
        return vec(add(y.args[0], ONE), lam_set(y.args[1], [y.args[0]], x))
    I.store(st, a, vlift(f, v))
    return mk('void') if not I.is_gl(n) else I.elem_addr(a, vec_n(v))


@seq('pop_back', 'pop')
def m_vpop(I, n, st, fr, ctx):
    a, v, _ = selfval(I, n, st, fr, ctx)
    elem_fault(I, n, a, sub(vec_n(v), ONE) if I.faults else ZERO, st, fr, ctx)
    I.store(st, a, vlift(lambda y: vec(sub(y.args[0], ONE), y.args[1]) if y.op == 'vec' else unk('pop'), v))
    return mk('void')


@seq('back', 'top')
def m_vback(I, n, st, fr, ctx):
    a, v, _ = selfval(I, n, st, fr, ctx)
    elem_fault(I, n, a, sub(vec_n(v), ONE) if I.faults else ZERO, st, fr, ctx)
    e = I.elem_addr(a, sub(vec_n(v), ONE))
    return ret_ref(I, n, e, st, fr) if type_of(I, n, fr).get('rec') != 'std::_Bit_reference' else e


@seq('front')
def m_vfront(I, n, st, fr, ctx):
    a, v, _ = selfval(I, n, st, fr, ctx)
    elem_fault(I, n, a, ZERO, st, fr, ctx)
    return ret_ref(I, n, I.elem_addr(a, ZERO), st, fr)


@seq('reserve', 'shrink_to_fit')
def m_vreserve(I, n, st, fr, ctx):
    a, rest = I.self_args(n, st, fr, ctx)
    rvs(I, rest, st, fr, ctx)
    return mk('void')


@seq('data')
def m_vdata(I, n, st, fr, ctx):
    a, _ = I.self_args(n, st, fr, ctx)
    return it(a, ZERO)


@seq('resize')
def m_vresize(I, n, st, fr, ctx):
    a, v, rest = selfval(I, n, st, fr, ctx)
    x = rvs(I, rest, st, fr, ctx)
    o = n['args'][0] if n.get('opm') else n['obj']
    et = I.targs(type_of(I, o, fr))[0]
    d = x[1] if len(x) > 1 else I.default(et, fr, st, ctx)

    def f(y):
        if y.op != 'vec':
            return unk('resize')
        return vec(x[0], lam_map(lambda ks, b: vmux(lt(ks[0], y.args[0]), b, d), ('i',), y.args[1], extra=(y.args[0], d)))
    I.store(st, a, vlift(f, v))
    return mk('void')


@seq('assign', 'fill')
def m_vassign(I, n, st, fr, ctx):
    a, v, rest = selfval(I, n, st, fr, ctx)
    x = rvs(I, rest, st, fr, ctx)
    if n['fn']['q'].endswith('fill'):
        I.store(st, a, vlift(lambda y: vec(y.args[0], lam_const(('i',), x[0])), v))
        return mk('void')
    if len(x) == 2 and x[0].op in ('poly', 'ite') and not x[0].op == 'it':
        I.store(st, a, vec(x[0], lam_const(('i',), x[1])))
        return mk('void')
    if len(x) == 2 and x[0].op == 'it' and x[1].op == 'it':
        I.store(st, a, range_vec(I, x[0], x[1], st))
        return mk('void')
    raise Unsupported('vector::assign')


def range_vec(I, b, e, st):
    src = I.load(st, b.args[0])
    m = vec_m(src)
    off = b.args[1]
    return vec(sub(e.args[1], b.args[1]), lam_map(lambda ks: lam_read(m, [add(ks[0], off)]), ('i',), extra=(m, off)))


@seq('begin', 'cbegin')
def m_vbegin(I, n, st, fr, ctx):
    a, _ = I.self_args(n, st, fr, ctx)
    return it(a, ZERO)


@seq('end', 'cend')
def m_vend(I, n, st, fr, ctx):
    a, v, _ = selfval(I, n, st, fr, ctx)
    return it(a, vec_n(v))


@model('std::vector::insert')
def m_vinsert(I, n, st, fr, ctx):
    a, v, rest = selfval(I, n, st, fr, ctx)
    x = rvs(I, rest, st, fr, ctx)
    if len(x) == 3 and all(y.op == 'it' for y in x) and x[0].args[0] is a and x[0].args[1] is vec_n(v):
        src = range_vec(I, x[1], x[2], st)
        n0, m0, n1, m1 = vec_n(v), vec_m(v), vec_n(src), vec_m(src)
        I.store(st, a, vec(add(n0, n1), lam_map(lambda ks: vmux(lt(ks[0], n0), lam_read(m0, ks), lam_read(m1, [sub(ks[0], n0)])),
                                               ('i',), extra=(m0, m1, n0))))
        return it(a, n0)
    raise Unsupported('vector::insert')


@seq('operator=', 'swap')
def m_vasg(I, n, st, fr, ctx):
    a, rest = I.self_args(n, st, fr, ctx)
    if n['fn']['q'].endswith('swap'):
        b = I.ev(rest[0], st, fr, ctx)
        t = type_of(I, rest[0], fr)
        x, y = I.load(st, a, t), I.load(st, b, t)
        I.store(st, a, y)
        I.store(st, b, x)
        return mk('void')
    v = rvs(I, rest, st, fr, ctx)
    I.store(st, a, v[0])
    return a


@model('ctor:std::vector', 'ctor:std::stack', 'ctor:std::deque', 'ctor:std::array', 'ctor:std::list')
def c_vector(I, n, st, fr, ctx):
    t = type_of(I, n, fr)
    a = [x for x in n['args'] if I.deref_type(I.T(fr, x['t'])).get('rec') != 'std::allocator']
    if not a:
        return I.default(t, fr, st, ctx)
    v = rvs(I, a, st, fr, ctx)
    et = I.targs(t)[0]
    at = [I.deref_type(I.T(fr, x['t'])) for x in a]
    if len(v) == 1:
        if at[0]['k'] in ('int', 'uint'):
            return vec(v[0], lam_const(('i',), I.default(et, fr, st, ctx)))
        if at[0]['k'] == 'rec' and at[0].get('rec') in (t.get('rec'), 'std::initializer_list'):
            x = v[0]
            return x
        if t.get('rec') == 'std::stack':
            return v[0]
    if len(v) == 2 and at[0]['k'] in ('int', 'uint'):
        return vec(v[0], lam_const(('i',), conv(I, v[1], I.deref_type(et))))
    if len(v) == 2 and v[0].op == 'it' and v[1].op == 'it' and v[0].args[0] is v[1].args[0]:
        return range_vec(I, v[0], v[1], st)
    raise Unsupported('vector constructor (%s) at %s' % (', '.join(x['s'] for x in at), I.where(n, fr)))


# ---------------------------------------------------------------- iterators
@model('__gnu_cxx::__normal_iterator::operator*', '__gnu_cxx::__normal_iterator::operator->',
       'std::_Rb_tree_const_iterator::operator->', 'std::_Rb_tree_iterator::operator->',
       'std::_Rb_tree_const_iterator::operator*', 'std::_Rb_tree_iterator::operator*',
       'std::__detail::_Node_const_iterator::operator->', 'std::__detail::_Node_iterator::operator->',
       'std::__detail::_Node_const_iterator::operator*', 'std::__detail::_Node_iterator::operator*',
       'std::_Bit_iterator::operator*', 'std::_Bit_const_iterator::operator*')
def m_itderef(I, n, st, fr, ctx):
    a, v, _ = selfval(I, n, st, fr, ctx)
    it_fault(I, v, n, st, fr, ctx)
    r = I.it_addr(v, st)
    return r if I.is_gl(n) or type_of(I, n, fr)['k'] == 'ptr' else I.load(st, r)


def it_fault(I, p, n, st, fr, ctx):
    """the iterator must point at an element"""
    if not I.faults:
        return

    def f(p):
        if p.op == 'ite':
            return mux(ite_atom(p.args[0]), f(p.args[1]), f(p.args[2]))
        if p.op == 'mend':
            return TRUE
        if p.op == 'mit':
            return FALSE
        if p.op == 'it':
            def g(x):
                return outside(p.args[1], x.args[0]) if x.op in ('vec', 'dict') else FALSE
            return as_cond(vlift(g, I_assume(I.load(st, p.args[0]), st)))
        return FALSE
    I.fault(st, ctx, f(p), 'iterator past the end', n, fr)


@model('__gnu_cxx::__normal_iterator::operator[]')
def m_ititem(I, n, st, fr, ctx):
    a, v, rest = selfval(I, n, st, fr, ctx)
    i = rvs(I, rest, st, fr, ctx)[0]
    it_fault(I, I.ptr_add(v, i), n, st, fr, ctx)
    return I.it_addr(I.ptr_add(v, i), st)


def _itinc(d):
    def f(I, n, st, fr, ctx):
        a, v, rest = selfval(I, n, st, fr, ctx)
        nv = I.ptr_add(v, const(d))
        I.store(st, a, nv)
        return a if I.is_gl(n) else v
    return f


for _c in ('__gnu_cxx::__normal_iterator', 'std::_Rb_tree_const_iterator', 'std::_Rb_tree_iterator',
           'std::__detail::_Node_const_iterator', 'std::__detail::_Node_iterator', 'std::_Bit_iterator', 'std::_Bit_const_iterator'):
    M[_c + '::operator++'] = _itinc(1)
    M[_c + '::operator--'] = _itinc(-1)

    def _cmp(I, n, st, fr, ctx):
        return m_eqop(I, n, st, fr, ctx)
    M[_c + '::operator=='] = M[_c + '::operator!='] = m_eqop

    def c_iter(I, n, st, fr, ctx):
        return rvs(I, n['args'], st, fr, ctx)[0]
    M['ctor:' + _c] = c_iter

    def _itasg(I, n, st, fr, ctx):
        a, rest = I.self_args(n, st, fr, ctx)
        I.store(st, a, rvs(I, rest, st, fr, ctx)[0])
        return a
    M[_c + '::operator='] = _itasg


@model('__gnu_cxx::__normal_iterator::operator+', '__gnu_cxx::__normal_iterator::operator-',
       '__gnu_cxx::__normal_iterator::operator+=', '__gnu_cxx::__normal_iterator::operator-=')
def m_itarith(I, n, st, fr, ctx):
    a, v, rest = selfval(I, n, st, fr, ctx)
    k = rvs(I, rest, st, fr, ctx)[0]
    if '-' in n['fn']['q'].split('operator')[-1]:
        k = neg(k)
    r = I.ptr_add(v, k)
    if n['fn']['q'].endswith('='):
        I.store(st, a, r)
        return a
    return r


@model('std::next', 'std::prev')
def m_next(I, n, st, fr, ctx):
    v = rvs(I, n['args'], st, fr, ctx)
    k = v[1] if len(v) > 1 else ONE
    return I.ptr_add(v[0], k if n['fn']['q'] == 'std::next' else neg(k))


@model('std::advance')
def m_advance(I, n, st, fr, ctx):
    a = I.ev(n['args'][0], st, fr, ctx)
    k = rvs(I, n['args'][1:], st, fr, ctx)[0]
    I.store(st, a, I.ptr_add(I.load(st, a), k))
    return mk('void')


@model('std::distance')
def m_distance(I, n, st, fr, ctx):
    v = rvs(I, n['args'], st, fr, ctx)
    if v[0].op == 'it' and v[1].op == 'it':
        return sub(v[1].args[1], v[0].args[1])
    raise Unsupported('distance')


@model('std::begin', 'std::cbegin', 'std::end', 'std::cend')
def m_begin(I, n, st, fr, ctx):
    a = I.ev(n['args'][0], st, fr, ctx)
    v = I.load(st, a, I.T(fr, n['args'][0]['t']))
    if v.op != 'vec':
        raise Unsupported('std::begin')
    return it(a, ZERO if 'begin' in n['fn']['q'] else vec_n(v))


@model('std::copy')
def m_copy(I, n, st, fr, ctx):
    b, e, d = rvs(I, n['args'], st, fr, ctx)
    if not (b.op == 'it' and e.op == 'it' and d.op == 'it'):
        raise Unsupported('std::copy')
    src = range_vec(I, b, e, st)
    cnt, m = vec_n(src), vec_m(src)
    o = d.args[1]
    dst = I.load(st, d.args[0])

    def f(y):
        if y.op != 'vec':
            return unk('copy')
        return vec(y.args[0], lam_map(lambda ks, old: vmux(b_and(le(o, ks[0]), lt(ks[0], add(o, cnt))),
                                                           lam_read(m, [sub(ks[0], o)]), old),
                                      ('i',), y.args[1], extra=(m, o, cnt)))
    I.store(st, d.args[0], vlift(f, dst))
    return it(d.args[0], add(o, cnt))


@model('std::fill')
def m_fill(I, n, st, fr, ctx):
    b, e, x = rvs(I, n['args'], st, fr, ctx)
    if not (b.op == 'it' and e.op == 'it'):
        raise Unsupported('std::fill')
    dst = I.load(st, b.args[0])
    lo, hi = b.args[1], e.args[1]

    def f(y):
        if y.op != 'vec':
            return unk('fill')
        return vec(y.args[0], lam_map(lambda ks, old: vmux(b_and(le(lo, ks[0]), lt(ks[0], hi)), x, old),
                                      ('i',), y.args[1], extra=(x, lo, hi)))
    I.store(st, b.args[0], vlift(f, dst))
    return mk('void')


# ---------------------------------------------------------------- dictionaries
DICT = ('std::map', 'std::unordered_map', 'std::set', 'std::unordered_set')


def dic(*names):
    return model(*['%s::%s' % (c, n) for c in DICT for n in names])


def d_has(v, k):
    return vlift(lambda x: lam_read(x.args[1], [k]) if x.op == 'dict' else unk('dict', 'b'), v)


def keyof(I, n, node, st, fr, ctx):
    o = n['args'][0] if n.get('opm') else n['obj']
    kt = I.targs(type_of(I, o, fr))[0]
    k = rvs(I, [node], st, fr, ctx)[0]
    k = conv(I, k, I.deref_type(kt))
    if k.op == 'b' or (k.op == 'ite' and I.is_bool(k)):
        k = mux(k, ONE, ZERO)
    return k


@dic('find')
def m_dfind(I, n, st, fr, ctx):
    a, v, rest = selfval(I, n, st, fr, ctx)
    k = keyof(I, n, rest[0], st, fr, ctx)
    return mk('mit', a, k, I_assume(d_has(v, k), st))


@dic('begin', 'cbegin')
def m_dbegin(I, n, st, fr, ctx):
    a, _ = I.self_args(n, st, fr, ctx)
    return it(a, ZERO)


@dic('end', 'cend')
def m_dend(I, n, st, fr, ctx):
    a, _ = I.self_args(n, st, fr, ctx)
    return mk('mend', a)


@dic('count', 'contains')
def m_dcount(I, n, st, fr, ctx):
    a, v, rest = selfval(I, n, st, fr, ctx)
    k = keyof(I, n, rest[0], st, fr, ctx)
    h = I_assume(d_has(v, k), st)
    return h if n['fn']['q'].endswith('contains') else mux(h, ONE, ZERO)


@dic('size')
def m_dsize(I, n, st, fr, ctx):
    a, v, _ = selfval(I, n, st, fr, ctx)
    return part(v, 0, 'dict')


@dic('empty')
def m_dempty(I, n, st, fr, ctx):
    a, v, _ = selfval(I, n, st, fr, ctx)
    return I_assume(eqn(part(v, 0, 'dict'), ZERO), st)


@dic('clear')
def m_dclear(I, n, st, fr, ctx):
    a, v, _ = selfval(I, n, st, fr, ctx)

    def f(x):
        if x.op != 'dict':
            return unk('clear')
        s = x.args[1].args[1]
        return mdict(ZERO, lam_const(s, FALSE), lam_const(s, mk('undef')))
    I.store(st, a, vlift(f, v))
    return mk('void')


def d_insert(x, k, val, overwrite=FALSE):
    def f(d, kk):
        if d.op != 'dict':
            return unk('insert')
        h = lam_read(d.args[1], [kk])
        n2 = add(d.args[0], mux(h, ZERO, ONE))
        return mdict(n2, lam_set(d.args[1], [kk], TRUE), lam_set(d.args[2], [kk], val, b_or(overwrite, b_not(h))))
    return vlift(lambda kk: vlift(lambda d: f(d, kk), x), k)


@dic('insert', 'emplace')
def m_dinsert(I, n, st, fr, ctx):
    a, v, rest = selfval(I, n, st, fr, ctx)
    o = n['obj']
    ta = I.targs(type_of(I, o, fr))
    x = rvs(I, rest, st, fr, ctx)
    v = I.load(st, a, type_of(I, o, fr))
    isset = type_of(I, o, fr).get('rec') in ('std::set', 'std::unordered_set')
    if isset:
        k, val = conv(I, x[0], I.deref_type(ta[0])), TRUE
    elif len(x) == 1:
        k, val = get_field(x[0], 'first'), get_field(x[0], 'second')
    elif len(x) == 2:
        k, val = x
    else:
        raise Unsupported('map insert')
    if not isset:
        k, val = conv(I, k, I.deref_type(ta[0])), conv(I, val, I.deref_type(ta[1]))
    h = d_has(v, k)
    I.store(st, a, d_insert(v, k, val))
    return struct('std::pair', [('first', mk('mit', a, k, TRUE)), ('second', b_not(h))])


@dic('erase')
def m_derase(I, n, st, fr, ctx):
    a, v, rest = selfval(I, n, st, fr, ctx)
    x = rvs(I, rest, st, fr, ctx)
    k = x[0].args[1] if x[0].op == 'mit' else (conv(I, x[0], I.deref_type(I.targs(type_of(I, n['obj'], fr))[0])))
    if len(x) != 1 or k.op in ('it', 'mend'):
        raise Unsupported('erase')

    def f(d):
        if d.op != 'dict':
            return unk('erase')
        h = lam_read(d.args[1], [k])
        return mdict(sub(d.args[0], mux(h, ONE, ZERO)), lam_set(d.args[1], [k], FALSE), d.args[2])
    I.store(st, a, vlift(f, v))
    return mux(d_has(v, k), ONE, ZERO)


@dic('operator[]')
def m_didx(I, n, st, fr, ctx):
    a, rest = I.self_args(n, st, fr, ctx)
    o = n['args'][0]
    t = type_of(I, o, fr)
    k = keyof(I, n, rest[0], st, fr, ctx)
    v = I_assume(I.load(st, a, t), st)
    h = I_assume(d_has(v, k), st)
    if h is not TRUE:
        d = I.default(I.targs(t)[1], fr, st, ctx)
        I.store(st, a, d_insert(v, k, d))
    return I.kv_addr(a, k)


@dic('at')
def m_dat(I, n, st, fr, ctx):
    a, v, rest = selfval(I, n, st, fr, ctx)
    k = keyof(I, n, rest[0], st, fr, ctx)
    throw_if(I, st, ctx, b_not(I_assume(d_has(v, k), st)), 'std::out_of_range')
    return I.kv_addr(a, k)


@dic('operator=')
def m_dasg(I, n, st, fr, ctx):
    return m_vasg(I, n, st, fr, ctx)


@dic('reserve')
def m_dreserve(I, n, st, fr, ctx):
    return m_vreserve(I, n, st, fr, ctx)


@model('ctor:std::map', 'ctor:std::unordered_map', 'ctor:std::set', 'ctor:std::unordered_set')
def c_map(I, n, st, fr, ctx):
    t = type_of(I, n, fr)
    a = n['args']
    if not a:
        return I.default(t, fr, st, ctx)
    v = rvs(I, a[:1], st, fr, ctx)
    if v[0].op == 'dict' or v[0].op == 'ite':
        return v[0]
    if v[0].op == 'vec':
        c = const_val(v[0].args[0])
        d = I.default(t, fr, st, ctx)
        if c is not None and c <= 32:
            kt = [I.deref_type(x) for x in I.targs(t)[:2]]
            for i in range(int(c)):
                e = lam_read(v[0].args[1], [const(i)])
                if t.get('rec') in ('std::set', 'std::unordered_set'):
                    d = d_insert(d, conv(I, e, kt[0]), TRUE)
                else:
                    d = d_insert(d, conv(I, get_field(e, 'first'), kt[0]), conv(I, get_field(e, 'second'), kt[1]))
            return d
    raise Unsupported('map constructor')


# ---------------------------------------------------------------- Eigen
def as_mat(I, v, st):
    if v.op == 'blk':
        a, i0, j0, r, c = v.args
        m = I.load(st, a) if a.op != 'mat' else a

        def f(x):
            if x.op != 'mat':
                return unk('block of ' + x.op)
            return mat(r, c, lam_map(lambda ks: lam_read(x.args[2], [add(ks[0], i0), add(ks[1], j0)]), ('i', 'i'),
                                     extra=(x.args[2], i0, j0)))
        return vlift(f, m)
    return v


def mget(m, i, j):
    def f(x):
        if x.op != 'mat':
            return unk('matrix element of ' + x.op)
        return lam_read(x.args[2], [i, j])
    return vlift(f, m)


def mmap(f, *ms):
    """pointwise; dims of the first"""
    m0 = ms[0]
    if any(m.op != 'mat' for m in ms):
        for i, m in enumerate(ms):
            if m.op == 'ite':
                c, a, b = m.args
                return vmux(ite_atom(c), mmap(f, *(ms[:i] + (a,) + ms[i + 1:])), mmap(f, *(ms[:i] + (b,) + ms[i + 1:])))
        raise Unsupported('matrix operation on %s' % '/'.join(m.op for m in ms))
    return mat(m0.args[0], m0.args[1], lam_map(lambda ks, *xs: f(*xs), ('i', 'i'), *[m.args[2] for m in ms]))


def m_reduce(m, f):
    """sum over all elements of f(element)"""
    if m.op == 'ite':
        c, a, b = m.args
        return vmux(ite_atom(c), m_reduce(a, f), m_reduce(b, f))
    if m.op != 'mat':
        raise Unsupported('reduction of ' + m.op)
    r, c = const_val(m.args[0]), const_val(m.args[1])
    tot = ZERO
    if r is not None and c is not None and r * c <= 64:
        for i in range(int(r)):
            for j in range(int(c)):
                tot = add(tot, f(mget(m, const(i), const(j))))
        return tot
    if c is not None and c <= 16:
        for j in range(int(c)):
            v = new_lv(m.args[0])
            tot = add(tot, lsum(v, m.args[0], f(mget(m, num(v), const(j)))))
        return tot
    if r is not None and r <= 16:
        for j in range(int(r)):
            v = new_lv(m.args[1])
            tot = add(tot, lsum(v, m.args[1], f(mget(m, const(j), num(v)))))
        return tot
    raise Unsupported('reduction')


def mmul(a, b):
    for i, m in enumerate((a, b)):
        if m.op == 'ite':
            c, x, y = m.args
            if i == 0:
                return vmux(ite_atom(c), mmul(x, b), mmul(y, b))
            return vmux(ite_atom(c), mmul(a, x), mmul(a, y))
    if a.op != 'mat' or b.op != 'mat':
        raise Unsupported('matrix product')
    k = const_val(a.args[1])
    k = const_val(b.args[0]) if k is None else k

    def el(ks):
        if k is not None and k <= 16:
            t = ZERO
            for q in range(int(k)):
                t = add(t, mul(mget(a, ks[0], const(q)), mget(b, const(q), ks[1])))
            return t
        v = new_lv(a.args[1])
        return lsum(v, a.args[1], mul(mget(a, ks[0], num(v)), mget(b, num(v), ks[1])))
    return mat(a.args[0], b.args[1], lam_map(el, ('i', 'i'), extra=(a, b)))


def mtrans(m):
    def f(x):
        if x.op != 'mat':
            return unk('transpose')
        return mat(x.args[1], x.args[0], lam_map(lambda ks: lam_read(x.args[2], [ks[1], ks[0]]), ('i', 'i'), extra=(x.args[2],)))
    return vlift(f, m)


def etype_dims(I, t):
    """static dims of an Eigen type, following expression wrappers"""
    t = I.deref_type(t)
    if t.get('rec') == 'Eigen::Matrix':
        return I.eigen_dims(t)
    for a in I.targs(t):
        if isinstance(a, dict) and (a.get('rec') or '').startswith('Eigen::Matrix'):
            return I.eigen_dims(a)
    raise Unsupported('dims of ' + t['s'])


def is_eigen(t):
    return t['k'] == 'rec' and (t.get('rec') or '').startswith('Eigen::')


def eval_e(I, node, st, fr, ctx):
    return I.norm_value(I.rv(node, st, fr, ctx), st)


def const_mat(I, n, fr, dims, val):
    return mat(dims[0], dims[1], lam_const(('i', 'i'), val))


def dims_from(I, n, st, fr, ctx, nargs):
    d = etype_dims(I, I.T(fr, n['t']))
    a = rvs(I, n['args'][:nargs], st, fr, ctx)
    if nargs == 0:
        return const(d[0]), const(d[1])
    if nargs == 1:
        return (a[0], const(d[1])) if d[0] < 0 else (const(d[0]), a[0])
    return a[0], a[1]


def ident_body(ks):
    return mux(eqn(ks[0], ks[1]), ONE, ZERO)


@model('Eigen::*')
def m_eigen(I, n, st, fr, ctx):
    q = n['fn']['q']
    name = q.split('::')[-1]
    na = len(n['args'])
    if name in ('Zero', 'Ones'):
        d = dims_from(I, n, st, fr, ctx, na)
        return const_mat(I, n, fr, d, ZERO if name == 'Zero' else ONE)
    if name == 'Constant':
        d = dims_from(I, n, st, fr, ctx, na - 1)
        return const_mat(I, n, fr, d, rvs(I, n['args'][-1:], st, fr, ctx)[0])
    if name == 'Identity':
        d = dims_from(I, n, st, fr, ctx, na)
        K = fresh_keys(('i', 'i'))
        return mat(d[0], d[1], lam(K, ident_body([kval(k) for k in K])))
    if name in ('UnitX', 'UnitY', 'UnitZ'):
        d = etype_dims(I, I.T(fr, n['t']))
        k = 'XYZ'.index(name[-1])
        K = fresh_keys(('i', 'i'))
        return mat(const(d[0]), ONE, lam(K, mux(eqn(kval(K[0]), const(k)), ONE, ZERO)))
    if name in ('operator()', 'coeff', 'coeffRef', 'operator[]', 'x', 'y', 'z', 'w'):
        a, rest = I.self_args(n, st, fr, ctx)
        o = n['args'][0] if n.get('opm') else n['obj']
        i = rvs(I, rest, st, fr, ctx)
        if name in 'xyzw':
            i = [const('xyzw'.index(name))]
        v = I.rv(o, st, fr, ctx) if not I.is_gl(o) else I.load(st, a, type_of(I, o, fr))
        v = I_assume(v, st)
        if v.op == 'blk':
            b = v
            ks = I.mat_keys(mk('mat', b.args[3], b.args[4], mk('void')), i)
            e = I.elem_addr(b.args[0], add(b.args[1], ks[0]), add(b.args[2], ks[1]))
            return e if I.is_gl(n) else I.load(st, e)
        m = v
        while m.op == 'ite':
            m = m.args[1]
        if m.op != 'mat':
            raise Unsupported('element of ' + m.op)
        ks = I.mat_keys(m, i)
        if I.faults:
            I.fault(st, ctx, as_cond(vlift(lambda x: b_or(outside(ks[0], x.args[0]), outside(ks[1], x.args[1])) if x.op == 'mat' else FALSE, v)),
                    'matrix element (%s, %s)' % (show(ks[0])[:30], show(ks[1])[:30]), n, fr)
        if I.is_gl(n):
            return I.elem_addr(a, *ks)
        return mget(v, ks[0], ks[1])
    if name in ('rows', 'cols', 'size'):
        a, v, _ = selfmat(I, n, st, fr, ctx)
        r, c = part(v, 0, 'mat'), part(v, 1, 'mat')
        return r if name == 'rows' else c if name == 'cols' else mul(r, c)
    if name in ('transpose', 'adjoint'):
        a, v, _ = selfmat(I, n, st, fr, ctx)
        return mtrans(v)
    if name in ('eval', 'noalias', 'matrix', 'array', 'derived'):
        a, v, _ = selfmat(I, n, st, fr, ctx, raw=True)
        if name == 'noalias' or I.is_gl(n):
            return mk('blkref', a) if name == 'noalias' and not I.is_gl(n) else a
        return I.norm_value(v, st)
    if name in ('norm', 'squaredNorm'):
        a, v, _ = selfmat(I, n, st, fr, ctx)
        s = m_reduce(v, lambda x: mul(x, x))
        return s if name == 'squaredNorm' else real_fn('sqrt', s)
    if name == 'sum':
        a, v, _ = selfmat(I, n, st, fr, ctx)
        return m_reduce(v, lambda x: x)
    if name == 'trace':
        a, v, _ = selfmat(I, n, st, fr, ctx)
        k = const_val(part(v, 0, 'mat'))
        if k is None:
            raise Unsupported('trace')
        t = ZERO
        for i in range(int(k)):
            t = add(t, mget(v, const(i), const(i)))
        return t
    if name == 'dot':
        a, v, rest = selfmat(I, n, st, fr, ctx)
        w = eval_e(I, rest[0], st, fr, ctx)
        return m_reduce(mmap(mul, v, w if same_dims(v, w) else mtrans(w)), lambda x: x)
    if name == 'cross':
        a, v, rest = selfmat(I, n, st, fr, ctx)
        w = eval_e(I, rest[0], st, fr, ctx)
        x = [mget(v, const(i), ZERO) for i in range(3)]
        y = [mget(w, const(i), ZERO) for i in range(3)]
        z = [sub(mul(x[1], y[2]), mul(x[2], y[1])), sub(mul(x[2], y[0]), mul(x[0], y[2])), sub(mul(x[0], y[1]), mul(x[1], y[0]))]
        return vec_mat(z)
    if name in ('setZero', 'setOnes', 'setIdentity', 'setConstant', 'fill'):
        a, v, rest = selfmat(I, n, st, fr, ctx, raw=True)
        x = rvs(I, rest, st, fr, ctx)
        src = {'setZero': ZERO, 'setOnes': ONE}.get(name, x[-1] if x else ZERO)
        vv = I.norm_value(v, st)
        r, c = part(vv, 0, 'mat'), part(vv, 1, 'mat')
        sizes = x if name in ('setZero', 'setOnes', 'setIdentity') else x[:-1]
        if len(sizes) == 2:
            r, c = sizes
        elif len(sizes) == 1:
            r = sizes[0]
        if name == 'setIdentity':
            K = fresh_keys(('i', 'i'))
            m = mat(r, c, lam(K, ident_body([kval(k) for k in K])))
        else:
            m = mat(r, c, lam_const(('i', 'i'), src))
        asg_mat(I, st, a, v, m)
        return a if I.is_gl(n) else v
    if name in ('resize', 'conservativeResize'):
        a, v, rest = selfmat(I, n, st, fr, ctx)
        x = rvs(I, rest, st, fr, ctx)
        if name == 'resize':
            I.store(st, a, mat(x[0], x[1] if len(x) > 1 else part(v, 1, 'mat'), lam_const(('i', 'i'), mk('undef'))))
            return mk('void')
        raise Unsupported('conservativeResize')
    if name in ('block', 'col', 'row', 'head', 'tail', 'segment', 'topRows', 'bottomRows', 'leftCols', 'rightCols', 'middleRows',
                'middleCols', 'topLeftCorner', 'bottomRightCorner', 'topRightCorner', 'bottomLeftCorner'):
        return eigen_block(I, n, name, st, fr, ctx)
    if name == 'asDiagonal':
        a, v, _ = selfmat(I, n, st, fr, ctx)
        r = part(v, 0, 'mat')
        K = fresh_keys(('i', 'i'), v)
        return mat(r, r, lam(K, mux(eqn(kval(K[0]), kval(K[1])), mget(v, kval(K[0]), ZERO), ZERO)))
    if name == 'operator<<':
        a, v, rest = selfmat(I, n, st, fr, ctx, raw=True)
        return comma(I, n, a, v, ZERO, ZERO, ONE, rest[0], st, fr, ctx)
    if name == 'operator,':
        a, rest = I.self_args(n, st, fr, ctx)
        c = I.rv(n['args'][0], st, fr, ctx) if not I.is_gl(n['args'][0]) else I.load(st, a)
        if c.op != 'comma':
            raise Unsupported('comma initialiser')
        r = comma(I, n, c.args[0], c.args[1], c.args[2], c.args[3], c.args[4], rest[0], st, fr, ctx)
        if I.is_gl(n):
            return I.temp(st, fr, n, r)
        return r
    if name == 'finished':
        return mk('void')
    if name in ('operator+', 'operator-', 'operator*', 'operator/'):
        ts = [type_of(I, x, fr) for x in n['args']]
        v = [eval_e(I, x, st, fr, ctx) for x in n['args']]
        if len(v) == 1:
            return mmap(neg, v[0])
        return eig_bin(I, name[-1], v[0], v[1], ts, (n, st, fr, ctx))
    if name in ('operator+=', 'operator-=', 'operator*=', 'operator/='):
        a, old, rest = selfmat(I, n, st, fr, ctx, raw=True)
        w = eval_e(I, rest[0], st, fr, ctx)
        o = n['args'][0]
        cur = I.norm_value(old, st)
        r = eig_bin(I, name[-2], cur, w, [type_of(I, o, fr), type_of(I, rest[0], fr)], (n, st, fr, ctx))
        asg_mat(I, st, a, old, r)
        return a if I.is_gl(n) else old
    if name in ('operator=', 'lazyAssign'):
        a, old, rest = selfmat(I, n, st, fr, ctx, raw=True)
        w = eval_e(I, rest[0], st, fr, ctx)
        if I.faults and old.op == 'blk' and w.op == 'mat':
            r, c = old.args[3], old.args[4]
            bad = b_or(b_not(eqn(r, w.args[0])), b_not(eqn(c, w.args[1])))
            if r is ONE or c is ONE:
                bad = b_and(bad, b_or(b_not(eqn(r, w.args[1])), b_not(eqn(c, w.args[0]))))
            I.fault(st, ctx, bad, 'assigned block has another size', n, fr)
        asg_mat(I, st, a, old, w)
        return a if I.is_gl(n) else old
    if name == 'operator conv':
        a, v, _ = selfmat(I, n, st, fr, ctx)
        return v
    if name in ('normalized',):
        a, v, _ = selfmat(I, n, st, fr, ctx)
        nn = real_fn('sqrt', m_reduce(v, lambda x: mul(x, x)))
        return mmap(lambda x: div(x, nn), v)
    if name in ('cwiseProduct', 'cwiseQuotient'):
        a, v, rest = selfmat(I, n, st, fr, ctx)
        w = eval_e(I, rest[0], st, fr, ctx)
        return mmap(mul if name == 'cwiseProduct' else div, v, w)
    return None


def same_dims(a, b):
    return part(a, 0, 'mat') is part(b, 0, 'mat') and part(a, 1, 'mat') is part(b, 1, 'mat')


def vec_mat(xs):
    K = fresh_keys(('i', 'i'), *xs)
    body = xs[-1]
    for i in reversed(range(len(xs) - 1)):
        body = mux(eqn(kval(K[0]), const(i)), xs[i], body)
    return mat(const(len(xs)), ONE, lam(K, body))


def eig_bin(I, op, x, y, ts, at):
    ex, ey = is_eigen(ts[0]), is_eigen(ts[1])
    if I.faults and ex and ey and x.op == 'mat' and y.op == 'mat':
        c = b_not(eqn(x.args[1], y.args[0])) if op == '*' else b_or(b_not(eqn(x.args[0], y.args[0])), b_not(eqn(x.args[1], y.args[1])))
        I.fault(at[1], at[3], c, 'matrix sizes differ (%s)' % op, at[0], at[2])
    if op in '+-':
        return mmap(add if op == '+' else sub, x, y)
    if op == '*':
        if ex and ey:
            return mmul(x, y)
        if ex:
            return mmap(lambda a: mul(a, y), x)
        return mmap(lambda a: mul(x, a), y)
    return mmap(lambda a: div(a, y), x)


def selfmat(I, n, st, fr, ctx, raw=False):
    o = n['args'][0] if n.get('opm') else n['obj']
    rest = n['args'][1:] if n.get('opm') else n['args']
    if I.is_gl(o) or n.get('arrow'):
        a = I.obj_addr(o, n.get('arrow') and not n.get('opm'), st, fr, ctx)
        t = type_of(I, o, fr)
        if n.get('arrow') and not n.get('opm'):
            t = I.pointee(t) or t
        v = I_assume(I.load(st, a, t), st)
    else:
        v = I.rv(o, st, fr, ctx)
        a = None
        if v.op == 'blkref':
            a = v.args[0]
            v = I.load(st, a)
    if not raw:
        v = I.norm_value(v, st)
    return a, v, rest


def asg_mat(I, st, a, old, new):
    """assign matrix value `new` to the object (address a or block view `old`)"""
    if old.op == 'blk':
        b = old
        base, i0, j0, r, c = b.args
        tgt = I.load(st, base)

        def f(x):
            if x.op != 'mat':
                return unk('block store')

            def g(y):
                if y.op != 'mat':
                    return unk('block store')
                # a vector may be assigned to a row or a column
                nr, nc = y.args[0], y.args[1]
                tr = (r is ONE and c is not ONE and nc is ONE and nr is not ONE) or (c is ONE and r is not ONE and nr is ONE and nc is not ONE)

                def el(ks, o):
                    di, dj = sub(ks[0], i0), sub(ks[1], j0)
                    inr = b_and(b_and(le(ZERO, di), lt(di, r)), b_and(le(ZERO, dj), lt(dj, c)))
                    # single rows/columns have a determined index
                    if r is ONE:
                        inr = b_and(eqn(ks[0], i0), b_and(le(ZERO, dj), lt(dj, c)))
                        di = ZERO
                    if c is ONE:
                        inr = b_and(b_and(le(ZERO, di), lt(di, r)), eqn(ks[1], j0)) if r is not ONE else b_and(eqn(ks[0], i0), eqn(ks[1], j0))
                        dj = ZERO
                    return vmux(inr, lam_read(y.args[2], [dj, di] if tr else [di, dj]), o)
                return mat(x.args[0], x.args[1], lam_map(el, ('i', 'i'), x.args[2], extra=(y.args[2], i0, j0, r, c)))
            return vlift(g, new)
        I.store(st, base, vlift(f, tgt))
        return
    if a is None:
        raise Unsupported('assignment to a temporary')
    I.store(st, a, new)


def eigen_block(I, n, name, st, fr, ctx):
    o = n['obj']
    t = type_of(I, o, fr)
    if n.get('arrow'):
        t = I.pointee(t) or t
    a, v, rest = selfmat(I, n, st, fr, ctx, raw=True)
    x = rvs(I, rest, st, fr, ctx)
    bt = type_of(I, n, fr)
    ta = I.targs(bt) if bt.get('args') else []
    br = bc = None
    if bt.get('rec') in ('Eigen::Block', 'Eigen::VectorBlock'):
        ints = [q for q in ta if isinstance(q, int)]
        if bt.get('rec') == 'Eigen::Block' and len(ints) >= 2:
            br, bc = ints[0], ints[1]
    cur = I.norm_value(v, st)
    R, C = part(cur, 0, 'mat'), part(cur, 1, 'mat')
    if a is None and v.op != 'blk':
        base, i00, j00 = v, ZERO, ZERO
    elif v.op == 'blk':
        base, i00, j00 = v.args[0], v.args[1], v.args[2]
    else:
        base, i00, j00 = a, ZERO, ZERO
    if name == 'block':
        if len(x) == 4:
            i, j, r, c = x
        else:
            i, j = x[:2]
            r, c = const(br), const(bc)
    elif name == 'col':
        i, j, r, c = ZERO, x[0], R, ONE
    elif name == 'row':
        i, j, r, c = x[0], ZERO, ONE, C
    elif name in ('head', 'tail', 'segment'):
        iscol = C is ONE
        if name == 'segment':
            s = x[0]
            k = x[1] if len(x) > 1 else const([q for q in ta if isinstance(q, int)][-1])
        else:
            k = x[0] if x else const([q for q in ta if isinstance(q, int)][-1])
            L = R if iscol else C
            s = ZERO if name == 'head' else sub(L, k)
        i, j, r, c = (s, ZERO, k, ONE) if iscol else (ZERO, s, ONE, k)
    else:
        k = x[0] if x else None
        if name in ('topRows', 'bottomRows'):
            k = k if k is not None else const(br)
            i, j, r, c = (ZERO if name == 'topRows' else sub(R, k)), ZERO, k, C
        elif name in ('leftCols', 'rightCols'):
            k = k if k is not None else const(bc)
            i, j, r, c = ZERO, (ZERO if name == 'leftCols' else sub(C, k)), R, k
        elif name == 'middleRows':
            i, j, r, c = x[0], ZERO, x[1] if len(x) > 1 else const(br), C
        elif name == 'middleCols':
            i, j, r, c = ZERO, x[0], R, x[1] if len(x) > 1 else const(bc)
        else:
            r, c = x if len(x) == 2 else (const(br), const(bc))
            i = ZERO if 'top' in name else sub(R, r)
            j = ZERO if 'Left' in name else sub(C, c)
    if I.faults:
        out = b_or(b_or(lt(i, ZERO), lt(R, add(i, r))), b_or(lt(j, ZERO), lt(C, add(j, c))))
        I.fault(st, ctx, out, 'block outside the matrix', n, fr)
    return mk('blk', base, add(i00, i), add(j00, j), r, c)


def comma(I, n, a, old, row, col, bh, arg, st, fr, ctx):
    """one step of  m << a, b, c  (row, col, height of the current block row)"""
    t = type_of(I, arg, fr)
    x = eval_e(I, arg, st, fr, ctx)
    cur = I.norm_value(old, st) if old.op == 'blk' else I.load(st, a)
    C = part(cur, 1, 'mat')
    cc = const_val(C)
    if is_eigen(t):
        w, h = part(x, 1, 'mat'), part(x, 0, 'mat')
    else:
        w = h = ONE
        x = mat(ONE, ONE, lam_const(('i', 'i'), x))
    if cc is not None:
        if const_val(col) is None:
            raise Unsupported('comma initialiser position')
        if const_val(col) >= cc:
            row, col, bh = add(row, bh), ZERO, h
        elif col is ZERO:
            bh = h
    base = a
    if old.op == 'blk':
        tgt = mk('blk', old.args[0], add(old.args[1], row), add(old.args[2], col), h, w)
    else:
        tgt = mk('blk', base, row, col, h, w)
    asg_mat(I, st, None, tgt, x)
    return mk('comma', a if a is not None else NULL, old, row, add(col, w), bh)


@model('ctor:Eigen::Matrix')
def c_matrix(I, n, st, fr, ctx):
    t = type_of(I, n, fr)
    d = I.eigen_dims(t)
    a = n['args']
    if not a:
        return I.default(t, fr, st, ctx)
    ts = [I.deref_type(I.T(fr, x['t'])) for x in a]
    if len(a) == 1:
        if is_eigen(ts[0]):
            v = eval_e(I, a[0], st, fr, ctx)
            return v
        v = rvs(I, a, st, fr, ctx)[0]
        if ts[0]['k'] in ('int', 'uint'):
            if d[0] < 0:
                return mat(v, const(d[1]), lam_const(('i', 'i'), mk('undef')))
            if d[1] < 0:
                return mat(const(d[0]), v, lam_const(('i', 'i'), mk('undef')))
            return mat(const(d[0]), const(d[1]), lam_const(('i', 'i'), mk('undef')))
        raise Unsupported('matrix constructor')
    v = rvs(I, a, st, fr, ctx)
    if len(v) == 2 and (d[0] < 0 or d[1] < 0):
        return mat(v[0], v[1], lam_const(('i', 'i'), mk('undef')))
    if d[1] == 1 and d[0] == len(v):
        return vec_mat(v)
    if d[0] == 1 and d[1] == len(v):
        return mtrans(vec_mat(v))
    raise Unsupported('matrix constructor')
