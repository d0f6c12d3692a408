"""The parsed document as seen through the TinyXML interface.

An element is a pointer; what the interface answers about it is an unknown function of the element
and the name asked for: attributes and children may be present or absent, all values are symbolic.
Facts about particular elements (how many children of a name there are, literal attribute values)
come from described documents."""
from .terms import *
from . import terms as TM
from .values import *
from .models import to_str, throw_if, vlift, rvs, I_assume
from .interp import _heap_init


class Node:
    def __init__(self, tag, attrs=None, kids=(), open=False, absent=()):
        self.tag, self.attrs, self.kids, self.open, self.absent = tag, dict(attrs or {}), list(kids), open, set(absent)


KIDS = mk('app', 'kids', sort='p')


def lit(v):
    if v.op == 'str':
        return v.args[0]
    if v.op == 'app' and v.args[0] == 'strof' and v.args[1].op == 'str':
        return v.args[1].args[0]
    return None


class Xml:
    def __init__(self, counts=None, robot=None, wellformed=False):
        self.wellformed = wellformed
        self.counts = counts or {}
        self.robot = robot
        self.ids = {}
        self.par = {}
        self.up = {}
        self.rev = {}
        if robot not in (None, 'none'):
            self.number(robot, 'robot', None, 0)

    def number(self, nd, path, par, k):
        p = mk('fresh', 'xml:' + path, sort='p')
        self.ids[p] = nd
        self.rev[id(nd)] = p
        self.par[p] = (par, k)
        for i, c in enumerate(nd.kids):
            self.number(c, '%s/%s%d' % (path, c.tag, i), nd, i)

    def ptr(self, nd):
        return self.rev[id(nd)]

    # ---- elements put together by the code
    def made(self, st, p):
        return ('xtag', p) in st.env

    def kids(self, st, p):
        return st.env.get(('xkids', p), KIDS)

    def pick(self, st, name, kids, after=None):
        """the first of these elements with this tag, or the first one after another"""
        def f(ks):
            if ks.op != 'app' or ks.args[0] != 'kids':
                return unk('children')
            xs = ks.args[1:]
            if after is not None:
                if after not in xs:
                    return NULL
                xs = xs[xs.index(after) + 1:]
            r = NULL
            for k in reversed(xs):
                r = k if name is None else mux(eq(st.env[('xtag', k)], mk('str', name)), k, r)
            return r
        return vlift(f, kids)

    # ---- the interface
    def attribute(self, e, name, st):
        def f(p):
            if self.made(st, p):
                v = st.env.get(('xattr', p, name), NULL)
                return vlift(lambda x: x if x is NULL or x.op in ('str', 'unk') else mk('app', 'cstr', x, sort='p'), v)
            nd = self.ids.get(p)
            if nd is not None:
                if name in nd.attrs:
                    v = nd.attrs[name]
                    if v is None:
                        return NULL
                    if v == '+':
                        return mk('fresh', 'text:good:%s@%s' % (p.args[0], name), sort='p')
                    if v == '?':
                        return mk('fresh', 'text:%s@%s' % (p.args[0], name), sort='p')
                    if isinstance(v, T):
                        return v
                    return mk('str', v)
                if not nd.open or name in nd.absent:
                    return NULL
            if p.op == 'null' or p is NULL:
                return unk('attribute of null')
            if p.op == 'unk':
                return p
            return mk('app', 'ATTR', p, mk('str', name), sort='p')
        return vlift(f, e)

    def child(self, e, name, st):
        def f(p):
            if self.made(st, p):
                return self.pick(st, name, self.kids(st, p))
            nd = self.ids.get(p)
            if nd is not None:
                for c in nd.kids:
                    if name is None or c.tag == name:
                        return self.ptr(c)
                if not nd.open or name in nd.absent:
                    return NULL
            if p.op == 'unk':
                return p
            if name is None:
                return mk('app', 'FIRST', p, sort='p')
            if name in self.counts:
                return NULL if self.counts[name] == 0 else mk('fresh', 'xml:%s0' % name, sort='p')
            return mk('app', 'CHILD', p, mk('str', name), sort='p')
        return vlift(f, e)

    def next(self, e, name, st):
        def f(p):
            if self.made(st, p):
                return self.pick(st, name, self.kids(st, self.up[p]), p) if p in self.up else NULL
            if p in self.ids:
                par, k = self.par[p]
                if par is None:
                    return NULL
                for c in par.kids[k + 1:]:
                    if name is None or c.tag == name:
                        return self.ptr(c)
                return NULL
            if p.op == 'fresh' and name in self.counts:
                k = int(p.args[0][len('xml:' + name):])
                return mk('fresh', 'xml:%s%d' % (name, k + 1), sort='p') if k + 1 < self.counts[name] else NULL
            return unk('sibling of an unknown element')
        return vlift(f, e)

    def tag(self, e, st):
        def f(p):
            if self.made(st, p):
                return st.env[('xtag', p)]
            nd = self.ids.get(p)
            if nd is not None:
                return mk('str', nd.tag)
            return mk('app', 'TAG', p, sort='s')
        return vlift(f, e)

    def install(self, I):
        X = self

        def this(I_, n, st, fr, ctx):
            return I_.obj_addr(n['obj'], n.get('arrow'), st, fr, ctx) if n.get('obj') is not None else I_.self_args(n, st, fr, ctx)[0]

        def names(I_, n, st, fr, ctx):
            out = [I_assume(to_str(v), st) for v in rvs(I_, n['args'][:1], st, fr, ctx)]
            for v in out:
                bad = []
                vlift(lambda x: bad.append(x) if lit(x) is None else x, v) if v.op != 'ite' else leaves(v, bad)
                if bad:
                    raise Unsupported('unknown name %s at %s' % (show(bad[0]), I_.where(n, fr)))
            return out

        def leaves(v, bad):
            if v.op == 'ite':
                leaves(v.args[1], bad)
                leaves(v.args[2], bad)
            elif lit(v) is None:
                bad.append(v)

        def s_attr(I_, n, st, fr, ctx):
            e = this(I_, n, st, fr, ctx)
            k = names(I_, n, st, fr, ctx)
            if len(n['args']) != 1:
                raise Unsupported('Attribute with %d arguments at %s' % (len(n['args']), I_.where(n, fr)))
            return vlift(lambda x: X.attribute(I_assume(e, st), lit(x), st), k[0])

        def s_child(I_, n, st, fr, ctx):
            e = this(I_, n, st, fr, ctx)
            k = names(I_, n, st, fr, ctx)
            return vlift(lambda x: X.child(I_assume(e, st), lit(x), st), k[0]) if k else X.child(I_assume(e, st), None, st)

        def s_next(I_, n, st, fr, ctx):
            e = this(I_, n, st, fr, ctx)
            k = names(I_, n, st, fr, ctx)
            return vlift(lambda x: X.next(I_assume(e, st), lit(x), st), k[0]) if k else X.next(I_assume(e, st), None, st)

        def s_tag(I_, n, st, fr, ctx):
            v = X.tag(I_assume(this(I_, n, st, fr, ctx), st), st)
            return I_.temp(st, fr, n, v) if I_.is_gl(n) else v

        def s_doc(I_, n, st, fr, ctx):
            if n['args']:
                raise Unsupported('document constructor with arguments at %s' % I_.where(n, fr))
            return mk('doc', NULL, FALSE)

        def docv(I_, n, st, fr, ctx):
            a = this(I_, n, st, fr, ctx)
            v = st.env.get(('cell', a))
            if v is None:
                v = I_.load(st, a)
            if v.op != 'doc':
                raise Unsupported('unknown document at %s' % I_.where(n, fr))
            return a, v

        def s_parse(I_, n, st, fr, ctx):
            a, v = docv(I_, n, st, fr, ctx)
            if v.args[0] is not NULL:
                raise Unsupported('document parsed twice at %s' % I_.where(n, fr))
            t = to_str(I_assume(rvs(I_, n['args'][:1], st, fr, ctx)[0], st))
            I_.store(st, a, mk('doc', t, malformed(t)))
            return NULL

        def malformed(t):
            return vlift(lambda s: FALSE if X.wellformed or s.op == 'app' and s.args[0] == 'PRINTED' else ite_atom(mk('truth', mk('app', 'MALFORMED', s, sort='b'))), t)

        def s_err(I_, n, st, fr, ctx):
            return docv(I_, n, st, fr, ctx)[1].args[1]

        def s_clear(I_, n, st, fr, ctx):
            a, v = docv(I_, n, st, fr, ctx)
            I_.store(st, a, mk('doc', v.args[0], FALSE))
            return mk('void')

        def top(t, name, st):
            if t is NULL:
                return NULL
            if t.op == 'app' and t.args[0] in ('LINKED', 'PRINTED'):
                return X.pick(st, name, mk('app', 'kids', *t.args[1:], sort='p'))
            if X.robot is None or not (t.op == 'app' and t.args[0] == 'any:text'):
                raise Unsupported('content of an unknown text')
            if X.robot == 'none' or (name is not None and X.robot.tag != name):
                return NULL
            return X.ptr(X.robot)

        def s_docchild(I_, n, st, fr, ctx):
            a, v = docv(I_, n, st, fr, ctx)
            k = names(I_, n, st, fr, ctx)
            return top(v.args[0], lit(k[0]) if k else None, st)

        def s_new(I_, n, st, fr, ctx):
            v, = [to_str(I_assume(x, st)) for x in rvs(I_, n['args'], st, fr, ctx)]
            return mk('newelem', v)

        def s_set(I_, n, st, fr, ctx):
            p = this(I_, n, st, fr, ctx)
            if not X.made(st, p) or len(n['args']) != 2:
                raise Unsupported('attribute set on an unknown element at %s' % I_.where(n, fr))
            k = names(I_, n, st, fr, ctx)
            v = to_str(I_assume(rvs(I_, n['args'][1:], st, fr, ctx)[0], st))
            if lit(k[0]) is None:
                raise Unsupported('unknown attribute name at %s' % I_.where(n, fr))
            key = ('xattr', p, lit(k[0]))
            _heap_init[key] = NULL
            st.env[key] = v
            return mk('void')

        def s_link(I_, n, st, fr, ctx):
            p = this(I_, n, st, fr, ctx)
            k, = [I_assume(x, st) for x in rvs(I_, n['args'], st, fr, ctx)]
            if not X.made(st, k) or X.up.get(k, p) is not p:
                raise Unsupported('unknown element linked at %s' % I_.where(n, fr))
            d = st.env.get(('cell', p))
            if d is None and p.op in ('loc', 'addr'):
                d = I_.load(st, p)
            X.up[k] = p
            if d is not None and d.op == 'doc':
                if d.args[0] is not NULL and d.args[0].args[0] != 'LINKED':
                    raise Unsupported('element linked to a parsed document at %s' % I_.where(n, fr))
                I_.store(st, p, mk('doc', mk('app', 'LINKED', *(d.args[0].args[1:] if d.args[0] is not NULL else ()), k), d.args[1]))
                return k
            if not X.made(st, p):
                raise Unsupported('element linked to an unknown one at %s' % I_.where(n, fr))
            key = ('xkids', p)
            _heap_init[key] = KIDS
            st.env[key] = vlift(lambda ks: mk('app', 'kids', *ks.args[1:], k, sort='p'), st.env.get(key, KIDS))
            return k

        def s_printed(I_, n, st, fr, ctx):
            p, = [I_assume(x, st) for x in rvs(I_, n['args'], st, fr, ctx)]
            d = st.env.get(('cell', p))
            if d is None:
                d = I_.load(st, p)
            if d.op != 'doc' or d.args[0] is NULL or d.args[0].args[0] != 'LINKED':
                raise Unsupported('unknown document printed')
            return mk('app', 'PRINTED', *d.args[0].args[1:], sort='s')

        plain = I.store

        def store(st, a, v, guard=TRUE):
            if v.op == 'newelem':
                key = ('xtag', a)
                _heap_init[key] = v.args[0]
                st.env[key] = v.args[0]
                return
            plain(st, a, v, guard)
        I.store = store
        S = I.summaries
        S['TiXmlElement::TiXmlElement'] = s_new
        S['TiXmlElement::SetAttribute'] = s_set
        S['TiXmlNode::LinkEndChild'] = s_link
        S['vf::printed'] = s_printed
        S['TiXmlDocument::TiXmlDocument'] = s_doc
        S['TiXmlDocument::Parse'] = s_parse
        S['TiXmlDocument::Error'] = s_err
        S['TiXmlDocument::ClearError'] = s_clear
        S['vf::robot'] = lambda I_, n, st, fr, ctx: NULL if X.robot == 'none' else X.ptr(X.robot)
        S['vf::malformed'] = lambda I_, n, st, fr, ctx: malformed(to_str(mk('app', 'any:text', sort='s')))
        for q in ('TiXmlElement::Attribute',):
            S[q] = s_attr
        def first(I_, n, st, fr, ctx):
            e = this(I_, n, st, fr, ctx)
            if e.op == 'loc' or e.op == 'addr':
                v = I_.load(st, e)
                if v.op == 'doc':
                    k = names(I_, n, st, fr, ctx)
                    return top(v.args[0], lit(k[0]) if k else None, st)
            return s_child(I_, n, st, fr, ctx)
        S['TiXmlDocument::RootElement'] = s_docchild
        for c in ('TiXmlNode', 'TiXmlElement', 'TiXmlDocument'):
            S[c + '::FirstChildElement'] = first
            S[c + '::NextSiblingElement'] = s_next
            S[c + '::Value'] = S[c + '::ValueStr'] = S[c + '::ValueTStr'] = s_tag
        numbers(I)
        old = I.load

        def load(st, a, t=None):
            # *Attribute(std::string)
            if (a.op == 'str' or a.op == 'app' and a.args[0] in ('ATTR', 'cstr')) and t is not None and I.deref_type(t).get('rec') == 'std::basic_string':
                return to_str(a)
            if a.op == 'fresh' and isinstance(a.args[0], str) and a.args[0].startswith('text:'):
                return to_str(a)
            return old(st, a, t)
        I.load = load


def good(s):
    return s.op == 'app' and s.args[0] == 'strof' and s.args[1].op == 'fresh' and s.args[1].args[0].startswith('text:good:')


def fact(what, s):
    w = spelled(s, what, dict(NUMERIC=1, VECTOR=3, FOUR=4).get(what)) if what != 'COLOR' else shades(s)
    if w is not None:
        return w
    return TRUE if good(s) else ite_atom(mk('truth', mk('app', what, s, sort='b')))


def figures(s):
    """the numbers a text written by values2str (which U07 decides) spells, or None"""
    if s.op != 'app':
        return None
    ps = s.args[1:] if s.args[0] == 'cat' else (s,)
    out = []
    for i, x in enumerate(ps):
        if i % 2:
            if x.op != 'str' or x.args[0] != ' ':
                return None
        elif x.op == 'app' and x.args[0] == 'shown' and len(x.args) == 4 and x.args[2] is CLASSIC and x.args[3] is const(17):
            out.append(x.args[1])
        else:
            return None
    return out if len(ps) % 2 else None


def shades(s):
    f = figures(s)
    if f is None or any(not (const_val(x) is not None and 0 <= const_val(x) <= 1 or x.op == 'poly' and atom_of(x) is not None and str(atom_of(x).args[0]).startswith('SHADE')) for x in f):
        return None
    return TRUE


def spelled(s, what, n, k=None):
    f = figures(s)
    if f is None:
        return None
    if k is None:
        return TRUE if len(f) == n else FALSE
    return f[k] if len(f) == n else ZERO


def word(s, what, n, k):
    f = spelled(s, what, n, k)
    return num(mk('app', what, s, sort='r')) if f is None else f


CLASSIC = mk('app', 'CLASSIC', sort='p')


def numbers(I):
    """texts of numbers: whether a text is one and which is an unknown function of the text (U07 decides what function)"""
    def s_num(I_, n, st, fr, ctx):
        v, = [to_str(I_assume(x, st)) for x in rvs(I_, n['args'], st, fr, ctx)]
        ok = vlift(lambda s: fact('NUMERIC', s), v)
        throw_if(I_, st, ctx, b_not(ok), 'std::runtime_error')
        return vlift(lambda s: word(s, 'NUMBER', 1, 0), v)

    def s_vec(I_, n, st, fr, ctx):
        a = I_.obj_addr(n['obj'], n.get('arrow'), st, fr, ctx)
        v, = [to_str(I_assume(x, st)) for x in rvs(I_, n['args'], st, fr, ctx)]
        ok = vlift(lambda s: fact('VECTOR', s), v)
        throw_if(I_, st, ctx, b_not(ok), 'urdf::ParseError')
        for i, f in enumerate('xyz'):
            I_.store(st, I_.field_addr(a, 'urdf::Vector3', f), vlift(lambda s: word(s, 'COMPONENT%d' % i, 3, i), v))
        return mk('void')

    def s_col(I_, n, st, fr, ctx):
        a = I_.obj_addr(n['obj'], n.get('arrow'), st, fr, ctx)
        v, = [to_str(I_assume(x, st)) for x in rvs(I_, n['args'], st, fr, ctx)]
        parses = vlift(lambda s: fact('COLOR', s), v)
        throw_if(I_, st, ctx, b_not(parses), 'urdf::ParseError')
        four = vlift(lambda s: fact('FOUR', s), v)
        for i, f in enumerate('rgba'):
            I_.store(st, I_.field_addr(a, 'urdf::Color', f), mux(four, vlift(lambda s: word(s, 'SHADE%d' % i, 4, i), v), const(1 if f == 'a' else 0)))
        return four
    I.summaries['urdf::strToDouble'] = s_num
    I.summaries['urdf::Vector3::init'] = s_vec
    I.summaries['urdf::Color::init'] = s_col


def numerals(I):
    loc = mk('app', 'CLASSIC', sort='p')

    def text(I_, n, st, fr, ctx):
        return to_str(I_assume(rvs(I_, n['args'], st, fr, ctx)[0], st))

    def s_is(I_, n, st, fr, ctx):
        f = lambda w: vlift(lambda x: ite_atom(mk('truth', mk('app', w + ' double', x, loc, sort='b'))), text(I_, n, st, fr, ctx))
        return b_and(f('reads'), f('ends after'))

    def s_val(I_, n, st, fr, ctx):
        return vlift(lambda x: num(mk('app', 'read double', x, loc, sort='r')), text(I_, n, st, fr, ctx))

    def s_shown(I_, n, st, fr, ctx):
        v = I_assume(rvs(I_, n['args'], st, fr, ctx)[0], st)
        return vlift(lambda x: mk('app', 'shown', num(x), loc, const(17), sort='s'), v)
    I.summaries['vf::is_number'] = s_is
    I.summaries['vf::value'] = s_val
    I.summaries['vf::shown'] = s_shown
