"""X01: scanning a text. X02: character escapes."""
import os
import time
from vfa import program as PG
from vfa import scan as SC
from vfa.check import Check

SITE = {'k': 'entry'}
ENC = {0: 'unknown', 1: 'UTF-8', 2: 'legacy'}
TEXT = ('P', ('t', 0, 0))
RULE = 'no read at or past a position behind the NUL, no null pointer followed, every turn of a loop moves on or changes something that cannot change forever'


def fns(P, q, n=None, rec=None):
    return [f for f in P.fns.values() if f.q == q and f.body and (n is None or len(f.params) == n)]


# ---------------------------------------------------------------- contracts
def ahead(run, p, least=1, nonnul=False):
    """some position at least `least` past p, everything before it being text"""
    tid, i = p[1][1], p[1][2]
    if i is None:
        raise SC.Unsup('a position out of reach is scanned from')
    if run.X.coarse:
        for q in [q for q in run.mask if q[0] == tid and q[1] >= i]:
            if q[1] == i and not run.m(q) & ~1:
                raise SC.Prune()
            del run.mask[q]
        for j in range(i, i + least):
            run.mask[(tid, j)] = SC.ALL & ~1
        if nonnul:
            run.mask[(tid, i + least)] = SC.ALL & ~1
        return ('P', ('t', tid, i + least))
    if run.X.probe:
        top = i + least
    else:
        top = max([q[1] for q in run.mask if q[0] == tid] + [i + least - 1]) + 1
    k = run.choose(top - (i + least) + 1)
    r = i + least + k
    for j in range(i, r):
        m = run.m((tid, j)) & ~1
        if not m:
            raise SC.Prune()
        run.mask[(tid, j)] = m
    if nonnul:
        m = run.m((tid, r)) & ~1
        if not m:
            raise SC.Prune()
        run.mask[(tid, r)] = m
    return ('P', ('t', tid, r))


def nothing(run, n):
    for a in n['args']:
        run.rv(a) if not a.get('lv') else run.lv(a)
    return None


def unknown(run, n):
    nothing(run, n)
    return SC.TOP


def maybe_null(run, n):
    nothing(run, n)
    return ('P', ('x',)) if run.choose(2) == 0 else SC.NULLP


def object_(run, n):
    nothing(run, n)
    return ('P', ('x',))


def cursor(run, n):
    return ('L', ('x',))


def args(run, n):
    g = run.P.fns.get(n['fn']['id'])
    return [run.rv(a) for a in n['args']]


def node_parse(run, n):
    """contract of every kind of node: null, or somewhere past the start"""
    o = n['obj']
    this = run.rv(o)[1] if n.get('arrow') else run.lv(o)
    v = args(run, n)
    if this is not None and this[0] == 'o':
        for k in [k for k in run.env if isinstance(k, tuple) and k[0] == 'f' and k[1] == this]:
            del run.env[k]
        run.vague.add(this)
    if v[0] == SC.NULLP:
        return SC.NULLP
    return SC.NULLP if run.choose(2) else ahead(run, v[0])


SKIPPED = SC.ALL & ~(1 | 1 << ord('<'))


def skip_white(run, n):
    """null at the end of the text; where it stands; or past what is not markup"""
    v = args(run, n)
    p = v[0]
    if p == SC.NULLP:
        return SC.NULLP
    if p[1][0] != 't' or p[1][2] is None:
        raise SC.Unsup('a position out of reach is scanned from')
    pos = (p[1][1], p[1][2])
    k = run.choose(3)
    m = run.m(pos) & (1, SC.ALL & ~1, SKIPPED)[k]
    if not m:
        raise SC.Prune()
    if k < 2:
        run.mask[pos] = m
        return p if k else SC.NULLP
    r = ahead(run, p)
    run.mask[pos] = m
    return r


def read_name(run, n):
    """null, or past a name; names of one and of two characters stand for all"""
    p, name = [run.rv(a) for a in n['args'][:2]]
    run.rv(n['args'][2])
    k = run.choose(2 if run.X.probe else 3)
    if k == 0 or p[1] is None:
        run.store(name[1], ('S', ()), n)
        return SC.NULLP
    for i in range(k):
        run.mask[(1, i)] = 1 << ord('a') if run.X.probe else SC.ALL & ~1
        if run.X.probe and p[1][0] == 't':
            q = (p[1][1], p[1][2] + i)
            if not run.m(q) & 1 << ord('a'):
                raise SC.Prune()
            run.mask[q] = 1 << ord('a')
    run.store(name[1], ('S', tuple(SC.Tab((1, i), SC.IDENT) for i in range(k))), n)
    return ahead(run, p, k)


ENDS = ('"', "'", '<', ']]>')


def read_text(run, n):
    """contract of ReadText for the end tags it is verified with: null, or past its start and not at the end of the text"""
    v = args(run, n)
    p, text, end = v[0], v[1], v[3]
    if end[1] is None or end[1][0] != 'k' or end[1][2] or end[1][1] not in [tuple(map(ord, e)) for e in ENDS]:
        raise SC.Unsup('an end tag of its own')
    if text[1] is not None and text[1][0] != 'x':
        run.store(text[1], ('S', None), n)
    if p == SC.NULLP:
        return SC.NULLP
    return SC.NULLP if run.choose(2) else ahead(run, p, 1, True)


def no_document(run, n):
    nothing(run, n)
    return SC.NULLP


def identify(run, n):
    """null, or a new node of some kind"""
    nothing(run, n)
    k = run.choose(3)
    if k == 0:
        return SC.NULLP
    run.nobj += 1
    o = ('o', run.nobj)
    run.cls[o] = ('TiXmlDeclaration', 'TiXmlUnknown')[k - 1]
    run.vague.add(o)
    return ('P', o)


def text_parse(run, n):
    """contract of text that does not begin with its end: null, or at a '<' past the start"""
    run.rv(n['obj']) if n.get('arrow') else run.lv(n['obj'])
    v = args(run, n)
    p = v[0]
    if p == SC.NULLP:
        return SC.NULLP
    if p[1][2] is None or run.m((p[1][1], p[1][2])) & (1 | 1 << ord('<')):
        run.X.report(run, 'reads text that may begin with its end', n, None)
    return SC.NULLP if run.choose(2) else ahead(run, p)


COMMON = {'TiXmlNode::GetDocument': object_, 'TiXmlDocument::SetError': nothing, 'TiXmlNode::LinkEndChild': object_, 'TiXmlParsingData::Stamp': nothing,
          'TiXmlParsingData::Cursor': cursor, 'TiXmlAttributeSet::Find': maybe_null, 'TiXmlAttributeSet::Add': nothing, 'TiXmlText::Blank': unknown, 'TiXmlAttribute::SetDocument': nothing,
          'TiXmlParsingData::TiXmlParsingData': nothing}


class Scan:
    """one entry point under one configuration"""

    def __init__(self, P, fn, values, least, glob=None, this=None, fields=None, summaries=None, low=0, nonnul=False, skipped=False, cap=0, stream=False, detached=False):
        self.detached, self.skipped = detached, skipped
        self.P, self.fn, self.values, self.least = P, fn, values, least
        self.glob, self.this, self.fields, self.summaries, self.low, self.nonnul, self.cap, self.stream = glob or {}, this, fields or {}, summaries or {}, low, nonnul, cap, stream

    def run(self, coarse, limit, seconds, probe=0):
        X = SC.Explorer(self.P, cap=self.cap if coarse else max(self.cap, 4), coarse=coarse, limit=limit, unroll=probe)
        X.probe = bool(probe)
        X.reach = 5
        X.stream = self.stream
        X.globals = self.glob
        X.summaries = dict(COMMON, **self.summaries)
        if self.detached:
            X.summaries['TiXmlNode::GetDocument'] = no_document
        X.until = min(time.time() + seconds, UNTIL or 1e18)
        X.first = 'any' if coarse else 'exact'
        X.contract = []

        def start(run):
            run.frames.append(SC.Frame(self.fn, 0, None, 0))
            run.low[0] = self.low
            this = None
            if self.this:
                run.nobj += 1
                this = ('o', run.nobj)
                run.cls[this] = self.this
                run.vague.add(this)
                for k, v in self.fields.items():
                    run.env[('f', this, k)] = v
            if self.skipped:
                run.env[('g', 'begin')] = TEXT
            vals = self.values(run) if callable(self.values) else list(self.values)
            r = run.enter(self.fn, this, vals, SITE)
            if self.least is not None:
                self.check(X, run, r)
            return r
        try:
            X.explore(start)
            stop = None
        except SC.Unsup as e:
            stop = str(e)
        return X, stop

    def check(self, X, run, r):
        if r is SC.TOP or not (isinstance(r, tuple) and r[0] == 'P'):
            run.X.report(run, 'gives a position that cannot be told', self.fn.body, None)
        elif r[1] is not None:
            if r[1][0] != 't' or r[1][2] is None:
                run.X.report(run, 'gives a position that cannot be told', self.fn.body, None)
            elif r[1][2] < self.least:
                run.X.report(run, 'gives a position that is not %s' % ('past its start' if self.least else 'in the text'), self.fn.body, None)
            else:
                tid, i = r[1][1], r[1][2]
                lo = run.low.get(tid, 0)
                if any(run.m((tid, j)) & 1 for j in range(lo, i)):
                    run.X.report(run, 'gives a position past the end of the text', self.fn.body, None)
                begin = run.env.get(('g', 'begin'))
                if self.skipped and (begin[1][2] is None or begin[1][2] < i and run.m((tid, begin[1][2])) & ~SKIPPED):
                    run.X.report(run, 'skips markup', self.fn.body, None)
                if self.nonnul and run.m((tid, i)) & 1:
                    run.X.report(run, 'gives the end of the text', self.fn.body, None)


def verdicts(X, coarse):
    out = []
    for (what, w, q), (exact, stack, pic) in X.reports.items():
        out.append((what, w, q, exact and not coarse, stack, pic))
    for w, q, exact, pic, sh in X.endless():
        out.append(('goes round without moving on', w, q, exact and not coarse, [], pic))
    return out


UNTIL = None


def found(c, name, bad, an):
    for what, w, q, _, stack, pic in bad[:3]:
        c.bad('%s@%s' % (name, w), RULE, w, '%s %s%s; the text there: %s' % (q, what, ' (in %s)' % ' > '.join(stack) if stack else '', pic), analysed=an)


def decide(c, name, sc, analysed=()):
    X, stop = sc.run(True, 40000, 100)
    alarms = verdicts(X, True)
    an = sorted({f.q for f in X.analysed} | set(analysed))
    where = sc.fn.where()
    detail = '%d paths, %d states at loop heads, %d functions' % (X.paths, len(X.ids), len(X.analysed))
    if X.lost:
        detail += '; ' + ', '.join(X.lost)
    if stop is None and not alarms:
        c.ok(name, RULE, where, detail, analysed=an)
        return
    for turns in (5, 10):
        Y, _ = sc.run(False, 20000, 30, turns)
        bad = [a for a in verdicts(Y, False) if a[3]]
        if bad:
            found(c, name, bad, an)
            return
    Y, stop2 = sc.run(False, 20000, 60)
    sharp = verdicts(Y, False)
    if stop2 is None and not sharp:
        c.ok(name, RULE, where, detail + '; characters kept apart', analysed=an)
        return
    bad = [a for a in sharp if a[3]]
    soft = [a for a in alarms if any(a[:3] == b[:3] for b in sharp)] or alarms or sharp
    if bad:
        found(c, name, bad, an)
    else:
        c.und(name, RULE, where, '%s%s' % (stop or stop2 or '', ''.join('; %s %s at %s: %s' % (a[2], a[0], a[1], a[5]) for a in soft[:3])))


def X01():
    global UNTIL
    UNTIL = time.time() + (400 if os.environ.get('VERIF_TIER') != 'thorough' else 7200)
    c = Check('X01', 'XML parsing always terminates and stays inside the text')
    P = c.load(PG.XML)
    one = lambda q, n=None: fns(P, q, n)[0] if fns(P, q, n) else None
    jobs = []

    def add(name, q, values, least, n=None, **k):
        f = one(q, n)
        if f is None:
            c.und(name, RULE, q, 'not found')
        elif not c.only or name.startswith(c.only):
            c.task(decide, c, name, Scan(P, f, values, least, **k))

    def string(run):
        return ('P', run.temp(('S', ())))

    def const(s):
        return ('P', ('k', tuple(map(ord, s)), 0))
    for e in ENC:
        t = '{%s encoding}' % ENC[e]
        add('SkipWhiteSpace' + t, 'TiXmlBase::SkipWhiteSpace', [TEXT, e], 0, skipped=True)
        add('ReadName' + t, 'TiXmlBase::ReadName', lambda run, e=e: [TEXT, string(run), e], 1)
        for w in (0, 1):
            u = '{%s encoding, white space %s}' % (ENC[e], 'condensed' if w else 'kept')
            g = {'TiXmlBase::condenseWhiteSpace': w}
            for trim in (0, 1):
                for end in ENDS:
                    add('ReadText to %s%s%s' % (end, ', trimmed' if trim else '', u), 'TiXmlBase::ReadText', lambda run, e=e, trim=trim, end=end: [TEXT, string(run), trim, const(end), 0, e], 1, glob=g, nonnul=True)
            for d in (0, 1):
                D = ('P', ('o', 'data')) if d else SC.NULLP
                K = dict(glob=g, detached=not d)
                v = u + ('' if d else '{no document}')
                if not d and (w or e):
                    continue
                el = {'TiXmlBase::SkipWhiteSpace': skip_white, 'TiXmlBase::Parse': node_parse, 'TiXmlAttribute::Parse': node_parse, 'TiXmlBase::ReadName': read_name, 'TiXmlNode::Identify': identify, 'TiXmlText::Parse': text_parse}
                add('TiXmlElement::Parse' + v, 'TiXmlElement::Parse', [TEXT, D, e], 1, this='TiXmlElement', summaries=el, **K)
                add('TiXmlAttribute::Parse' + v, 'TiXmlAttribute::Parse', [TEXT, D, e], 1, this='TiXmlAttribute', summaries={'TiXmlBase::ReadName': read_name, 'TiXmlBase::ReadText': read_text}, fields={'document': ('P', ('x',)) if d else SC.NULLP}, **K)
                if w:
                    continue
                def inside(run, D=D, e=e):
                    run.mask[(0, 0)] = SC.ALL & ~(1 | 1 << ord('<'))
                    return [TEXT, D, e]
                add('TiXmlText::Parse{within an element}' + v, 'TiXmlText::Parse', inside, 1, this='TiXmlText', fields={'cdata': 0}, nonnul=True, **K)
                add('TiXmlNode::Identify' + v, 'TiXmlNode::Identify', [TEXT, e], None, this='TiXmlElement', **K)
                for cd in (0, 1):
                    add('TiXmlText::Parse' + ('{CDATA}' if cd else '') + v, 'TiXmlText::Parse', [TEXT, D, e], cd, this='TiXmlText', fields={'cdata': cd}, summaries={'TiXmlBase::ReadText': read_text}, **K)
                add('TiXmlUnknown::Parse' + v, 'TiXmlUnknown::Parse', [TEXT, D, e], 1, this='TiXmlUnknown', **K)
                add('TiXmlComment::Parse' + v, 'TiXmlComment::Parse', [TEXT, D, e], 1, this='TiXmlComment', **K)
                add('TiXmlDeclaration::Parse' + v, 'TiXmlDeclaration::Parse', [TEXT, D, e], 1, this='TiXmlDeclaration', summaries={'TiXmlAttribute::Parse': node_parse}, **K)
                add('TiXmlDocument::Parse' + v, 'TiXmlDocument::Parse', [TEXT, D, e], 0, n=3, this='TiXmlDocument', summaries={'TiXmlBase::Parse': node_parse, 'TiXmlNode::Identify': identify}, **K)
    # where an error is: any position reached so far
    for e in ENC:
        for k in range(0, 7 if c.tier == 'thorough' else 5):
            def at(run, e=e, k=k):
                for j in range(k):
                    run.mask[(0, j)] = SC.ALL & ~1
                return [('P', ('t', 0, k)), e]
            add('Stamp of %d characters{%s encoding}' % (k, ENC[e]), 'TiXmlParsingData::Stamp', at, None, this='TiXmlParsingData', fields={'stamp': TEXT, 'tabsize': 4})
    c.finish(60)


# ---------------------------------------------------------------- X02
NAMES = {'&': 'amp', '<': 'lt', '>': 'gt', '"': 'quot', "'": 'apos'}
RULE2 = 'what is written for every character, on every path, is the escaped form that is read back as that character'
HEX = '0123456789abcdefABCDEF'


def isin(run, c, chars):
    """decide whether a character is one of some"""
    if isinstance(c, int):
        return c % 256 in map(ord, chars)
    w = {ord(x) for x in chars}
    return run.split(c, lambda v: v % 256 in w)


def escaped(run, cs):
    out, i = [], 0
    while i < len(cs):
        c = cs[i]
        if i + 2 < len(cs) and isin(run, c, '&') and isin(run, cs[i + 1], '#') and isin(run, cs[i + 2], 'x'):
            k = i + 3
            while k < len(cs) and isin(run, cs[k], HEX):
                k += 1
            if k > i + 3 and k < len(cs) and isin(run, cs[k], ';'):
                out += cs[i:k]
                i = k
                continue
        for x, name in NAMES.items():
            if isin(run, c, x):
                out += map(ord, '&%s;' % name)
                break
        else:
            if isin(run, c, ''.join(map(chr, range(32)))):
                v = c.v if isinstance(c, SC.Tab) else None
                for j in range(2):
                    h = lambda x: ord(('%02X' % (x % 256))[j]) if x % 256 < 32 else 0
                    if j == 0:
                        out += map(ord, '&#x')
                    out.append(SC.Tab(c.pos, tuple(h(x) for x in v)) if v else h(c))
                out.append(ord(';'))
            else:
                out.append(c)
        i += 1
    return out


def same(run, a, b):
    """the same character whatever the text"""
    pa, pb = [x.pos if isinstance(x, SC.Tab) else None for x in (a, b)]
    va, vb = [(lambda c, x=x: x.v[c]) if isinstance(x, SC.Tab) else (lambda c, x=x: x) for x in (a, b)]
    sa = [c for c in range(256) if run.m(pa) >> c & 1] if pa else [0]
    sb = [c for c in range(256) if run.m(pb) >> c & 1] if pb else [0]
    if pa and pa == pb:
        return all((va(c) - vb(c)) % 256 == 0 for c in sa)
    x, y = {va(c) % 256 for c in sa}, {vb(c) % 256 for c in sb}
    return x == y and len(x) == 1


def shown(run, cs):
    out = []
    for c in cs:
        if isinstance(c, SC.Tab):
            m = run.m(c.pos)
            v = sorted({c.v[k] % 256 for k in range(256) if m >> k & 1})
            out.append(chr(v[0]) if len(v) == 1 and 32 <= v[0] < 127 else '[%s]' % ('%02x' % v[0] if len(v) == 1 else '%02x..%02x' % (v[0], v[-1])))
        else:
            out.append(chr(c % 256) if 32 <= c % 256 < 127 else '[%02x]' % (c % 256))
    return ''.join(out)


def l_fprintf(run, n):
    out = run.env.get(('g', 'written'), ('S', ()))
    a = n['args']
    name = n['fn']['n']
    if name == 'fputc':
        add = (run.norm(run.rv(a[0])),)
    elif name == 'fputs':
        add = run.tostr(run.rv(a[0]), None, n)[1]
    else:
        f = run.rv(a[1])
        fmt, add, rest = ''.join(chr(c) for c in f[1][1]), (), list(a[2:])
        while fmt:
            if fmt.startswith('%s'):
                s = run.tostr(run.rv(rest.pop(0)), None, n)[1]
                add = None if s is None or add is None else add + tuple(s)
                fmt = fmt[2:]
            elif fmt[0] == '%':
                raise SC.Unsup('format')
            else:
                add = add if add is None else add + (ord(fmt[0]),)
                fmt = fmt[1:]
    run.env[('g', 'written')] = ('S', None) if add is None or out[1] is None else ('S', out[1] + tuple(add))
    return 1


def chars(run, spec):
    """a text: characters given, and None or a set for arbitrary ones"""
    out = []
    for i, x in enumerate(spec):
        if isinstance(x, str):
            out.append(ord(x))
        else:
            if x is not None:
                run.mask[(1, i)] = x
            out.append(SC.Tab((1, i), SC.IDENT))
    return out


class Text2:
    """one way of writing or reading back under one form of text"""

    def __init__(self, P, fn, body, limit=60000):
        self.P, self.fn, self.body, self.limit = P, fn, body, limit


def decide2(c, name, t):
    X = SC.Explorer(t.P, cap=1000, unroll=400, limit=t.limit)
    X.longest = 4000
    X.reach = 60
    X.globals = {'TiXmlBase::condenseWhiteSpace': 0}
    X.summaries = dict(COMMON, fprintf=l_fprintf, fputs=l_fprintf, fputc=l_fprintf)
    X.until = time.time() + 300
    wrong = {}

    def call(run, fn, this, vals):
        return run.enter(fn, this, vals, SITE)

    def start(run):
        run.frames.append(SC.Frame(t.fn, 0, None, 0))
        got, want, note = t.body(run, call)
        if got is None:
            wrong.setdefault('?', note)
            return
        if len(got) != len(want) or not all(same(run, a, b) for a, b in zip(got, want)):
            wrong.setdefault('x', '%s gives %s, %s expected' % (shown(run, note), shown(run, got), shown(run, want)))
    stop = None
    try:
        X.explore(start)
    except SC.Unsup as e:
        stop = str(e)
    an = sorted({f.q for f in X.analysed})
    where = t.fn.where()
    alarms = verdicts(X, False)
    if 'x' in wrong:
        c.bad(name, RULE2, where, wrong['x'], analysed=an)
    elif any(a[3] for a in alarms):
        a = next(a for a in alarms if a[3])
        c.bad('%s@%s' % (name, a[1]), RULE2, a[1], '%s %s' % (a[2], a[0]), analysed=an)
    elif stop or wrong or alarms:
        c.und(name, RULE2, where, '%s %s %s' % (stop or '', wrong.get('?', ''), alarms[:2]))
    elif X.paths < 1:
        c.und(name, RULE2, where, 'no path')
    else:
        c.ok(name, RULE2, where, '%d paths, %d functions%s' % (X.paths, len(X.analysed), '; ' + ', '.join(X.lost) if X.lost else ''), analysed=an)


def value_of(run, loc):
    v = run.env.get(loc, ('S', ()))
    return list(v[1]) if isinstance(v, tuple) and v[0] == 'S' and v[1] is not None else None


def record(run, cls, fields):
    run.nobj += 1
    o = ('o', run.nobj)
    run.cls[o] = cls
    run.vague.add(o)
    for k, v in fields.items():
        run.env[('f', o, k)] = v
    return o


def X02():
    c = Check('X02', 'Character escapes written are the ones read')
    P = c.load(PG.XML)
    deep = c.tier == 'thorough'

    def one(q, n=None, pick=None):
        f = [f for f in fns(P, q, n) if pick is None or pick(f)]
        return f[0] if f else None

    def add(name, fn, body):
        if fn is None:
            c.und(name, RULE2, name, 'not found')
        elif not c.only or name.startswith(c.only):
            c.task(decide2, c, name, Text2(P, fn, body))
    enc = one('TiXmlBase::EncodeString', 2)
    rd = one('TiXmlBase::ReadText')
    spell = lambda spec: ''.join(x if isinstance(x, str) else '?' if x is None else '*' for x in spec)

    def written(spec):
        def body(run, call):
            s = chars(run, spec)
            src, dst = run.temp(('S', tuple(s))), run.temp(('S', (ord('a'), ord('b'))))
            call(run, enc, None, [('L', src), ('P', dst)])
            return value_of(run, dst), [ord('a'), ord('b')] + escaped(run, s), s
        return body
    for k in range(0, 6 if deep else 5):
        add('written[%d characters]' % k, enc, written([None] * k))
    for spec in (['&', '#', 'x', None, None, None], [None, '&', '#', 'x', None, None], ['&', '#', 'x', None, ';', None], ['&', '#', None, None], ['&', '#', 'x', 'A', 'f', '0', ';', None], ['&', '#', 'x', 'A', '&', '#', 'x', '4', ';']):
        add('written[%s]' % spell(spec), enc, written(spec))

    # read back
    LOW, HIGH = sum(1 << i for i in range(1, 128)), sum(1 << i for i in range(1, 256))
    lead, cont = sum(1 << i for i in range(0xc2, 0xe0)), sum(1 << i for i in range(0x80, 0xc0))
    lead3, lead4 = sum(1 << i for i in range(0xe1, 0xf0)), sum(1 << i for i in range(0xf1, 0xf4))

    def back(spec, end, e):
        def body(run, call):
            s = chars(run, spec)
            src, dst, txt = run.temp(('S', tuple(s))), run.temp(('S', ())), run.temp(('S', ()))
            call(run, enc, None, [('L', src), ('P', dst)])
            w = value_of(run, dst)
            if w is None:
                return None, None, 'text written unknown'
            r = call(run, rd, None, [('P', ('k', tuple(w) + tuple(map(ord, end)) + (ord('x'),), 0)), ('P', txt), 0, ('P', ('k', tuple(map(ord, end)), 0)), 0, e])
            if r == SC.NULLP or not (isinstance(r, tuple) and r[0] == 'P' and r[1][0] == 'k'):
                return [], s + [0], s
            got = value_of(run, txt)
            if got is not None and r[1][2] != len(w) + len(end):
                got = got + [0]
            return got, s, s
        return body
    for e in (1, 2):
        any_ = LOW if e == 1 else HIGH
        for end in ('"', "'", '<'):
            specs = [[any_], [any_, any_]] + [list('&%s;' % x) for x in NAMES.values()] + [['&', '#', 'x', any_], ['&', '#', any_, ';']]
            specs.append([any_] * 3)
            if deep and end == '"':
                specs.append([any_] * 4)
            if e == 1:
                specs += [[lead, cont, any_], [lead3, cont, cont, any_], [lead4, cont, cont, cont, any_]]
            for i, spec in enumerate(specs):
                add('read back[%s to %s#%d]{%s encoding}' % (spell(spec), end, i, ENC[e]), rd, back(spec, end, e))

    # what is handed out by nodes and the printer
    attr = one('TiXmlAttribute::Print', 3)
    text = one('TiXmlText::Print', 2)
    visit = one('TiXmlPrinter::Visit', 1, lambda f: 'TiXmlText' in f.tu.types[f.params[0]['t']]['s'])

    def attribute(spec, to_file):
        def body(run, call):
            s = chars(run, spec)
            o = record(run, 'TiXmlAttribute', {'name': ('S', (ord('n'),)), 'value': ('S', tuple(s))})
            dst = run.temp(('S', (ord(' '),)))
            call(run, attr, o, [('P', ('x',)), 0, SC.NULLP] if to_file else [SC.NULLP, 0, ('P', dst)])
            got = value_of(run, ('g', 'written') if to_file else dst)
            if got is None:
                return None, None, 'text written unknown'
            q = got[-1] if got and got[-1] in (34, 39) else 34
            return got, ([] if to_file else [ord(' ')]) + [ord('n'), ord('='), q] + escaped(run, s) + [q], s
        return body

    def node(spec, cdata, to_file, simple):
        def body(run, call):
            s = chars(run, spec)
            t = record(run, 'TiXmlText', {'value': ('S', tuple(s)), 'cdata': cdata})
            if to_file:
                call(run, text, t, [('P', ('x',)), 0])
                got = value_of(run, ('g', 'written'))
                if cdata:
                    got = [x for x in got if x != 10] if got is not None else None
            else:
                p = record(run, 'TiXmlPrinter', {'buffer': ('S', ()), 'indent': ('S', ()), 'lineBreak': ('S', ()), 'depth': 0, 'simpleTextPrint': simple})
                call(run, visit, p, [('L', t)])
                got = value_of(run, ('f', p, 'buffer'))
            if got is None:
                return None, None, 'text written unknown'
            return got, list(map(ord, '<![CDATA[')) + s + list(map(ord, ']]>')) if cdata else escaped(run, s), s
        return body
    for spec in ([], [HIGH], [HIGH] * 2, [HIGH] * 3):
        k = len(spec)
        for f in (0, 1):
            add('attribute of %d characters%s' % (k, ' to a file' if f else ''), attr, attribute(spec, f))
            add('text of %d characters%s' % (k, ' to a file' if f else ''), text if f else visit, node(spec, 0, f, 0))
            if k:
                add('CDATA of %d characters%s' % (k, ' to a file' if f else ''), text if f else visit, node([LOW & ~(1 << 10)] * k, 1, f, 0))
        add('text of %d characters, simple' % k, visit, node(spec, 0, 0, 1))
    c.finish(40)
