"""Typestate of owned objects: on every path an object that a function obtains (by `new`, or from a function
returning one) is handed over exactly once - stored into a structure, passed to a function that keeps or
releases it, returned - or released, and is not touched once released.

States are sets of (variable -> object, object -> state) explored to a fixed point; what callees do with
pointer parameters and what they return comes from summaries computed by the same analysis."""

OWNED, KEPT, GONE, NUL, UNK = 'owned', 'kept', 'released', 'null', 'unknown'
LIMIT = 4000


class GiveUp(Exception):
    pass


class S:
    """one abstract state"""
    __slots__ = ('var', 'obj', 'trail')

    def __init__(self, var=(), obj=(), trail=()):
        self.var, self.obj, self.trail = dict(var), dict(obj), trail

    def copy(self, note=None):
        return S(self.var, self.obj, self.trail + (note,) if note else self.trail)

    def key(self):
        return (tuple(sorted(self.var.items(), key=repr)), tuple(sorted(self.obj.items(), key=repr)))


def dedupe(ss):
    seen, out = set(), []
    for s in ss:
        k = s.key()
        if k not in seen:
            seen.add(k)
            out.append(s)
    if len(out) > LIMIT:
        raise GiveUp('too many states')
    return out


def strip(e):
    while e is not None and e['k'] in ('Cast',) and e.get('c'):
        e = e['c'][0]
    return e


class Owner:
    def __init__(self, program, classes):
        self.P = program
        self.classes = classes          # record names whose objects are owned
        self.param = {}                 # (fn id, index) -> set of fates
        self.ret = {}                   # fn id -> 'owned' | 'borrowed' | 'unknown'
        self.retnull = {}               # fn id -> may the result be null
        self.busy = set()
        self.overriders = {}
        for f in program.fns.values():
            if f.d.get('rec'):
                self.overriders.setdefault(f.n, []).append(f)

    # ---------------------------------------------------------------- types
    def is_owned_ptr(self, t, tu):
        if t['k'] != 'ptr':
            return False
        e = tu.types[t['e']]
        s = e['s'].replace('const ', '').strip()
        return s in self.classes

    # ---------------------------------------------------------------- summaries
    def bodies(self, ref):
        """functions a call may reach"""
        f = self.P.fns.get(ref['id'])
        if f is not None and f.body is not None and not ref.get('virt'):
            return [f]
        if ref.get('virt'):
            out = [g for g in self.overriders.get(ref['n'], []) if g.body is not None and len(g.params) == len(ref['pt'])
                   and bool(g.d.get('const')) == bool(ref.get('const'))]
            return out
        return [f] if f is not None and f.body is not None else []

    def returns(self, ref):
        fs = self.bodies(ref)
        if not fs:
            return 'unknown', True
        rs, null = set(), False
        for f in fs:
            if f.id not in self.ret:
                if f.id in self.busy:
                    return 'unknown', True
                self.busy.add(f.id)
                try:
                    a = Analysis(self, f)
                    a.run()
                    kinds = a.returned
                    self.ret[f.id] = 'unknown' if 'unknown' in kinds or not kinds - {'null'} else \
                        ('owned' if kinds <= {'owned', 'null'} else 'borrowed' if 'owned' not in kinds else 'unknown')
                    self.retnull[f.id] = 'null' in kinds
                except GiveUp:
                    self.ret[f.id] = 'unknown'
                    self.retnull[f.id] = True
                self.busy.discard(f.id)
            rs.add(self.ret[f.id])
            null = null or self.retnull.get(f.id, True)
        return (rs.pop() if len(rs) == 1 else 'unknown'), null

    def fate(self, ref, i):
        """what a call does with its i-th argument: subset of {kept, released, owned (left alone), unknown}"""
        fs = self.bodies(ref)
        if not fs:
            return {UNK}
        out = set()
        for f in fs:
            k = (f.id, i)
            if k not in self.param:
                if k in self.busy:
                    return {UNK}
                self.busy.add(k)
                try:
                    a = Analysis(self, f, owned_param=i)
                    a.run()
                    self.param[k] = a.fates or {UNK}
                except GiveUp:
                    self.param[k] = {UNK}
                self.busy.discard(k)
            out |= self.param[k]
        return out


class Analysis:
    def __init__(self, own, fn, owned_param=None):
        self.O, self.fn, self.tu = own, fn, fn.tu
        self.reports = {}
        self.returned = set()
        self.fates = set()
        self.sites = set()
        self.owned_param = owned_param
        self.brk, self.cnt, self.outs = [], [], []
        self.nstates = 0

    def at(self, n):
        f = self.tu.files[n['f']] if 'f' in n else self.fn.file
        return '%s:%s' % (f.replace(self.O.P.repo + '/', ''), n.get('l', '?'))

    def report(self, kind, n, s, what):
        k = (kind, self.at(n))
        if k not in self.reports:
            self.reports[k] = (what, [t for t in s.trail])

    def run(self):
        s = S()
        if self.owned_param is not None:
            p = self.fn.params[self.owned_param]
            s.var[p['id']] = 'param'
            s.obj['param'] = OWNED
        for i in self.fn.d.get('inits', []):
            if i.get('e'):
                s = self.one(self.expr(i['e'], [s]))
        end = self.exec(self.fn.body, [s])
        for t in end:
            self.leave(t, self.fn.body, None)
        return self

    def one(self, ss):
        if len(ss) != 1:
            raise GiveUp('initialiser with several outcomes')
        return ss[0]

    # ---------------------------------------------------------------- the end of a path
    def leave(self, s, n, result):
        for o, st in s.obj.items():
            if o == 'param':
                self.fates.add(st if st in (OWNED, KEPT, GONE) else UNK)
                continue
            if st == OWNED and o != result:
                self.report('leak', n, s, 'the %s obtained at %s is neither linked nor released when %s returns' % (o[0], o[1], self.fn.q))

    def drop(self, s, n, tmps=()):
        """objects that nothing refers to any more"""
        held = set(s.var.values())
        for o in [o for o, st in s.obj.items() if o not in held and o != 'param' and o not in tmps]:
            if s.obj[o] == OWNED:
                self.report('leak', n, s, 'the %s obtained at %s is lost here, neither linked nor released' % (o[0], o[1]))
            del s.obj[o]
        return s

    # ---------------------------------------------------------------- statements
    def exec(self, n, ss):
        if n is None or not ss:
            return ss
        ss = dedupe(ss)
        m = getattr(self, 's_' + n['k'], None)
        if m is None:
            raise GiveUp('statement %s at %s' % (n['k'], self.at(n)))
        return m(n, ss)

    def s_Block(self, n, ss):
        for c in n['c']:
            ss = self.exec(c, ss)
            if not ss:
                return []
        return ss

    def s_Null(self, n, ss):
        return ss

    def s_Expr(self, n, ss):
        out = []
        for s in ss:
            for s2, v in self.value(n['e'], s):
                if v not in (None, NUL) and s2.obj.get(v) == OWNED and v not in s2.var.values():
                    self.report('leak', n, s2, 'the %s obtained here is dropped' % v[0])
                    s2.obj.pop(v, None)
                out.append(self.drop(s2, n))
        return dedupe(out)

    def s_Decl(self, n, ss):
        for v in n['c']:
            if v.get('k') != 'Var':
                continue
            t = self.tu.types[v['t']]
            out = []
            for s in ss:
                if v.get('init') is None:
                    out.append(s)
                    continue
                if t['k'] == 'bool':
                    out += self.flag(v['id'], v['init'], s)
                    continue
                for s2, x in self.value(v['init'], s):
                    if self.O.is_owned_ptr(t, self.tu):
                        self.bind(s2, v['id'], x)
                    elif x is not None and x != NUL:
                        self.escape(s2, x)
                    out.append(self.drop(s2, n))
            ss = dedupe(out)
        return ss

    def flag(self, var, e, s):
        """a local truth value: its outcomes are followed apart"""
        out = []
        for s2, b in self.cond(e, s):
            s3 = s2.copy()
            s3.var[var] = ('flag', b)
            out.append(s3)
        return out

    def bind(self, s, var, x):
        if x is None:
            s.var.pop(var, None)
        else:
            s.var[var] = x

    def escape(self, s, x):
        if x in s.obj and s.obj[x] != GONE:
            s.obj[x] = UNK

    def s_If(self, n, ss):
        if n.get('init'):
            ss = self.exec(n['init'], ss)
        if n.get('cvar'):
            ss = self.s_Decl({'k': 'Decl', 'c': [dict(n['cvar'], k='Var')], 'l': n.get('l')}, ss)
        out = []
        for s in ss:
            for s2, b in self.cond(n['cond'], s):
                s3 = s2.copy('%s: %s' % (self.at(n), 'taken' if b else 'not taken'))
                out += self.exec(n['then'] if b else n.get('else'), [s3]) if (n['then'] if b else n.get('else')) is not None else [s3]
        return dedupe(out)

    def loop(self, n, ss, cond, inc, body, first=True):
        done, todo, seen = [], list(ss), set()
        brk0, cnt0 = self.brk, self.cnt
        out = []
        while todo:
            s = todo.pop()
            if first and s.key() in seen:
                continue
            seen.add(s.key())
            if len(seen) > LIMIT:
                raise GiveUp('too many states')
            if cond is not None and first:
                cs = self.cond(cond, s)
            else:
                cs = [(s, True)] if cond is not None or not first else [(s, True)]
            first = True
            for s2, b in cs:
                if not b:
                    out.append(s2)
                    continue
                self.brk, self.cnt = [], []
                r = self.exec(body, [s2])
                nxt = r + self.cnt
                out += self.brk
                self.brk, self.cnt = brk0, cnt0
                if inc is not None:
                    nxt = self.expr(inc, nxt)
                todo += dedupe(nxt)
        return dedupe(out)

    def s_While(self, n, ss):
        return self.loop(n, ss, n.get('cond'), None, n['body'])

    def s_For(self, n, ss):
        if n.get('init'):
            ss = self.exec(n['init'], ss)
        return self.loop(n, ss, n.get('cond'), n.get('inc'), n['body'])

    def s_Do(self, n, ss):
        return self.loop(n, ss, n.get('cond'), None, n['body'], first=False)

    def s_RangeFor(self, n, ss):
        ss = self.expr(n['range'], ss)
        out = list(ss)
        for s in self.loop(n, ss, None, None, {'k': 'Block', 'c': [n['body'], {'k': 'Break'}]}):
            out.append(s)
        return dedupe(out)

    def s_Return(self, n, ss):
        for s in ss:
            if n.get('e') is None:
                self.leave(s, n, None)
                continue
            ptr = self.O.is_owned_ptr(self.tu.types[self.fn.d['rt']], self.tu)
            for s2, v in self.value(n['e'], s):
                if ptr:
                    if v == NUL or v is not None and s2.obj.get(v) == NUL:
                        self.returned.add('null')
                    elif v is None:
                        self.returned.add('borrowed')
                    elif s2.obj.get(v) == OWNED:
                        self.returned.add('owned')
                        if v == 'param':
                            s2.obj['param'] = KEPT
                            v = None
                    elif s2.obj.get(v) == KEPT:
                        self.returned.add('borrowed')
                    elif s2.obj.get(v) == GONE:
                        self.report('use', n, s2, 'the %s released before is returned' % self.name(v))
                        self.returned.add('unknown')
                    else:
                        self.returned.add('unknown')
                self.leave(s2, n, v)
        return []

    def name(self, o):
        return 'argument' if o == 'param' else '%s obtained at %s' % o[:2]

    def s_Break(self, n, ss):
        self.brk += ss
        return []

    def s_Continue(self, n, ss):
        self.cnt += ss
        return []

    def s_Switch(self, n, ss):
        ss = self.expr(n['cond'], ss)
        brk0 = self.brk
        self.brk = []
        out = []
        body = n['body']
        stmts = body['c'] if body['k'] == 'Block' else [body]
        has_default = False
        starts = []
        for i, c in enumerate(stmts):
            if c['k'] in ('Case', 'Default'):
                starts.append(i)
                x = c
                while x is not None and x['k'] in ('Case', 'Default'):
                    has_default = has_default or x['k'] == 'Default'
                    x = x.get('body') or x.get('sub')
        for i in starts:
            cur = [s.copy('%s: case at line %s' % (self.at(n), stmts[i].get('l'))) for s in ss]
            for c in stmts[i:]:
                cur = self.exec(c, cur)
                if not cur:
                    break
            out += cur
        if not has_default:
            out += ss
        out += self.brk
        self.brk = brk0
        return dedupe(out)

    def s_Case(self, n, ss):
        return self.exec(n.get('body') or n.get('sub'), ss)

    s_Default = s_Case

    def s_Label(self, n, ss):
        return self.exec(n['body'], ss)

    def s_Try(self, n, ss):
        out = self.exec(n['body'] if 'body' in n else n['c'][0], [s.copy() for s in ss])
        for h in n.get('handlers', []):
            out += self.exec(h.get('body'), [s.copy() for s in ss])
        return dedupe(out)

    # ---------------------------------------------------------------- conditions
    def cond(self, e, s):
        e0 = strip(e)
        k = e0['k']
        if k == 'Un' and e0['op'] == '!':
            return [(s2, not b) for s2, b in self.cond(e0['c'][0], s)]
        if k == 'Bin' and e0['op'] in ('&&', '||'):
            out = []
            for s2, b in self.cond(e0['c'][0], s):
                if b == (e0['op'] == '||'):
                    out.append((s2, b))
                else:
                    out += self.cond(e0['c'][1], s2)
            return self.dedupe_cond(out)
        if k in ('Bool', 'Int'):
            return [(s, bool(e0['v']))]
        if k == 'Ref' and isinstance(s.var.get(e0.get('id')), tuple) and s.var[e0['id']][0] == 'flag':
            return [(s, s.var[e0['id']][1])]
        if k == 'Bin' and e0['op'] in ('==', '!='):
            a, b = strip(e0['c'][0]), strip(e0['c'][1])
            out = []
            for s2, x in self.value(e0['c'][0], s):
                for s3, y in self.value(e0['c'][1], s2):
                    out += self.decide(s3, x if y == NUL else y if x == NUL else None, e0['op'] == '!=')
            return self.dedupe_cond(out)
        out = []
        for s2, x in self.value(e, s):
            out += self.decide(s2, x, True)
        return self.dedupe_cond(out)

    def dedupe_cond(self, out):
        seen, r = set(), []
        for s, b in out:
            k = (s.key(), b)
            if k not in seen:
                seen.add(k)
                r.append((s, b))
        return r

    def decide(self, s, x, nonnull):
        """outcomes of the test `x is not null` (of its negation when nonnull is False)"""
        if x == NUL or x is not None and s.obj.get(x) == NUL:
            return [(s, not nonnull)]
        if x is not None and s.obj.get(x) in (OWNED, KEPT, GONE):
            return [(s, nonnull)]
        return [(s.copy(), True), (s.copy(), False)]

    # ---------------------------------------------------------------- expressions
    def expr(self, e, ss):
        out = []
        for s in ss:
            for s2, v in self.value(e, s):
                out.append(self.drop(s2, e))
        return dedupe(out)

    def children(self, e):
        for k in ('c', 'args', 'obj', 'init', 'fexpr', 'cond', 'e'):
            x = e.get(k)
            if isinstance(x, dict):
                yield x
            elif isinstance(x, list):
                for y in x:
                    if isinstance(y, dict):
                        yield y

    def touch(self, s, v, n):
        if v is not None and s.obj.get(v) == GONE:
            self.report('use', n, s, 'the %s is used after it was released' % self.name(v))

    def value(self, e, s):
        """[(state, object e points to | NUL | None)]"""
        k = e['k']
        if k == 'Cast':
            if e.get('ck') == 'NullToPointer':
                return [(s, NUL)]
            return self.value(e['c'][0], s)
        if k == 'Null':
            return [(s, NUL)]
        if k == 'Ref':
            v = s.var.get(e.get('id')) if e.get('id') is not None else None
            return [(s, None if isinstance(v, tuple) and v[0] == 'flag' else v)]
        if k == 'Int':
            return [(s, NUL if e.get('v') == 0 and False else None)]
        if k == 'New':
            return self.new(e, s)
        if k == 'Delete':
            out = []
            for s2, v in self.value(e['c'][0], s):
                s2 = s2.copy()
                if v is not None and v in s2.obj:
                    st = s2.obj[v]
                    if st == GONE:
                        self.report('double', e, s2, 'the %s is released a second time' % self.name(v))
                    elif st == KEPT and v != 'param':
                        self.report('double', e, s2, 'the %s is released although it was handed over' % self.name(v))
                    if st != NUL:
                        s2.obj[v] = GONE
                out.append((s2, None))
            return out
        if k == 'Call':
            return self.call(e, s)
        if k == 'Bin' and e['op'] == '=':
            return self.assign(e, s)
        if k == 'Cond':
            out = []
            cs = e.get('c') or [e['cond'], e['then'], e['else']]
            for s2, b in self.cond(cs[0], s):
                out += self.value(cs[1] if b else cs[2], s2)
            return out
        if k == 'Mem':
            out = []
            for s2, v in self.value(e['c'][0], s):
                if v is not None:
                    self.touch(s2, v, e)
                out.append((s2, None))
            return out
        if k == 'Un' and e['op'] == '*':
            out = []
            for s2, v in self.value(e['c'][0], s):
                if v is not None:
                    self.touch(s2, v, e)
                out.append((s2, v))
            return out
        if k == 'Un' and e['op'] == '&':
            c = strip(e['c'][0])
            if c['k'] == 'Ref' and s.var.get(c.get('id')) is not None:
                s = s.copy()
                self.escape(s, s.var[c['id']])
            return [(s2, v if strip(e['c'][0])['k'] == 'Un' else None) for s2, v in self.value(e['c'][0], s)]
        if k == 'Bin' and e['op'] in ('&&', '||'):
            return [(s2, None) for s2, _b in self.cond(e, s)]
        if k == 'Lambda':
            s = s.copy()
            for v in list(s.var.values()):
                self.escape(s, v)
            return [(s, None)]
        # anything else: its parts, one after the other
        ss = [(s, None)]
        for c in self.children(e):
            out = []
            for s2, _v in ss:
                for s3, v in self.value(c, s2):
                    if v is not None and v != NUL and k in ('Ctor', 'InitList', 'StdIL'):
                        s3 = s3.copy()
                        self.escape(s3, v)
                    out.append((s3, None))
            ss = out
        return ss

    def obtain(self, s, what, n, null):
        o = (what, self.at(n))
        out = []
        s1 = s.copy()
        for v, x in list(s1.var.items()):
            if x == o:
                # a previous object of the same place is still referred to
                o2 = (what, self.at(n), 'earlier')
                s1.obj[o2] = s1.obj.get(o, UNK)
                for w, y in list(s1.var.items()):
                    if y == o:
                        s1.var[w] = o2
                break
        s1.obj[o] = OWNED
        self.sites.add(o)
        out.append((s1, o))
        if null:
            out.append((s.copy('%s: no %s' % (self.at(n), what)), NUL))
        return out

    def new(self, e, s):
        t = self.tu.types[e['at']] if e.get('at') is not None else self.tu.types[self.tu.types[e['t']]['e']]
        out = []
        init = e.get('init')
        ss = [(s, None)] if init is None else self.value(init, s)
        for s2, _ in ss:
            name = t['s'].replace('const ', '')
            if name in self.O.classes and not e.get('arr'):
                out += self.obtain(s2, name, e, False)
            else:
                out.append((s2, None))
        return out

    def call(self, e, s):
        ss = [(s, [], None)]
        ref = e['fn'] if e.get('fn') else None
        if ref is None:
            return [(s2, None) for s2, _ in self.value({'k': 'Other', 'c': list(self.children(e))}, s)]
        obj = e.get('obj')
        if obj is not None:
            ss = [(s2, [], v) for s2, v in self.value(obj, s)]
            if e.get('arrow') or True:
                for s2, _a, v in ss:
                    if v is not None:
                        self.touch(s2, v, e)
        for a in e.get('args', []):
            nx = []
            for s2, vs, o in ss:
                for s3, v in self.value(a, s2):
                    nx.append((s3, vs + [v], o))
            ss = nx
        out = []
        off = 1 if e.get('opm') else 0
        for s2, vs, o in ss:
            s3 = s2.copy()
            tmps = []
            for i, v in enumerate(vs):
                if v is None or v == NUL or v not in s3.obj:
                    continue
                self.touch(s3, v, e)
                a = strip(e['args'][i])
                byref = a['k'] == 'Un' and a['op'] == '*'
                pt = self.tu.types[ref['pt'][i - off]] if 0 <= i - off < len(ref['pt']) else None
                if byref or pt is not None and pt['k'] in ('ref', 'rref') and not self.O.is_owned_ptr(pt, self.tu):
                    if a['k'] == 'Ref':
                        self.escape(s3, v)      # the pointer variable itself is passed by reference
                    tmps.append(v)
                    continue
                fate = self.O.fate(ref, i - off)
                if fate == {OWNED}:
                    tmps.append(v)
                elif s3.obj[v] == OWNED and fate == {KEPT}:
                    s3.obj[v] = KEPT
                elif s3.obj[v] == OWNED and fate == {GONE}:
                    s3.obj[v] = GONE
                elif s3.obj[v] == OWNED and fate == {KEPT, GONE}:
                    s3.obj[v] = KEPT
                elif s3.obj[v] == KEPT and fate == {KEPT, GONE}:
                    s3.obj[v] = UNK
                else:
                    self.escape(s3, v)
            for v in tmps:
                if s3.obj.get(v) == OWNED and v not in s3.var.values() and v != 'param':
                    self.report('leak', e, s3, 'the %s passed to %s is not kept there and is lost' % (self.name(v), ref['n']))
                    s3.obj.pop(v, None)
            rt = self.tu.types[e['t']]
            if self.O.is_owned_ptr(rt, self.tu):
                r, null = self.O.returns(ref)
                if r == 'owned':
                    out += self.obtain(s3, rt['s'].replace('const ', '').rstrip(' *'), e, null)
                    continue
            out.append((s3, None))
        return out

    def assign(self, e, s):
        l, r = strip(e['c'][0]), e['c'][1]
        out = []
        if l['k'] == 'Ref' and self.tu.types[e['t']]['k'] == 'bool' and l.get('id') is not None:
            return [(s2, None) for s2 in self.flag(l['id'], r, s)]
        for s2, v in self.value(r, s):
            if l['k'] == 'Ref':
                s3 = s2.copy()
                if self.O.is_owned_ptr(self.tu.types[e['t']], self.tu):
                    self.bind(s3, l['id'], v)
                    self.drop(s3, e)
                elif v is not None and v != NUL:
                    self.escape(s3, v)
                out.append((s3, v))
                continue
            for s3, _lv in self.value(e['c'][0], s2):
                s3 = s3.copy()
                if v is not None and v != NUL and v in s3.obj:
                    self.touch(s3, v, e)
                    if s3.obj[v] == OWNED:
                        s3.obj[v] = KEPT
                out.append((s3, None))
        return out


def analyse(program, classes):
    """[(function, number of sites, reports | None, reason)] for every function that obtains an owned object"""
    own = Owner(program, classes)
    out = []
    for f in program.fns.values():
        if f.body is None:
            continue
        a = Analysis(own, f)
        try:
            a.run()
        except GiveUp as ex:
            out.append((f, a.sites, None, str(ex)))
            continue
        if a.sites or a.reports:
            out.append((f, a.sites, a.reports, ''))
    return out, own
