"""Effects on storage that outlives one model or document: which functions store into variables with static
storage duration (globals, static data members, static locals), hand them out for writing, initialise them
from the data of whoever comes first, or change settings of the whole process.

A use of such a variable is followed outwards through the expression it is part of, through local references
and pointers to it, through the functions that return it and into the functions it is passed to by reference."""

# library functions that change or depend on state of the whole process
PROCESS = {'setlocale', 'std::setlocale', 'std::locale::global', 'srand', 'std::srand', 'rand', 'std::rand', 'random', 'srandom', 'drand48', 'lrand48',
           'setenv', 'putenv', 'unsetenv', 'clearenv', 'strtok', 'std::strtok', 'chdir', 'umask', 'fesetround', 'std::fesetround', 'feenableexcept', 'fedisableexcept',
           'signal', 'std::signal', 'std::set_new_handler', 'std::set_terminate', 'std::ios_base::sync_with_stdio',
           'localtime', 'gmtime', 'asctime', 'ctime', 'tmpnam', 'std::atexit', 'atexit'}
# members of library types that give access to what the object holds, without changing it
ACCESS = {'begin', 'end', 'rbegin', 'rend', 'data', 'front', 'back', 'at', 'find', 'get', 'operator[]', 'operator()', 'operator*', 'operator->', 'c_str',
          'lower_bound', 'upper_bound', 'equal_range', 'block', 'row', 'col', 'segment', 'head', 'tail', 'topRows', 'leftCols', 'coeffRef', 'x', 'y', 'z', 'value', 'top'}
MUTATE = {'push_back', 'emplace_back', 'pop_back', 'insert', 'emplace', 'erase', 'clear', 'resize', 'reserve', 'assign', 'append', 'swap', 'reset', 'push',
          'pop', 'operator=', 'operator+=', 'operator-=', 'operator*=', 'operator/=', 'operator<<', 'operator>>', 'operator++', 'operator--', 'merge', 'str',
          'setZero', 'setIdentity', 'setConstant', 'conservativeResize', 'fill', 'imbue', 'store', 'exchange', 'fetch_add', 'fetch_sub', 'try_emplace',
          'insert_or_assign', 'extract', 'push_front', 'emplace_front', 'pop_front', 'remove', 'sort', 'reverse', 'lock', 'setf', 'precision', 'flags'}
OUT = {'std::swap': (0, 1), 'std::getline': (0, 1), 'std::exchange': (0,), 'std::iter_swap': (0, 1), 'memcpy': (0,), 'memset': (0,), 'strcpy': (0,), 'strncpy': (0,),
       'sprintf': (0,), 'snprintf': (0,), 'std::memcpy': (0,), 'std::memset': (0,), 'std::strcpy': (0,), 'std::strncpy': (0,), 'memmove': (0,), 'std::snprintf': (0,), 'strcat': (0,)}


def kids(n):
    for key, v in n.items():
        if key in ('fn', 'caps'):
            continue
        if isinstance(v, dict) and 'k' in v:
            yield key, None, v
        elif isinstance(v, list):
            for i, x in enumerate(v):
                if isinstance(x, dict):
                    if 'k' in x:
                        yield key, i, x
                    else:                      # switch cases, catch handlers and other unnamed groups
                        for k2, v2 in x.items():
                            if isinstance(v2, dict) and 'k' in v2:
                                yield key, i, v2
                            elif isinstance(v2, list):
                                for y in v2:
                                    if isinstance(y, dict) and 'k' in y:
                                        yield key, i, y


def calls(f):
    todo = [f.body]
    while todo:
        n = todo.pop()
        if n['k'] == 'Call' and n.get('fn'):
            yield n
        todo += [c for _, _, c in kids(n)]


class Use:
    def __init__(self, kind, node, why):
        self.kind, self.node, self.why = kind, node, why       # write | open | returned


class Shared:
    def __init__(self, P):
        self.P = P
        self.memo = {}
        self.parents = {}
        self.returners = {}
        fns = [f for f in P.fns.values() if f.body is not None]
        # functions that return a way to write static storage
        for _ in range(4):
            new = {}
            for f in fns:
                if self.mutable_result(f):
                    for r, name in self.roots(f):
                        if any(u.kind == 'returned' for u in self.follow(f, r, 'static')):
                            new[f.id] = name
            if new == self.returners:
                break
            self.returners = new
            self.memo = {}

    # ------------------------------------------------------------ types
    def T(self, f, i):
        return f.tu.types[i]

    def constant(self, t):
        while t['k'] == 'array':
            t = t['tu'].types[t['e']]
        return bool(t.get('const'))

    def target(self, t):
        """what a reference or pointer type refers to, None for others"""
        if t['k'] in ('ref', 'rref', 'ptr'):
            return t['tu'].types[t['e']]
        return None

    def opens(self, t):
        e = self.target(t)
        return e is not None and not self.constant(e)

    def smart(self, t):
        return t['k'] == 'rec' and t['s'].replace('const ', '').startswith(('std::shared_ptr<', 'std::unique_ptr<', 'std::weak_ptr<'))

    def mutable_result(self, f):
        t = self.T(f, f.d['rt']) if isinstance(f.d.get('rt'), int) else None
        return t is not None and (self.opens(t) or self.smart(t))

    # ------------------------------------------------------------ tree
    def tree(self, f):
        if f.id not in self.parents:
            m = {}
            todo = [f.body] + [e['e'] for e in f.d.get('inits', ()) if isinstance(e.get('e'), dict)]
            seen = list(todo)
            while todo:
                n = todo.pop()
                for key, i, c in kids(n):
                    m[id(c)] = (n, key, i)
                    todo.append(c)
                    seen.append(c)
            self.parents[f.id] = (m, seen)
        return self.parents[f.id]

    def is_static(self, f, n):
        if n['k'] != 'Ref' or not n.get('global'):
            return False
        if n.get('static'):
            return True
        q = n.get('q') or ''
        return q in self.P.globals or any(k[1] == n.get('id') for k in self.P.globals if isinstance(k, tuple))

    def roots(self, f):
        _, seen = self.tree(f)
        out = []
        for n in seen:
            if self.is_static(f, n):
                t = self.T(f, n['vt']) if n.get('vt') is not None else self.T(f, n['t'])
                if not (self.constant(t) and t['k'] not in ('ptr',) and not self.smart(t)):
                    out.append((n, n.get('q') or n.get('n')))
            elif n['k'] == 'Call' and n.get('fn') and n['fn']['id'] in self.returners:
                out.append((n, self.returners[n['fn']['id']]))
        return out

    def where(self, f, n):
        fl = f.file
        return '%s:%s' % (fl.split('/repo/')[-1], n.get('l') or n.get('line') or f.line)

    # ------------------------------------------------------------ following one expression outwards
    def follow(self, f, node, mode, depth=0, seen=None):
        """uses of the storage `node` designates; mode 'static'/'lvalue' (the object itself) or 'pointer' (a variable pointing to it)"""
        seen = set() if seen is None else seen
        if id(node) in seen or depth > 12:
            return []
        seen.add(id(node))
        par, _ = self.tree(f)
        cur, ptr, out = node, mode == 'pointer', []
        while True:
            if id(cur) not in par:
                return out
            p, key, i = par[id(cur)]
            k = p['k']
            t = self.T(f, p['t']) if isinstance(p.get('t'), int) else None
            if k == 'Cast':
                ck = p.get('ck')
                if ck == 'LValueToRValue':
                    if t['k'] == 'ptr' and not self.constant(self.target(t)):
                        ptr = False
                    else:
                        return out
                elif ck == 'ArrayToPointerDecay':
                    if self.constant(self.target(t)):
                        return out
                elif ck == 'NoOp':
                    x = self.target(t) if t['k'] == 'ptr' else t
                    if self.constant(x):
                        return out
                elif ck in ('ToVoid', 'PointerToBoolean', 'FloatingToIntegral', 'IntegralToFloating', 'IntegralCast', 'PointerToIntegral'):
                    return out
            elif k == 'Mem':
                if ptr and p.get('arrow'):
                    ptr = False
            elif k == 'Sub':
                if i != 0:
                    return out
            elif k == 'Un':
                op = p['op']
                if op in ('++', '--'):
                    if not ptr:
                        return out + [Use('write', p, '%s%s' % (op, ''))]
                    return out
                if op not in ('*', '&'):
                    return out
            elif k == 'Bin':
                if p['op'] == '=' and i == 0:
                    return out if ptr else out + [Use('write', p, 'assignment')]
                if p['op'] == '=':
                    l = p['c'][0]
                    if l['k'] == 'Ref' and not l.get('global') and t and t['k'] == 'ptr':
                        for n in self.refs(f, l.get('id')):
                            out += self.follow(f, n, 'pointer', depth + 1, seen)
                        return out
                    return out + ([Use('open', p, 'stored elsewhere')] if t and t['k'] == 'ptr' else [])
                if p['op'] == ',' and i == 1 or p['op'] in ('+', '-') and t and t['k'] == 'ptr':
                    pass
                else:
                    return out
            elif k == 'CAssign':
                return out + [Use('write', p, 'compound assignment')] if i == 0 and not ptr else out
            elif k == 'Cond':
                if i == 0:
                    return out
            elif k == 'Call':
                step = self.call(f, p, key, i, cur, depth, out)
                if step is not True:
                    return out
            elif k in ('Ctor',):
                fn = p['fn']
                pt = [self.T(f, x) for x in fn['pt']]
                if fn.get('copy') and (i or 0) < len(pt) and not self.opens(pt[i or 0]):
                    rt = t
                    if rt is not None and self.smart(rt):
                        cur = p
                        continue
                    return out
                if (i or 0) < len(pt) and self.opens(pt[i or 0]):
                    out.append(Use('open', p, 'handed to a constructor'))
                return out
            elif k == 'Var':
                vt = self.T(f, p['t'])
                if p.get('static') or p.get('global'):
                    return out + ([Use('open', p, 'kept in another variable')] if self.opens(vt) else [])
                if vt['k'] in ('ref', 'rref') and not self.constant(self.target(vt)):
                    for n in self.refs(f, p['id']):
                        out += self.follow(f, n, 'lvalue', depth + 1, seen)
                elif vt['k'] == 'ptr' and not self.constant(self.target(vt)) or self.smart(vt):
                    for n in self.refs(f, p['id']):
                        out += self.follow(f, n, 'pointer', depth + 1, seen)
                elif vt['k'] == 'rec' and ('iterator' in vt['s']):
                    for n in self.refs(f, p['id']):
                        out += self.follow(f, n, 'pointer', depth + 1, seen)
                return out
            elif k == 'RangeFor' and key == 'range':
                v = p['var']
                vt = self.T(f, v['t'])
                if self.opens(vt):
                    for n in self.refs(f, v['id']):
                        out += self.follow(f, n, 'lvalue', depth + 1, seen)
                return out
            elif k == 'Return':
                rt = self.T(f, f.d['rt'])
                if self.opens(rt) or self.smart(rt):
                    out.append(Use('returned', p, 'returned for writing'))
                return out
            elif k in ('Mat', 'InitList', 'StdIL'):
                pass
            elif k == 'Delete':
                return out + [Use('write', p, 'deleted')]
            elif k in ('Expr', 'Block', 'If', 'For', 'While', 'Do', 'Decl', 'Switch', 'Case', 'Default', 'Throw', 'SizeOf', 'New', 'Try', 'RangeFor', 'Label', 'ArrCopy'):
                return out
            else:
                return out + [Use('open', p, 'used in %s' % k)]
            cur = p

    def refs(self, f, i):
        _, seen = self.tree(f)
        return [n for n in seen if n['k'] == 'Ref' and n.get('id') == i]

    def call(self, f, p, key, i, cur, depth, out):
        """True: go on outwards from the call's result"""
        fn = p.get('fn')
        if fn is None:
            out.append(Use('open', p, 'passed to a function value'))
            return
        rt = self.T(f, fn['rt'])
        gives = self.opens(rt) or self.smart(rt) or rt['k'] == 'rec' and 'iterator' in rt['s'] or rt['k'] == 'rec' and 'Block<' in rt['s']
        if key == 'obj' or p.get('opm') and key == 'args' and i == 0:
            if fn.get('const'):
                return True if gives and (self.smart(self.T(f, cur['t'])) or fn['n'] in ('operator*', 'operator->', 'get')) else None
            if fn.get('repo'):
                return self.into(f, p, fn, 'this', depth, out, gives)
            rec = fn.get('rec') or ''
            if fn['n'] == 'operator[]' and 'map' in rec or fn['n'] in MUTATE:
                out.append(Use('write', p, fn['q']))
                return
            if fn['n'] in ACCESS:
                return True
            out.append(Use('open', p, 'non-const member %s' % fn['q']))
            return
        if key != 'args':
            return
        j = i - 1 if p.get('opm') else i
        if j >= len(fn['pt']):
            return
        pt = self.T(f, fn['pt'][j])
        if not self.opens(pt):
            return True if self.smart(pt) and gives else None
        if fn.get('repo'):
            return self.into(f, p, fn, j, depth, out, gives)
        base = fn['q']
        if j in OUT.get(base, ()):
            out.append(Use('write', p, base))
            return
        if fn['n'] in ('operator<<', 'operator>>', 'operator+=', 'operator='):
            out.append(Use('write', p, base))
            return
        if fn['n'] in ('forward', 'move', 'begin', 'end', 'ref', 'addressof', 'back_inserter', 'inserter'):
            return True
        out.append(Use('open', p, 'handed to %s' % base))

    def into(self, f, p, fn, what, depth, out, gives):
        g = self.P.fns.get(fn['id'])
        if g is None or g.body is None or depth > 6:
            if fn.get('defaulted'):
                out.append(Use('write', p, fn['q']))
            else:
                out.append(Use('open', p, 'handed to %s' % fn['q']))
            return
        k = (g.id, what)
        if k not in self.memo:
            self.memo[k] = []
            us = []
            if what == 'this':
                _, seen = self.tree(g)
                for n in [n for n in seen if n['k'] == 'This']:
                    us += self.follow(g, n, 'lvalue', depth + 1)
                for e in g.d.get('inits', ()):
                    pass
            else:
                pr = g.params[what]
                mode = 'pointer' if self.T(g, pr['t'])['k'] == 'ptr' else 'lvalue'
                for n in self.refs(g, pr['id']):
                    us += self.follow(g, n, mode, depth + 1)
            self.memo[k] = us
        us = self.memo[k]
        for u in us:
            if u.kind == 'write':
                out.append(Use('write', p, 'in %s: %s' % (fn['q'], u.why)))
                return
        for u in us:
            if u.kind == 'open':
                out.append(Use('open', p, 'in %s: %s' % (fn['q'], u.why)))
                return
        return True if gives and any(u.kind == 'returned' for u in us) else None

    # ------------------------------------------------------------ what a function does
    def varying(self, f, e, deep=0):
        """does the value of e depend on the parameters, locals or object of the function?"""
        if deep > 6:
            return None
        todo = [e]
        while todo:
            n = todo.pop()
            if n['k'] == 'This':
                return 'this object'
            if n['k'] == 'Ref' and not n.get('global') and 'cv' not in n and 'cvf' not in n:
                if n.get('param'):
                    return 'parameter %s' % n.get('n')
                d = self.local(f, n.get('id'))
                if d is None or not self.constant(self.T(f, d['t'])) or d.get('init') is None:
                    return 'variable %s' % n.get('n')
                r = self.varying(f, d['init'], deep + 1)
                if r:
                    return r
            if n['k'] == 'Lambda':
                for c in n.get('caps', ()):
                    if c.get('this'):
                        return 'this object'
                    if c.get('id') is not None:
                        return 'variable %s' % c.get('n')
            todo += [c for _, _, c in kids(n)]
        return None

    def local(self, f, i):
        _, seen = self.tree(f)
        for n in seen:
            if n['k'] == 'Var' and n.get('id') == i:
                return n
        return None

    def effects(self, f):
        """[(kind, where, text)] of one function; kind 'write' or 'open'"""
        out, seen = [], set()
        for r, name in self.roots(f):
            for u in self.follow(f, r, 'static', 0, seen):
                if u.kind in ('write', 'open'):
                    out.append((u.kind, self.where(f, u.node), '%s: %s' % (name, u.why), name))
        _, nodes = self.tree(f)
        for n in nodes:
            if n['k'] == 'Var' and n.get('static') and n.get('init') is not None:
                v = self.varying(f, n['init'])
                if v:
                    out.append(('write', self.where(f, n), '%s: takes its value from the %s of the first call' % (n['n'], v), n['n']))
            if n['k'] == 'Call' and n.get('fn') and n['fn']['q'] in PROCESS:
                out.append(('write', self.where(f, n), '%s: state of the whole process' % n['fn']['q'], n['fn']['q']))
        return out
