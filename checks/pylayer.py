"""Y01-Y03: the Python layer (python/tinyfk/__init__.py) against the binding (PYBIND11_MODULE)."""
import ast
import itertools
import math
import os
from vfa import program as PG
from vfa.check import Check
from vfa import pyflow as PY
from vfa.pyflow import Sym, Arr, Undecided, PyRaise, same, key

PYFILE = 'python/tinyfk/__init__.py'
ASM = [
    'start-up statements of the package module (download of sample files) are not part of the analysed behaviour',
    'numpy arrays follow the documented view/copy, broadcasting and indexing rules (vfa/pyflow.py); pybind11 converts arguments by declared type and arity',
    'what the binding methods compute is decided by the W and K properties; here they are recorders',
]


# ------------------------------------------------------------------ the binding's table
def binding(P):
    """methods, fields, enum of PYBIND11_MODULE(_tinyfk, m)"""
    fs = [f for f in P.fns.values() if f.n == 'pybind11_init__tinyfk' and f.body]
    if len(fs) != 1:
        raise PG.Broken('PYBIND11_MODULE(_tinyfk) not found')
    f = fs[0]
    T = f.tu.types
    tab = {'methods': {}, 'fields': {}, 'enum': {}, 'init': [], 'where': f.where(), 'n': 0, 'unread': []}

    def text(n):
        for x in PG.walk(n):
            if x.get('k') == 'Str':
                return x['v']

    def tname(fn, i):
        ts = P.fns[fn['id']].tu.types if fn['id'] in P.fns else T
        return ts[i]['s']
    nodes = list(PG.walk(f.body))
    for n in nodes:
        if n.get('k') != 'Call' or n.get('obj') is None or not isinstance(n.get('fn'), dict):
            continue
        q = n['fn'].get('n')
        a = n['args']
        if q == 'value' and len(a) >= 2:
            e = [x for x in PG.walk(a[1]) if x.get('k') == 'EnumC']
            tab['n'] += 1
            if e:
                tab['enum'][text(a[0])] = e[0]['n']
            else:
                tab['unread'].append(text(a[0]))
        elif q in ('def_readonly', 'def_readwrite') and len(a) >= 2:
            r = [x for x in PG.walk(a[1]) if x.get('k') in ('Ref', 'MemFn', 'Mem')]
            tab['n'] += 1
            if r:
                tab['fields'][text(a[0])] = r[0].get('n')
        elif q == 'def':
            tab['n'] += 1
            nm = text(a[0]) if a and a[0].get('k') != 'Call' else None
            inits = [x for x in PG.walk(a[0]) if x.get('k') == 'Call' and isinstance(x.get('fn'), dict) and x['fn'].get('n') == 'init']
            if inits:
                continue
            refs = [x for x in PG.walk(a[1]) if x.get('k') == 'FnRef']
            lams = [x for x in PG.walk(a[1]) if x.get('k') == 'Lambda']
            names = []
            for x in a[2:]:
                for y in PG.walk(x):
                    if y.get('k') == 'Str':
                        names.append(y['v'])
            if refs and not lams:
                fn = refs[0]['fn']
                d = P.fns.get(fn['id'])
                ts = d.tu.types if d else T
                pt = d.d['pt'] if d else fn['pt']
                ps = [((d.params[i]['n'] if d and i < len(d.params) else str(i)), ts[t]['s']) for i, t in enumerate(pt)]
                sig = {'target': fn['n'], 'params': ps}
                if names and len(names) >= len(ps):
                    sig['argnames'] = names[:len(ps)]
                tab['methods'].setdefault(nm, []).insert(0, sig)
            else:
                tab['unread'].append(nm)
    if not tab['methods'] or not tab['enum']:
        raise PG.Broken('binding table is empty')
    return tab


class Layer:
    def __init__(self, c):
        c.load(PG.CORE + PG.WRAP)
        c.units.add(PYFILE)
        self.c = c
        self.tab = binding(c.P)
        self.path = os.path.join(PG.REPO, PYFILE)
        self.text = open(self.path).read()
        for a in ASM:
            c.assume(a)

    low = {'j%d' % i: 0 for i in range(12)} | {'e%d' % i: 0 for i in range(12)}     # ids are not negative

    def interp(self, limits=()):
        I = PY.PyInterp(self.path, PY.World(self.tab, limits))
        return I

    def model(self, I, **kw):
        return I.call(self.cls(I), [], kw or {'xml_text': 'URDF'})

    def cls(self, I):
        for v in I.g.v.values():
            if isinstance(v, PY.Cls) and v.name == 'KinematicModel':
                return v
        raise PG.Broken('class KinematicModel not found')

    def enum(self, I, cls, name):
        return I.attr(I.g.v[cls], name)

    def query(self, I, m, name, *args, **kw):
        return I.call(I.attr(m, name), list(args), kw)

    def robot(self, m):
        r = [v for v in m.attrs.values() if isinstance(v, PY.Robot)]
        if len(r) != 1:
            raise Undecided('the model holds %d RobotModels' % len(r))
        return r[0]

    def line(self, name):
        for n in ast.walk(ast.parse(self.text)):
            if isinstance(n, ast.FunctionDef) and n.name == name:
                return '%s:%d' % (PYFILE, n.lineno)
        return PYFILE

    def ob(self, name, rule, fn, f, limits=()):
        """f(I) -> None or what is wrong"""
        if self.c.only and not name.startswith(self.c.only):
            return
        self.c.jobs.append((self.ob1, (name, rule, fn, f, limits)))

    def ob1(self, name, rule, fn, f, limits):
        import time
        t0 = time.time()
        w = self.line(fn)
        c = self.c
        I = None
        plan, r, hole, npaths, steps = [], None, None, 0, 0
        fns = {}
        while plan is not None and npaths < 64:
            npaths += 1
            PY.PATH[0] = path = PY.Paths(plan, self.low)
            I = None
            try:
                I = self.interp(limits)
                r = f(I)
            except PyRaise as e:
                r = 'raises %s' % e
            except Undecided as e:
                hole = str(e)
            except RecursionError:
                hole = 'too deep'
            except PG.Broken:
                raise
            except Exception as e:
                if os.environ.get('VFA_DEBUG'):
                    raise
                hole = 'analysis gave up: %s: %s' % (type(e).__name__, e)
            finally:
                PY.PATH[0] = None
            if I is not None:
                fns.update(I.functions) if isinstance(I.functions, dict) else fns.update((x, 1) for x in I.functions)
                steps += I.steps
            if r:
                if path.hard:
                    hole, r = 'wrong where %s, which may not be possible' % '; '.join(path.text), None
                else:
                    r += ' when ' + '; '.join(path.text) if path.text else ''
                    break
            plan = path.next()
        if plan is not None and not r:
            hole = hole or 'too many paths'
        if hole and not r:
            c.und(name, rule, w, hole, secs=time.time() - t0)
            return
        an = ['%s (%s:%d)' % (n, PYFILE, l) for n, l in sorted(fns, key=lambda x: x[1])]
        c.callsites += steps
        if r:
            c.bad(name, rule, w, r, analysed=an, secs=time.time() - t0)
        else:
            c.ok(name, rule, w, '%d statements and calls on %d paths' % (steps, npaths), analysed=an, secs=time.time() - t0)


def raises(f):
    """the kind of exception f raises, or None"""
    try:
        f()
    except PyRaise as e:
        return e.kind
    return None


def sent(r, target):
    """argument lists of the calls whose binding entry is the C++ function `target`"""
    return [v for n, v in r.calls if any(s['target'] == target for s in r.world.table['methods'][n])]


def one(r, target, want):
    ev = sent(r, target)
    if len(ev) > 1:
        raise Undecided('%d calls of %s' % (len(ev), target))
    if not ev:
        return 'the binding method for %s is not called' % target
    for i, (a, b) in enumerate(zip(ev[0], want)):
        if not same(a, b):
            return '%s receives %s as argument %d, required %s' % (target, show(a), i + 1, show(b))
    return None


def show(v):
    return repr(v)[:300]


def idsyms(p, n):
    return [Sym('%s%d' % (p, i), 'i') for i in range(n)]


def q_rows(n, k):
    return [[Sym('q%d_%d' % (i, j)) for j in range(k)] for i in range(n)]


def give(rows, how):
    if how == 'list of arrays':
        return [PY.to_arr(list(r), 'f') for r in rows]
    if how == 'list of lists':
        return [list(r) for r in rows]
    if how == 'array of integers':
        return Arr((len(rows), len(rows[0]) if rows else 0), [whole(x) for r in rows for x in r], None, 'i')
    if how == 'integers then reals':
        return [Arr((len(r),), [whole(x) for x in r] if i == 0 else list(r), None, 'i' if i == 0 else 'f') for i, r in enumerate(rows)]
    if how == 'list of tuples':
        return [tuple(r) for r in rows]
    if how == 'vector':
        return PY.to_arr(list(rows[0]), 'f')
    return Arr((len(rows), len(rows[0]) if rows else 0), [x for r in rows for x in r], None, 'f')


DOFS = {'FIXED': 0, 'PLANER': 3, 'FLOATING': 6}


def whole(x):
    return Sym(x.t, 'i') if isinstance(x, Sym) else x


def expanded(row, n, base):
    """the row the binding has to receive"""
    if base != 'PLANER':
        return list(row)
    x, y, t = row[n:]
    return list(row[:n]) + [x, y, 0.0, 0.0, 0.0, t]


def columns(J, n, base):
    if base != 'PLANER':
        return J
    return PY.get_item(J, (slice(None), list(range(n)) + [n, n + 1, n + 5]))


def answers(r, kind):
    """P and J of the only batch call, as the recorder returned them"""
    return r.last


def Y01():
    c = Check('Y01', 'The Python layer calls the binding consistently')
    c.technique = 'call-consistency lint of the Python AST against the PYBIND11_MODULE table and value-flow analysis of the Python layer'
    L = Layer(c)
    T = c.tier == 'thorough'
    tab = L.tab
    tree = ast.parse(L.text)
    # every use of a binding name, wherever it is
    cls = [n for n in tree.body if isinstance(n, ast.ClassDef) and n.name == 'KinematicModel']
    if len(cls) != 1:
        raise PG.Broken('class KinematicModel not found')
    holders = {'_robot'}
    parents = {}
    for n in ast.walk(tree):
        for ch in ast.iter_child_nodes(n):
            parents[ch] = n
    names = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Attribute) and n.value.attr in holders and isinstance(n.value.value, ast.Name):
            rule = 'every name used of the binding exists there and is called with the declared number of arguments'
            w = '%s:%d' % (PYFILE, n.lineno)
            names[n.attr] = names.get(n.attr, 0) + 1
            nm = 'site %s#%d' % (n.attr, names[n.attr])
            call = parents.get(n)
            if isinstance(call, ast.Call) and call.func is n:
                if n.attr in tab['unread']:
                    c.und(nm, rule, w, 'binding of %s is not a function reference' % n.attr)
                elif n.attr not in tab['methods']:
                    c.bad(nm, rule, w, 'the binding has no method %s (%s)' % (n.attr, tab['where']))
                elif any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
                    c.und(nm, rule, w, 'argument list is unpacked')
                else:
                    na = len(call.args) + len(call.keywords)
                    ok = [s for s in tab['methods'][n.attr] if len(s['params']) == na and (not call.keywords or s.get('argnames'))]
                    if ok:
                        c.ok(nm, rule, w, '%d arguments' % na)
                    else:
                        c.bad(nm, rule, w, '%s is called with %d arguments%s; the binding declares %s' % (n.attr, na, ' (by keyword)' if call.keywords else '', [len(s['params']) for s in tab['methods'][n.attr]]))
            elif n.attr in tab['fields'] or n.attr in tab['methods']:
                c.ok(nm, rule, w, 'declared')
            elif n.attr in tab['unread']:
                c.und(nm, rule, w, 'binding of %s is not read' % n.attr)
            else:
                c.bad(nm, rule, w, 'the binding has no attribute %s (%s)' % (n.attr, tab['where']))
    for n in ('IGNORE', 'RPY', 'XYZW'):
        def f(I, n=n):
            v = I.attr(L.enum(I, 'RotationType', n), 'value') if False else L.enum(I, 'RotationType', n).attrs['value']
            if not (isinstance(v, PY.Obj) and v.attrs.get('value') == n):
                return 'RotationType.%s stands for %s' % (n, show(v))
        L.ob('rotation type %s' % n, 'enumerators stand for the C++ enumerators of the same name', 'RotationType', f)
    R = 'arguments and results pass through to the parameter of the same meaning'

    # construction
    def f(I):
        m = L.model(I, xml_text='URDF')
        if L.robot(m).text != 'URDF':
            return 'robot is built from %s' % show(L.robot(m).text)
    L.ob('construct from text', R, '__init__', f)

    def f(I):
        m = I.call(L.cls(I), [Sym('path', 's')], {})
        if not same(L.robot(m).text, Sym(('file text of', Sym('path', 's')), 's')):
            return 'robot is built from %s' % show(L.robot(m).text)
    L.ob('construct from file', R, '__init__', f)

    def f(I):
        for kw in ({}, {'urdfpath': 'p', 'xml_text': 't'}):
            if raises(lambda: I.call(L.cls(I), [], kw)) is None:
                return 'a model is built from %s' % (sorted(kw) or 'nothing')
    L.ob('construct from both or neither', 'refused', '__init__', f)

    ids = [7, 3, 5]
    names3 = [Sym('name%d' % i, 's') for i in range(2)]
    same_result = lambda I, m, meth, target, args, want: passes(L, I, m, meth, target, args, want)
    for meth, target, args, want in (
            ('get_joint_names', 'get_joint_names', [], []),
            ('get_joint_ids', 'get_joint_ids', [names3], [names3]),
            ('get_link_ids', 'get_link_ids', [names3], [names3])):
        L.ob(meth, R, meth, lambda I, a=(meth, target, args, want): same_result(I, L.model(I), *a))

    def f(I):
        m = L.model(I)
        I.call(I.attr(m, 'clear_cache'), [], {})
        return one(L.robot(m), 'clear_cache', [])
    L.ob('clear_cache', R, 'clear_cache', f)

    def f(I):
        m = L.model(I)
        v = I.attr(m, 'root_link_name')
        if not same(v, Sym('root name', 's')):
            return 'root_link_name is %s' % show(v)
        v = I.attr(m, 'total_mass')
        if not same(v, Sym('robot.total_mass_')):
            return 'total_mass is %s' % show(v)
    L.ob('properties', R, 'root_link_name', f)
    for n in range(4):
        def f(I, n=n):
            m = L.model(I)
            q = [Sym('q%d' % j) for j in range(n)]
            jt = idsyms('j', n)
            r = L.query(I, m, 'compute_total_inertia_matrix', PY.to_arr(q, 'f'), jt)
            bad = one(L.robot(m), 'compute_total_inertia_matrix', [q, jt])
            return bad or (None if isinstance(r, Arr) and r.flat()[1].t == 'inertia#1[0,1]' and r.shape == (3, 3) else 'returns %s' % show(r))
        L.ob('compute_total_inertia_matrix[n=%d]' % n, R, 'compute_total_inertia_matrix', f)

    inf = math.inf
    lo, hi = Sym('lo'), Sym('hi')
    for i, pat in enumerate(itertools.product([(-inf, inf), (lo, hi), (-inf, hi), (lo, inf)], repeat=2)):
        def f(I, pat=pat):
            m = L.model(I)
            r = L.query(I, m, 'get_joint_limits', [4, 9])
            bad = one(L.robot(m), 'get_joint_position_limits', [[4, 9]])
            if bad:
                return bad
            want = [(None, None) if p == (-inf, inf) else p for p in pat]
            if not same(r, want):
                return 'limits %s are given as %s' % (list(pat), show(r))
        L.ob('get_joint_limits[%s]' % (['none', 'both', 'upper', 'lower'][i // 4] + ',' + ['none', 'both', 'upper', 'lower'][i % 4]), 'a joint without limits gives (None, None), other limits pass through', 'get_joint_limits', f, limits=pat)

    for rp in (True, False):
        def f(I, rp=rp):
            m = L.model(I)
            pos = PY.to_arr([Sym('x'), Sym('y'), Sym('z')], 'f')
            rpy = PY.to_arr([Sym('r'), Sym('p'), Sym('w')], 'f')
            L.query(I, m, 'add_new_link', Sym('name', 's'), 11, pos, *([rpy] if rp else []))
            return one(L.robot(m), 'add_new_link', [Sym('name', 's'), 11, pos, rpy if rp else [0.0, 0.0, 0.0]])
        L.ob('add_new_link[%s]' % ('rpy' if rp else 'no rpy'), R, 'add_new_link', f)

    batches = list(itertools.product(range(0, 5 if T else 4), (1, 2, 3) if T else (1, 2), ('array', 'array of integers', 'vector', 'list of arrays', 'integers then reals', 'list of tuples')))
    for base in DOFS:
        for n, rows, how in batches:
            if how == 'vector' and rows != 1:
                continue
            rs = q_rows(rows, n + DOFS[base])
            jt = idsyms('j', n)
            if not rs[0] and how != 'array':
                continue
            tag = '[base=%s,joints=%d,rows=%d,%s]' % (base, n, rows, how)
            for rot, el, wj, uc in (('IGNORE', idsyms('e', 1)[0], False, False), ('RPY', idsyms('e', 2), True, False), ('XYZW', idsyms('e', 1), True, True)):
                def f(I, rs=rs, n=n, base=base, jt=jt, rot=rot, el=el, wj=wj, uc=uc, how=how):
                    m = L.model(I)
                    kw = {'rot_type': L.enum(I, 'RotationType', rot), 'base_type': L.enum(I, 'BaseType', base), 'with_jacobian': wj, 'use_cache': uc}
                    if base == 'FIXED' and rot == 'XYZW':
                        del kw['base_type']
                    if rot == 'IGNORE':
                        for k in ('rot_type', 'with_jacobian', 'use_cache'):
                            del kw[k]
                    arg = give(rs, how)
                    before = key(arg)
                    res = L.query(I, m, 'solve_fk', arg, list(el) if isinstance(el, list) else el, list(jt), **kw)
                    els = el if isinstance(el, list) else [el]
                    k = {'IGNORE': 3, 'RPY': 6, 'XYZW': 7}[rot]
                    r = L.robot(m)
                    e = L.enum(I, 'RotationType', rot).attrs['value']
                    bad = one(r, 'solve_forward_kinematics', [[expanded(x, n, base) for x in rs], els, jt, e, base != 'FIXED', wj, uc])
                    if bad:
                        return bad
                    if key(arg) != before:
                        return 'the caller\'s angles are overwritten'
                    P = I.world.grid('fk#1.P', len(rs) * len(els), k)
                    if not isinstance(res, (tuple, list)) or len(res) != 2 or not same(res[0], P):
                        return 'poses returned: %s' % show(res)
                    if base != 'PLANER' and wj and not same(res[1], I.world.grid('fk#1.J', len(rs) * len(els) * k, n + DOFS[base])):
                        return 'jacobian returned: %s' % show(res[1])
                L.ob('solve_fk%s[%s]' % (tag, rot), R, 'solve_fk', f)
            for forces in (False, True):
                if how == 'vector':
                    continue

                def f(I, rs=rs, n=n, base=base, jt=jt, forces=forces, how=how):
                    m = L.model(I)
                    kw = {'base_type': L.enum(I, 'BaseType', base), 'with_jacobian': forces}
                    if forces:
                        kw.update(action_link_ids=idsyms('e', 2), action_forces=[Sym('f0'), Sym('f1')])
                    arg = give(rs, how)
                    before = key(arg)
                    res = L.query(I, m, 'solve_com_fk', arg, list(jt), **kw)
                    bad = one(L.robot(m), 'solve_com_forward_kinematics', [[expanded(x, n, base) for x in rs], jt, idsyms('e', 2) if forces else [], [Sym('f0'), Sym('f1')] if forces else [], base != 'FIXED', forces])
                    if bad:
                        return bad
                    if key(arg) != before:
                        return 'the caller\'s angles are overwritten'
                    if not isinstance(res, (tuple, list)) or len(res) != 2 or not same(res[0], I.world.grid('com#1.P', len(rs), 3)):
                        return 'centers of mass returned: %s' % show(res)
                    if base != 'PLANER' and forces and not same(res[1], I.world.grid('com#1.J', 3 * len(rs), n + DOFS[base])):
                        return 'jacobian returned: %s' % show(res[1])
                L.ob('solve_com_fk%s[%s]' % (tag, 'forces' if forces else 'no forces'), R, 'solve_com_fk', f)
            for wj in (False, True):
                if how == 'vector':
                    continue

                def f(I, rs=rs, n=n, base=base, jt=jt, wj=wj, how=how):
                    m = L.model(I)
                    arg = give(rs, how)
                    before = key(arg)
                    res = L.query(I, m, 'compute_inter_link_sqdists', arg, list(zip(idsyms('e', 3), idsyms('e', 6)[3:])), list(jt), base_type=L.enum(I, 'BaseType', base), with_jacobian=wj, use_cache=wj)
                    bad = one(L.robot(m), 'compute_inter_link_squared_dists', [[expanded(x, n, base) for x in rs], idsyms('e', 3), idsyms('e', 6)[3:], jt, base != 'FIXED', wj, wj])
                    if bad:
                        return bad
                    if key(arg) != before:
                        return 'the caller\'s angles are overwritten'
                    if not isinstance(res, (tuple, list)) or len(res) != 2 or not same(res[0], [Sym('sq#1.V[%d]' % i) for i in range(3 * len(rs))]):
                        return 'distances returned: %s' % show(res)
                    if base != 'PLANER' and wj and not same(res[1], I.world.grid('sq#1.J', 3 * len(rs), n + DOFS[base])):
                        return 'jacobian returned: %s' % show(res[1])
                L.ob('compute_inter_link_sqdists%s[%s]' % (tag, wj), R, 'compute_inter_link_sqdists', f)
    # setters, getters
    for base in DOFS:
        for n in range(0, 5 if T else 4):
            def f(I, base=base, n=n):
                m = L.model(I)
                q = [Sym('q%d' % j) for j in range(n + DOFS[base])]
                jt = idsyms('j', n)
                L.query(I, m, 'set_q', jt, PY.to_arr(q, 'f'), *([L.enum(I, 'BaseType', base)] if base != 'FIXED' else []))
                r = L.robot(m)
                bad = one(r, 'set_joint_angles', [jt, q[:n]])
                if bad:
                    return bad
                if base == 'FIXED':
                    return 'the base is moved' if not same(r.base, [0.0] * 6) else None
                return one(r, 'set_base_pose', [expanded(q, n, base)[n:]])
            L.ob('set_q[base=%s,joints=%d]' % (base, n), R, 'set_q', f)

            def f(I, base=base, n=n):
                m = L.model(I)
                r = L.robot(m)
                jt = idsyms('j', n)
                for j in jt:
                    r.angles[PY.slot(j)] = Sym('at %s' % j)
                r.base = [Sym('b%d' % i) for i in range(6)]
                v = L.query(I, m, 'get_q', list(jt), *([L.enum(I, 'BaseType', base)] if base != 'FIXED' else []))
                want = [r.angles[PY.slot(j)] for j in jt] + {'FIXED': [], 'PLANER': [r.base[0], r.base[1], r.base[5]], 'FLOATING': r.base}[base]
                if not same(v, want):
                    return 'get_q gives %s, required %s' % (show(v), show(want))
            L.ob('get_q[base=%s,joints=%d]' % (base, n), R, 'get_q', f)
    c.finish(100)


def passes(L, I, m, meth, target, args, want):
    r = L.query(I, m, meth, *args)
    rb = L.robot(m)
    bad = one(rb, target, want)
    if bad:
        return bad
    # the answer is what the recorder gave
    rb2 = PY.Robot(rb.world, rb.text)
    w = getattr(rb.world, 'm_' + target)(rb2, *want)
    return None if same(r, w) else '%s returns %s' % (meth, show(r))


def Y02():
    c = Check('Y02', 'Planar base means x, y and yaw everywhere')
    c.technique = 'value-flow analysis of the Python layer (abstract arrays of symbols)'
    L = Layer(c)
    T = c.tier == 'thorough'
    R = 'angles then x, y, yaw; z, roll, pitch zero; columns of joints, x, y, yaw'
    for n, rows, how in itertools.product(range(0, 7 if T else 4), (1, 2, 3), ('array', 'array of integers', 'list of arrays', 'integers then reals', 'list of lists')):
        rs = q_rows(rows, n + 3)
        jt = idsyms('j', n)
        tag = '[joints=%d,rows=%d,%s]' % (n, rows, how)
        ex = [expanded(x, n, 'PLANER') for x in rs]
        for rot in ('IGNORE', 'RPY', 'XYZW'):
            def f(I, rs=rs, n=n, jt=jt, rot=rot, how=how, ex=ex):
                m = L.model(I)
                _P, J = L.query(I, m, 'solve_fk', give(rs, how), idsyms('e', 2), list(jt), rot_type=L.enum(I, 'RotationType', rot), base_type=L.enum(I, 'BaseType', 'PLANER'), with_jacobian=True)
                ev = sent(L.robot(m), 'solve_forward_kinematics')
                if len(ev) != 1:
                    raise Undecided('%d calls' % len(ev))
                if not same(ev[0][0], ex):
                    return 'rows sent: %s, required %s' % (show(ev[0][0]), show(ex))
                k = {'IGNORE': 3, 'RPY': 6, 'XYZW': 7}[rot]
                want = columns(I.world.grid('fk#1.J', len(rs) * 2 * k, n + 6), n, 'PLANER')
                if not same(J, want):
                    return 'jacobian has columns %s, required %s' % (show(first(J)), show(first(want)))
            L.ob('solve_fk%s[%s]' % (tag, rot), R, 'solve_fk', f)
        for forces in (False, True):
            def f(I, rs=rs, n=n, jt=jt, how=how, ex=ex, forces=forces):
                m = L.model(I)
                kw = dict(action_link_ids=idsyms('e', 1), action_forces=[Sym('f')]) if forces else {}
                _P, J = L.query(I, m, 'solve_com_fk', give(rs, how), list(jt), base_type=L.enum(I, 'BaseType', 'PLANER'), with_jacobian=True, **kw)
                ev = sent(L.robot(m), 'solve_com_forward_kinematics')
                if len(ev) != 1:
                    raise Undecided('%d calls' % len(ev))
                if not same(ev[0][0], ex):
                    return 'rows sent: %s, required %s' % (show(ev[0][0]), show(ex))
                want = columns(I.world.grid('com#1.J', len(rs) * 3, n + 6), n, 'PLANER')
                if not same(J, want):
                    return 'jacobian has columns %s, required %s' % (show(first(J)), show(first(want)))
            L.ob('solve_com_fk%s[%s]' % (tag, forces), R, 'solve_com_fk', f)

        def f(I, rs=rs, n=n, jt=jt, how=how, ex=ex):
            m = L.model(I)
            _V, J = L.query(I, m, 'compute_inter_link_sqdists', give(rs, how), list(zip(idsyms('e', 2), idsyms('e', 4)[2:])), list(jt), base_type=L.enum(I, 'BaseType', 'PLANER'), with_jacobian=True)
            ev = sent(L.robot(m), 'compute_inter_link_squared_dists')
            if len(ev) != 1:
                raise Undecided('%d calls' % len(ev))
            if not same(ev[0][0], ex):
                return 'rows sent: %s, required %s' % (show(ev[0][0]), show(ex))
            want = columns(I.world.grid('sq#1.J', len(rs) * 2, n + 6), n, 'PLANER')
            if not same(J, want):
                return 'gradient has columns %s, required %s' % (show(first(J)), show(first(want)))
        L.ob('compute_inter_link_sqdists%s' % tag, R, 'compute_inter_link_sqdists', f)
    for n in range(0, 7 if T else 4):
        jt = idsyms('j', n)

        def f(I, n=n, jt=jt):
            m = L.model(I)
            q = [Sym('q%d' % i) for i in range(n + 3)]
            L.query(I, m, 'set_q', list(jt), PY.to_arr(q, 'f'), L.enum(I, 'BaseType', 'PLANER'))
            r = L.robot(m)
            if not same(r.base, [q[n], q[n + 1], 0.0, 0.0, 0.0, q[n + 2]]):
                return 'base set to %s' % show(r.base)
            if not same([r.angles.get(PY.slot(j)) for j in jt], q[:n]):
                return 'angles set to %s' % show(r.angles)
            v = L.query(I, m, 'get_q', list(jt), L.enum(I, 'BaseType', 'PLANER'))
            if not same(v, q):
                return 'get_q gives %s after set_q of %s' % (show(v), show(q))
        L.ob('set_q then get_q[joints=%d]' % n, R, 'set_q', f)

        def f(I, n=n, jt=jt):
            m = L.model(I)
            pl = L.enum(I, 'BaseType', 'PLANER')
            for k in sorted({0, n, n + 1, n + 2, n + 4, n + 6, n + 9} - {n + 3}):
                q = [Sym('q%d' % i) for i in range(k)]
                if raises(lambda: L.query(I, m, 'set_q', list(jt), PY.to_arr(q, 'f'), pl)) is None:
                    return 'set_q accepts %d values for %d joints and a planar base' % (k, n)
                a = Arr((1, k), list(q), None, 'f')
                for meth, args in (('solve_fk', [a, [1], jt]), ('solve_com_fk', [a, jt])):
                    if raises(lambda: L.query(I, m, meth, *args, base_type=pl)) is None:
                        return '%s accepts %d values for %d joints and a planar base' % (meth, k, n)
        L.ob('other lengths are refused[joints=%d]' % n, R, 'set_q', f)
    c.finish(60)


def first(J):
    if isinstance(J, Arr) and len(J.shape) == 2 and J.shape[0]:
        return J.rows()[0]
    return J


# ------------------------------------------------------------------ pickling
def Y03():
    c = Check('Y03', 'Pickling preserves added links and configuration')
    c.technique = 'value-flow analysis of the Python layer (operation histories over symbolic values)'
    L = Layer(c)
    T = c.tier == 'thorough'
    R = 'the restored model has the added links, angles and base of the original'

    class Ops:
        """one history: what is done to a model, and how the caller goes on using its arguments"""

        def __init__(self, I, m):
            self.I, self.m, self.k = I, m, 0

        def sym(self, n):
            self.k += 1
            return [Sym('v%d_%d' % (self.k, i)) for i in range(n)]

        def run(self, op):
            I, m = self.I, self.m
            pl, fl = L.enum(I, 'BaseType', 'PLANER'), L.enum(I, 'BaseType', 'FLOATING')
            if op == 'link':
                self.k += 1
                L.query(I, m, 'add_new_link', 'tip%d' % self.k, 4, PY.to_arr(self.sym(3), 'f'), PY.to_arr(self.sym(3), 'f'))
            elif op == 'link without rpy':
                self.k += 1
                L.query(I, m, 'add_new_link', 'tip%d' % self.k, 2, PY.to_arr(self.sym(3), 'f'))
            elif op == 'link on link':
                self.k += 1
                L.query(I, m, 'add_new_link', 'tip%d' % self.k, 1000, PY.to_arr(self.sym(3), 'f'))
            elif op == 'set':
                L.query(I, m, 'set_q', [3, 5], PY.to_arr(self.sym(2), 'f'))
            elif op == 'set first':
                L.query(I, m, 'set_q', [0], PY.to_arr(self.sym(1), 'f'))
            elif op == 'link on root':
                self.k += 1
                L.query(I, m, 'add_new_link', 'tip%d' % self.k, 0, PY.to_arr(self.sym(3), 'f'), PY.to_arr(self.sym(3), 'f'))
            elif op == 'set other':
                L.query(I, m, 'set_q', [5, 8, 1], PY.to_arr(self.sym(3), 'f'))
            elif op == 'set planar':
                L.query(I, m, 'set_q', [3], PY.to_arr(self.sym(4), 'f'), pl)
            elif op == 'set floating':
                L.query(I, m, 'set_q', [5, 3], PY.to_arr(self.sym(8), 'f'), fl)
            elif op == 'set, then reuse the arrays':
                q, j = PY.to_arr(self.sym(2), 'f'), [3, 5]
                L.query(I, m, 'set_q', j, q)
                PY.set_item(q, 0, Sym('overwritten'))
                j[0] = 9
            elif op == 'link, then reuse the arrays':
                self.k += 1
                p, r = PY.to_arr(self.sym(3), 'f'), PY.to_arr(self.sym(3), 'f')
                L.query(I, m, 'add_new_link', 'tip%d' % self.k, 4, p, r)
                PY.set_item(p, 1, Sym('overwritten'))
                PY.set_item(r, 2, Sym('overwritten'))
            elif op == 'taken link name':
                if raises(lambda: L.query(I, m, 'add_new_link', 'taken', 4, PY.to_arr(self.sym(3), 'f'))) is None and \
                        raises(lambda: L.query(I, m, 'add_new_link', 'taken', 4, PY.to_arr(self.sym(3), 'f'))) is None:
                    return 'a taken link name is accepted'
            elif op == 'set of wrong length':
                if raises(lambda: L.query(I, m, 'set_q', [3, 5], PY.to_arr(self.sym(5), 'f'))) is None:
                    return 'set_q accepts 5 values for 2 joints'
            elif op == 'planar set of wrong length':
                if raises(lambda: L.query(I, m, 'set_q', [3, 5], PY.to_arr(self.sym(2), 'f'), pl)) is None:
                    return 'set_q accepts 2 values for 2 joints and a planar base'
            elif op == 'link of wrong size':
                if raises(lambda: L.query(I, m, 'add_new_link', 'flat', 4, PY.to_arr(self.sym(2), 'f'))) is None:
                    return 'a position of two values is accepted'
            elif op == 'pickle':
                r0 = L.robot(m).state()
                m2 = I.pickled(m)
                if L.robot(m2) is L.robot(m):
                    return 'the restored model shares the robot of the original'
                if L.robot(m).state() != r0:
                    return 'pickling changes the original'
                if L.robot(m2).state() != r0:
                    a, b = L.robot(m), L.robot(m2)
                    return 'restored: links %s angles %s base %s; original: links %s angles %s base %s' % (
                        b.added, b.angles, b.base, a.added, a.angles, a.base)
                self.old = m
                self.m = m2
            elif op == 'deepcopy':
                m2 = PY.deepcopy(I, m)
                if L.robot(m2).state() != L.robot(m).state():
                    return 'the copy differs: %s, original %s' % (L.robot(m2).state(), L.robot(m).state())
                self.m = m2
            elif op == 'back to the original':
                r = L.robot(self.m).state()
                L.query(I, self.old, 'set_q', [3, 5], PY.to_arr(self.sym(2), 'f'))
                L.query(I, self.old, 'add_new_link', 'later', 4, PY.to_arr(self.sym(3), 'f'))
                if L.robot(self.m).state() != r:
                    return 'using the original changes the restored model'
            elif op == 'another model':
                o = L.model(I)
                L.query(I, o, 'set_q', [3, 7], PY.to_arr(self.sym(2), 'f'))
                L.query(I, o, 'add_new_link', 'elsewhere', 4, PY.to_arr(self.sym(3), 'f'))
            else:
                raise KeyError(op)

    good = ['link', 'link without rpy', 'set', 'set other', 'set planar', 'set floating']
    more = ['set first', 'link on root']
    odd = ['set, then reuse the arrays', 'link, then reuse the arrays', 'taken link name', 'set of wrong length', 'planar set of wrong length', 'link of wrong size', 'another model']
    hist = []
    for k in range(0, 4 if T else 3):
        for ops in itertools.product(good + odd, repeat=k):
            hist.append(ops + ('pickle',))
    for a in itertools.product(good + odd, repeat=1):
        hist.append(a + ('pickle', 'pickle'))
        hist.append(a + ('deepcopy', 'pickle'))
        for b in good + odd:
            hist.append(a + ('pickle', b, 'pickle'))
            if T:
                hist.append(a + ('pickle', b, 'pickle', 'pickle'))
    for a in more:
        for b in more + good:
            hist += [(a, b, 'pickle'), (b, a, 'pickle'), (a, 'pickle', b, 'pickle')]
    # longer histories, in which every operation counts
    seq = ['set first', 'link', 'set other', 'link on root', 'set', 'link without rpy', 'set floating', 'set first', 'link on link', 'set planar', 'set', 'link on link']
    for k in range(3, len(seq) + 1):
        hist += [tuple(seq[:k]) + ('pickle',), tuple(seq[-k:]) + ('pickle', 'pickle'), tuple(x for x in seq[:k] if 'set' in x) + ('pickle',), tuple(x for x in seq[:k] if 'link' in x and x != 'link on link') + ('pickle',)]
        for cut in range(1, k):
            hist.append(tuple(seq[:cut]) + ('pickle',) + tuple(seq[cut:k]) + ('pickle',))
    hist = list(dict.fromkeys(hist))
    hist.append(('link', 'set', 'pickle', 'back to the original', 'pickle'))
    hist.append(('link', 'link on link', 'set planar', 'set', 'pickle', 'pickle', 'pickle'))

    # histories share an analysis of the module: group them to keep the number of workers' starts small
    groups = {}
    for h in hist:
        groups.setdefault(h[0], []).append(h)

    for h in hist:
        def f(I, h=h):
            m = L.model(I)
            o = Ops(I, m)
            for i, op in enumerate(h):
                try:
                    r = o.run(op)
                except PyRaise as e:
                    return 'step %d (%s) raises %s' % (i + 1, op, e)
                if r:
                    return 'step %d (%s): %s' % (i + 1, op, r)
        L.ob('history[%s]' % ' / '.join(h), R, '__setstate__', f)
    c.finish(100)
