"""Rigid composition as an associative opaque operation for normal forms, with its exact
meaning (quaternion and vector arithmetic) when a value is interpreted."""
from .terms import *
from . import terms as TM
from .values import *
from . import cmp as CM

FIELDS = [('position', 'x'), ('position', 'y'), ('position', 'z'),
          ('rotation', 'x'), ('rotation', 'y'), ('rotation', 'z'), ('rotation', 'w')]


def components(v):
    p, r = get_field(v, 'position'), get_field(v, 'rotation')
    return [get_field(p, 'x'), get_field(p, 'y'), get_field(p, 'z'),
            get_field(r, 'x'), get_field(r, 'y'), get_field(r, 'z'), get_field(r, 'w')]


def node_of(v):
    """the composition a pose value is, if it is one"""
    cs = components(v)
    node = None
    for k, c in enumerate(cs):
        a = atom_of(c)
        if a is None or a.op != 'app' or a.args[0] != 'cmp' or a.args[1] is not const(k):
            return None
        if node is not None and a.args[2] is not node:
            return None
        node = a.args[2]
    return node


def is_identity(v):
    return [const_val(c) for c in components(v)] == [0, 0, 0, 0, 0, 0, 1]


def pose_struct(tmpl, comps):
    pos = get_field(tmpl, 'position')
    rot = get_field(tmpl, 'rotation')
    p2 = struct(pos.args[0], list(zip('xyz', comps[:3])))
    r2 = struct(rot.args[0], list(zip('xyzw', comps[3:])))
    return struct(tmpl.args[0], [('position', p2), ('rotation', r2)])


def compose(A, B):
    parts = []
    for v in (A, B):
        if is_identity(v):
            continue
        n = node_of(v)
        parts += list(n.args[1:]) if n is not None else [v]
    if not parts:
        return A
    if len(parts) == 1:
        return parts[0]
    node = mk('app', 'COMPOSE', *parts)
    cs = [num(mk('app', 'cmp', const(k), node, sort='r')) for k in range(7)]
    declare_unit(*[atom_of(c) for c in cs[3:]])
    return pose_struct(A, cs)


def qmul(a, b):
    return (a[3] * b[0] + a[0] * b[3] + a[1] * b[2] - a[2] * b[1],
            a[3] * b[1] - a[0] * b[2] + a[1] * b[3] + a[2] * b[0],
            a[3] * b[2] + a[0] * b[1] - a[1] * b[0] + a[2] * b[3],
            a[3] * b[3] - a[0] * b[0] - a[1] * b[1] - a[2] * b[2])


def rotate(q, v):
    t = qmul(qmul(q, (v[0], v[1], v[2], 0.0)), (-q[0], -q[1], -q[2], q[3]))
    n = q[0] ** 2 + q[1] ** 2 + q[2] ** 2 + q[3] ** 2
    if n < 1e-12:
        raise CM.Uneval('zero quaternion')
    return tuple(x / n for x in t[:3])


def evaluate(m, node, be):
    key = ('COMPOSE', node) if not be else None
    if key is not None and key in m.memo:
        return m.memo[key]
    p, q = (0.0, 0.0, 0.0), (0.0, 0.0, 0.0, 1.0)
    for v in node.args[1:]:
        c = [m.ev(x, be) for x in components(v)]
        r = rotate(q, c[:3])
        p = tuple(a + b for a, b in zip(p, r))
        q = qmul(q, tuple(c[3:]))
    out = p + q
    if key is not None:
        m.memo[key] = out
    return out


def ev_cmp(m, t, be):
    return evaluate(m, t.args[2], be)[int(const_val(t.args[1]))]


CM.EXACT['cmp'] = ev_cmp


def install(I):
    def s_pt(self, n, st, fr, ctx):
        vals = []
        for a in n['args']:
            t = self.deref_type(self.T(fr, a['t']))
            ad = self.obj_addr(a, False, st, fr, ctx)
            v = self.load(st, ad, t)
            if v.op != 'struct':
                return None
            vals.append(v)
        return compose(*vals)
    I.summaries['urdf::pose_transform'] = s_pt


def unit_rotations(*owners):
    """quaternions stored in the fields owners are unit"""
    from . import facts as F

    def w(r):
        if r.op == 'app' and r.args[0] in owners:
            a = mk('app', '.w', r, sort='r')
            if a not in TM._unit_w:
                declare_unit(*[mk('app', c, r, sort='r') for c in ('.x', '.y', '.z')], a)
            return a
        return None
    F.hook('.w', w)
