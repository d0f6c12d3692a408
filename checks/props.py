"""The rule set of each property."""
import itertools
from vfa import heapmodel as HM
from vfa import owner as OW
from vfa import program as PG
from vfa.check import Check
from vfa import facts as F
from vfa import posealg as PA
from vfa import terms as TM
from vfa import xmlmodel as XM


def K02():
    c = Check('K02', 'Rigid transform algebra')
    c.load(['urdf_parser/src/pose.cpp'], 'K02.cpp')
    c.pairs()
    c.assume('real arithmetic (rounding is not modelled); rotations are unit quaternions')
    c.finish(21)


def gimbal_models():
    """interpretations of a unit quaternion around pitch +-90 degrees"""
    import math
    out = []
    for k, d in enumerate((0.0, 1e-4, -1e-4, 1e-3, -1e-3, 3e-3, -3e-3, 4.2e-3, -4.2e-3, 4.6e-3, 6e-3, 1e-2, 2e-2)):
        for sg in (1, -1):
            def comp(m, t, d=d, sg=sg):
                if t.args[1].op != 'app' or t.args[1].args[0] != 'arg:q':
                    return None
                a, c = m.real('roll'), m.real('yaw') * 1.3
                p = sg * (math.pi / 2 - d)
                f, th, ps = a / 2, p / 2, c / 2
                s, k = math.sin, math.cos
                return {'.x': s(f) * k(th) * k(ps) - k(f) * s(th) * s(ps), '.y': k(f) * s(th) * k(ps) + s(f) * k(th) * s(ps),
                        '.z': k(f) * k(th) * s(ps) - s(f) * s(th) * k(ps), '.w': k(f) * k(th) * k(ps) + s(f) * s(th) * s(ps)}[t.args[0]]
            out.append({n: comp for n in ('.x', '.y', '.z', '.w')})
    return out


def K03():
    c = Check('K03', 'Roll-pitch-yaw and quaternion conversions agree')
    c.load(['urdf_parser/src/pose.cpp'], 'K03.cpp')
    g = dict(fixeds=gimbal_models(), tol=0.02)
    c.opts = {'near_gimbal': g, 'near_gimbal_vec': g, 'two_readings': dict(tol=0.02)}
    c.pairs()
    c.assume('real arithmetic; inside the switching zone (|sin pitch| >= 0.99999) the angles are those of the nearest rotation at +-90 degrees')
    c.finish(16)


def K04():
    c = Check('K04', 'Joint motion matches the joint type')
    c.load(['urdf_parser/src/pose.cpp'], 'K04.cpp')
    c.pairs()
    c.assume('real arithmetic; the joint axis has unit length (established by K16/U02)')
    c.finish(4)


def K05():
    c = Check('K05', 'No stale answers after a change')
    c.load(PG.CORE + PG.URDF, 'K05.cpp')
    su = world_poses(c)
    chg = list(range(12))
    for s in (2, 3):
        ls = WORLD[s][0]
        t = '{robot %d}' % s
        ws = [1, 2, 4, 31] if c.tier == 'thorough' else [31]
        c.pair(c.spec_fn('L_poses'), consts=dict(s=[s], w=sorted({1} | set(ws)), c=chg), setup=su, tag=t)
        c.pair(c.spec_fn('L_latest'), consts=dict(s=[s], c=[0, 3, 4, 5, 6, 7, 8, 10], n=ls if c.tier == 'thorough' else ls[:2]), setup=su, tag=t)
        c.pair(c.spec_fn('L_jacobian'), consts=dict(s=[s], w=ws, c=chg, rt=[0, 1, 2] if c.tier == 'thorough' else [1, 2]), setup=su, tag=t)
        for n in ('L_com', 'L_com_jacobian', 'L_inertia'):
            c.pair(c.spec_fn(n), consts=dict(s=[s], w=ws, c=chg), setup=su, tag=t)
        c.pair(c.spec_fn('L_partly_warm'), consts=dict(s=[s], w=ls, c=chg if c.tier == 'thorough' else [2, 3], n=ls), setup=su, tag=t)
    c.assume('robots: the enumerated shapes of spec/world.h; every number in them and in the configurations is symbolic')
    c.finish(100)


def K06():
    c = Check('K06', 'The pose cache and the transform stack are faithful containers')
    c.load([], 'K06.cpp')
    c.pairs()
    c.assume('indices and element counts stay inside the capacity given to the containers (K18)')
    c.finish(20)


# robot shapes (parent link id per link id): ids are not in chain order on purpose
SHAPES = {
    'root only': [None],
    'one joint': [1, None],
    'two joints': [2, 0, None],
    'three joints': [None, 3, 1, 0],
    'four joints': [3, None, 1, 4, 2],
    'branch': [2, 2, None, 0, 1, 0],
}
SHAPES_T = {
    'five joints': [4, None, 0, 1, 3, 2],
    'six joints': [4, None, 0, 1, 3, 2, 5],
    'comb': [None, 0, 1, 2, 0, 1, 2],
}


def ancestors(sh, k):
    out = []
    while sh[k] is not None:
        out.append(k)
        k = sh[k]
    return out + [k]


# the robots of spec/world.h: links and movable joints in id order
WORLD = {1: (['a', 'b'], ['j']), 2: (['a', 'b', 'c', 'd'], ['ja', 'jz']), 3: (['a', 'b', 'c', 'd', 'e'], ['j2', 'j3', 'j4'])}


def world_poses(c):
    def setup(I):
        world_setup(c)(I)
        PA.install(I)
    return setup


def K01():
    c = Check('K01', 'A link pose is the base pose composed with its chain of joints')
    c.load(PG.CORE + PG.URDF, 'K01.cpp', 'K01W.cpp', 'K02.cpp', 'K04.cpp')
    for s in WORLD:
        ls = WORLD[s][0]
        c.pair(c.spec_fn('L_world_pose'), consts=dict(s=[s], link=ls, before=ls), setup=world_poses(c))
        c.pair(c.spec_fn('L_world_warm'), consts=dict(s=[s], link=ls), setup=world_poses(c))
    c.pairs('pose_compose')
    c.pairs('motion')
    shapes = dict(SHAPES)
    if c.tier == 'thorough':
        shapes.update(SHAPES_T)
    for name, sh in shapes.items():
        n = len(sh)
        deep = max(range(n), key=lambda k: len(ancestors(sh, k)))
        chain = ancestors(sh, deep)
        caches = [()] + [(k,) for k in chain[:-1]] + ([tuple(chain[1:-1])] if len(chain) > 3 else [])
        for ca in caches:
            def setup(I, sh=sh, ca=ca):
                F.tree(sh, cached=ca)
                PA.install(I)
                PA.unit_rotations('.base_pose_', '.rotation')
            tag = '{%s; cached %s}' % (name, list(ca))
            c.pair(c.spec_fn('L_pose'), consts=dict(id=[deep], shape=[0], cached=[0]), setup=setup, tag=tag)
            c.pair(c.spec_fn('L_out_ignored'), consts=dict(id=[deep], shape=[0], cached=[0]), setup=setup, tag=tag)
            if n > 1:
                c.pair(c.spec_fn('L_coherent'), consts=dict(id=[deep], j=chain[:-1] + [k for k in range(n) if k not in chain][:1], shape=[0], cached=[0]), setup=setup, tag=tag, throws=False, vacuous=True)
        if n > 1:
            def setup(I, sh=sh):
                F.tree(sh, cached=())
                PA.install(I)
                PA.unit_rotations('.base_pose_', '.rotation')
            c.pair(c.spec_fn('L_again'), consts=dict(id=[deep], j=list(range(n)), shape=[0], cached=[0]), setup=setup, tag='{%s}' % name, throws=False)
            c.pair(c.spec_fn('L_again'), consts=dict(id=list(range(n)), j=[deep], shape=[0], cached=[0]), setup=setup, tag='{%s}' % name, throws=False)
    c.assume('every non-root link has a parent joint; ids and positions in the link list agree (K14, K16); rotations are unit')
    c.assume('tree shapes: chains up to %d joints and branching trees of the listed shapes, every single cached ancestor; all other inputs symbolic' % (6 if c.tier == 'thorough' else 4))
    c.finish(40)


def opaque_poses(I):
    """get_link_pose answers an unknown unit pose per link id (its meaning is K01)"""
    def s_pose(self, n, st, fr, ctx):
        if len(n['args']) != 2:
            return None
        lid = self.rv(n['args'][0], st, fr, ctx)
        out = self.ev(n['args'][1], st, fr, ctx)
        t = self.deref_type(self.T(fr, n['args'][1]['t']))
        self.store(st, out, self.symval(t, TM.mk('app', 'POSE', lid)))
        return TM.mk('void')
    for q in ('get_link_pose', 'get_link_pose_inner'):
        I.summaries['tinyfk::KinematicModel::' + q] = s_pose
    PA.unit_rotations('.rotation')


def model_facts(I):
    F.ids()
    F.sizes()
    F.nonnull_elems()


def jac_setup(I):
    model_facts(I)
    opaque_poses(I)


ROBOTS = 'robots: the enumerated shapes of spec/world.h; every number in them and in the configurations is symbolic'


def K07():
    c = Check('K07', 'Queries do not change the model')
    c.load(PG.CORE + PG.URDF, 'K07.cpp')
    su = world_poses(c)
    for s in (2, 3):
        for n in ('L_unchanged', 'L_poses_after', 'L_com_after', 'L_inertia_after', 'L_jacobian_after', 'L_com_jacobian_after'):
            c.pair(c.spec_fn(n), consts=dict(s=[s], q=list(range(12))), setup=su, tag='{robot %d}' % s)
        c.pair(c.spec_fn('L_two_models'), consts=dict(s=[s]), setup=su, tag='{robot %d}' % s)
    c.assume(ROBOTS)
    c.finish(100)


def K08():
    c = Check('K08', 'Jacobian joint columns are the derivatives of the pose')
    c.load(PG.CORE + PG.URDF, 'K08.cpp', 'K08W.cpp')
    s = jac_setup
    su = world_poses(c)
    for r in (2, 3):
        ls, js = WORLD[r]
        t = '{robot %d}' % r
        c.pair(c.spec_fn('L_world_column'), consts=dict(s=[r], l=ls, j=js, rt=[0, 1, 2], wb=[False]), setup=su, tag=t)
        c.pair(c.spec_fn('L_world_among'), consts=dict(s=[r], l=ls if c.tier == 'thorough' else ls[:2], j=js, rt=[0, 1, 2]), setup=su, tag=t)
        c.pair(c.spec_fn('L_world_added'), consts=dict(s=[r], l=ls[:1], j=js, rt=[0, 1, 2]), setup=su, tag=t)
        c.pair(c.spec_fn('L_world_moved'), consts=dict(s=[r], l=ls[:1], j=js, rt=[0, 1, 2]), setup=su, tag=t)
    c.opts = {'joint_columns': dict(consts=dict(rt=[0, 1, 2]), setup=s), 'default_args': dict(setup=s),
              'columns_with_base': dict(consts=dict(rt=[2], r=[0, 3, 6]), setup=s), 'rpy_rates': {}}
    for n in c.opts:
        c.pairs(n)
    c.assume('joint columns: any model state, with the link poses as K01 gives them; from construction on: ' + ROBOTS)
    c.finish(30)


def K09():
    c = Check('K09', 'Jacobian shape and base columns')
    c.load(PG.CORE + PG.URDF, 'K09.cpp')
    s = jac_setup
    c.opts = {'shape': dict(consts=dict(rt=[0, 1, 2]), setup=s),
              'base_position': dict(consts=dict(rt=[0, 1, 2], k=[0, 1, 2]), setup=s),
              'base_rotation': dict(consts=dict(rt=[0, 1, 2], k=[0, 1, 2]), setup=s, tol=1e-4)}
    c.pairs()
    c.finish(5)


def K10():
    c = Check('K10', 'Joint relevance is ancestry')
    c.load(PG.CORE + PG.URDF, 'K10.cpp')
    su = world_poses(c)
    for s in WORLD:
        ls, js = WORLD[s]
        t = '{robot %d}' % s
        for n in ('L_described',):
            c.pair(c.spec_fn(n), consts=dict(s=[s], l=ls, j=js), setup=su, tag=t)
        for n in ('L_added', 'L_added_twice'):
            c.pair(c.spec_fn(n), consts=dict(s=[s], p=ls, j=js), setup=su, tag=t)
        c.pair(c.spec_fn('L_others'), consts=dict(s=[s], p=ls if c.tier == 'thorough' else ls[-2:], l=ls, j=js), setup=su, tag=t)
        if s > 1:
            c.pair(c.spec_fn('L_com_frame'), consts=dict(s=[s], l=['a', 'b'], j=js), setup=su, tag=t)
        c.pair(c.spec_fn('P_zero_column'), consts=dict(s=[s], l=ls, j=js, rt=[0, 1, 2]), setup=su, tag=t, vacuous=True)
    c.assume(ROBOTS)
    c.finish(60)


def opaque_jacobian(I):
    def s_jac(self, n, st, fr, ctx):
        from vfa.values import mat, lam, kvar, kval
        a = n['args']
        lid = self.rv(a[0], st, fr, ctx)
        ids = self.rv(a[1], st, fr, ctx)
        rt = self.rv(a[2], st, fr, ctx) if len(a) > 2 else TM.ZERO
        wb = self.rv(a[3], st, fr, ctx) if len(a) > 3 else TM.FALSE
        from vfa.values import vec_n
        nn = vec_n(ids)
        rows = TM.mux(TM.eqn(rt, TM.ZERO), TM.const(3), TM.mux(TM.eqn(rt, TM.ONE), TM.const(6), TM.const(7)))
        cols = TM.add(nn, TM.mux(wb, TM.const(6), TM.ZERO))
        K = [kvar(90, 'i'), kvar(91, 'i')]
        root = TM.mk('app', 'JAC', lid, ids, rt, wb)
        return mat(rows, cols, lam(K, TM.num(TM.mk('app', 'at', root, kval(K[0]), kval(K[1]), sort='r'))))
    I.summaries['tinyfk::KinematicModel::get_jacobian'] = s_jac


def jac_of_state(c):
    """world robots where get_jacobian answers an unknown function of its arguments, the joint angles and the base"""
    def setup(I):
        world_poses(c)(I)

        def s_jac(self, n, st, fr, ctx):
            from vfa.values import mat, lam, kvar, kval, vec_n
            a = n['args']
            this = self.obj_addr(n['obj'], n.get('arrow'), st, fr, ctx)
            lid = self.rv(a[0], st, fr, ctx)
            ids = self.rv(a[1], st, fr, ctx)
            rt = self.rv(a[2], st, fr, ctx) if len(a) > 2 else TM.ZERO
            wb = self.rv(a[3], st, fr, ctx) if len(a) > 3 else TM.FALSE
            KM = 'tinyfk::KinematicModel'
            q = self.load(st, self.field_addr(this, KM, 'joint_angles_'))
            b = self.load(st, self.field_addr(this, KM, 'base_pose_'))
            nn = vec_n(ids)
            rows = TM.mux(TM.eqn(rt, TM.ZERO), TM.const(3), TM.mux(TM.eqn(rt, TM.ONE), TM.const(6), TM.const(7)))
            cols = TM.add(nn, TM.mux(wb, TM.const(6), TM.ZERO))
            K = [kvar(90, 'i'), kvar(91, 'i')]
            root = TM.mk('app', 'JAC', lid, ids, rt, wb, q, b)
            return mat(rows, cols, lam(K, TM.num(TM.mk('app', 'at', root, kval(K[0]), kval(K[1]), sort='r'))))
        I.summaries['tinyfk::KinematicModel::get_jacobian'] = s_jac
    return setup


def world_setup(c):
    def setup(I):
        given = c.spec_fn('given')

        def s_parse(self, n, st, fr, ctx):
            args = self.eval_args(n['args'], given, st, fr, ctx)
            return self.call_fn(given, None, args, st, ctx, fr, n)
        I.summaries['urdf::parseURDF'] = s_parse
        I.faults = True
    return setup


def mass_setup(c):
    """facts about a model state, plus: total_mass_ is the sum of the masses (K16)"""
    def setup(I):
        jac_setup(I)
        fn = c.spec_fn('inv_mass')
        if fn is not None and fn.body is not None:
            v = c.eval(I, fn, {})[0]
            I.analysed.clear()
            R = F.model_root()
            F.hook('.total_mass_', lambda r: v if r is R else None)
    return setup


def K11():
    c = Check('K11', 'Center of mass is the mass-weighted average')
    c.load(PG.CORE + PG.URDF, 'K11.cpp', 'K11W.cpp')
    ms = mass_setup(c)

    def js(I):
        ms(I)
        opaque_jacobian(I)
    su = world_poses(c)
    for r in (2, 3):
        t = '{robot %d}' % r
        c.pair(c.spec_fn('L_world_com'), consts=dict(s=[r], x=[0, 1, 2]), setup=su, tag=t)
        c.pair(c.spec_fn('L_world_com_changed'), consts=dict(s=[r], x=[0, 1]), setup=su, tag=t)
        c.pair(c.spec_fn('L_world_com_jacobian'), consts=dict(s=[r], x=[0, 1], wb=[False, True]), setup=su, tag=t)
        c.pair(c.spec_fn('L_world_com_velocity'), consts=dict(s=[r], j=WORLD[r][1]), setup=su, tag=t)
    c.pair(c.spec_fn('L_com'), setup=ms)
    c.pair(c.spec_fn('L_com_jacobian'), setup=js, consts=dict(wb=[False, True]))
    c.assume('the formulas: any model state, with the link poses as K01 gives them; from construction on: ' + ROBOTS)
    c.finish(15)


def K12():
    c = Check('K12', 'Total inertia follows the parallel axis theorem')
    c.load(PG.CORE + PG.URDF, 'K12.cpp', 'K11W.cpp')
    su = world_poses(c)
    for r in (2, 3):
        c.pair(c.spec_fn('L_world_inertia'), consts=dict(s=[r], x=[0, 1, 2]), setup=su, tag='{robot %d}' % r)
    c.pair(c.spec_fn('L_inertia'), setup=mass_setup(c))
    c.assume('the formula: any model state, with the link poses as K01 gives them; from construction on: ' + ROBOTS)
    c.finish(4)


def K13():
    c = Check('K13', 'Names and ids are consistent')
    c.load(PG.CORE + PG.URDF, 'K13.cpp', 'K13W.cpp')
    su = world_poses(c)
    for r in WORLD:
        ls, js = WORLD[r]
        t = '{robot %d}' % r
        f = lambda fn, **k: c.pair(c.spec_fn(fn), consts=dict(k, s=[r]), setup=su, tag=t)
        f('P_world_link_roundtrip', x=[0, 1, 2])
        f('P_world_joint_roundtrip', x=[0, 1, 2])
        f('P_world_order', a=ls[:2], b=ls[-2:])
        c.pair(c.spec_fn('P_world_distinct'), consts=dict(s=[r], a=ls, b=ls), setup=su, tag=t, vacuous=True)
        f('L_world_unknown_link', a=ls[:1], x=[0, 1, 2, 3])
        f('L_world_unknown_joint', a=js[:1], x=[0, 1, 2, 3])
        f('L_world_not_a_joint', n=ls + {2: ['jf'], 3: ['j1']}.get(r, []))
    for n in ('L_joint_ids', 'L_link_ids', 'L_joint_names', 'L_link_names'):
        c.pair(c.spec_fn(n), setup=model_facts)
    c.assume('lookup: any model state; from construction on: ' + ROBOTS)
    c.finish(30)


def K14():
    c = Check('K14', 'User-added links')
    c.load(PG.CORE + PG.URDF, 'K14.cpp')
    su = world_poses(c)
    for s in WORLD:
        ls, js = WORLD[s]
        t = '{robot %d}' % s
        f = lambda fn, **k: c.pair(c.spec_fn(fn), consts=dict(k, s=[s]), setup=su, tag=t)
        for n in ('L_pose', 'L_pose_rpy', 'L_follows', 'L_returned', 'P_returned_is_it', 'P_unmoved', 'L_own_name_twice', 'L_mass'):
            f(n, p=ls)
        for n in ('L_pose_second', 'L_names'):
            f(n, p=ls, q=ls[:1] + ['n'])
        f('L_others', p=ls[:1], q=ls + ['n'])
        f('L_id', p=ls[:2], n=ls + ['n', 'a0'])
        for n in ('L_taken', 'L_taken_rpy', 'L_no_trace'):
            f(n, p=ls[:1] + ls[-1:], n=ls)
        if s > 1:
            f('L_pose_com', p=['a', 'b'])
            f('L_com', p=ls)
            f('L_inertia', p=ls)
            f('L_no_trace', p=ls[:1], n=['a_com', 'b_com'])
            f('L_taken', p=ls[:1], n=['a_com', 'b_com'])
    c.assume(ROBOTS)
    c.finish(100)


def K15():
    c = Check('K15', 'Joint limits')
    c.load(PG.CORE, 'K15.cpp')
    c.pairs(setup=model_facts)
    c.finish(3)


def K16():
    c = Check('K16', 'Construction')
    c.load(PG.CORE + PG.URDF, 'K16.cpp')
    su = world_poses(c)
    c.pair(c.spec_fn('L_built'), consts=dict(s=list(range(9))), setup=su)
    for n in ('P_joints', 'L_dof', 'L_link_count', 'L_root', 'P_zero_angles', 'L_identity_base', 'L_total_mass', 'L_com_links'):
        c.pair(c.spec_fn(n), consts=dict(s=list(WORLD) + [0]), setup=su)
    for s in WORLD:
        ls, js = WORLD[s]
        for n in ('L_joint_child', 'L_joint_name', 'L_joint_id'):
            c.pair(c.spec_fn(n), consts=dict(s=[s], n=js), setup=su, tag='{robot %d}' % s)
        for n in ('L_link_name', 'L_link_id', 'P_no_inertial', 'L_parent', 'L_zero_pose'):
            c.pair(c.spec_fn(n), consts=dict(s=[s], n=ls), setup=su, tag='{robot %d}' % s)
        for n in ('L_inertial', 'L_com_inertial', 'L_com_pose'):
            c.pair(c.spec_fn(n), consts=dict(s=[s], n=ls), setup=su, tag='{robot %d}' % s, vacuous=True)
    c.assume('robots: the enumerated shapes of spec/world.h; every number in them is symbolic')
    c.finish(30)


def K17():
    c = Check('K17', 'Angles and base pose are stored as given')
    c.load(PG.CORE, 'K17.cpp')
    c.pairs(setup=model_facts)
    c.finish(10)


def K18():
    c = Check('K18', 'Queries stay inside their containers')
    c.load(PG.CORE + PG.URDF, 'K18.cpp')
    su = world_poses(c)
    for s in [0] + list(WORLD):
        ls, js = WORLD.get(s, (['a'], []))
        t = '{robot %d}' % s
        f = lambda fn, **k: c.defined(c.spec_fn(fn), consts=dict(k, s=[s]), setup=su, tag=t)
        for n in ('D_built', 'D_poses', 'D_com', 'D_getters', 'D_two_models'):
            f(n)
        f('D_pose', l=ls)
        f('D_jacobian', l=ls, rt=[0, 1, 2])
        f('D_no_columns', l=ls[:1], rt=[0, 1, 2])
        f('D_refused', l=ls)
        f('D_few_angles', n=list(range(len(js) + 2)))
        f('D_limits')
        ns = [1, 2, 3, 6] if c.tier == 'thorough' else [1, 3]
        f('D_added', p=ls, n=ns)
        f('D_added_between', p=ls, n=ns)
        f('D_added_jacobian', p=ls, n=ns[-1:])
        f('D_added_com', p=ls[:1], n=ns[-1:])
    c.assume(ROBOTS)
    c.finish(50)


def xml_setup(counts=None, robot=None, wellformed=False):
    def setup(I):
        XM.Xml(counts, robot, wellformed).install(I)
    return setup


def U01():
    c = Check('U01', 'Malformed joints are rejected')
    c.load(PG.URDF, 'U01.cpp', 'U05.cpp')
    c.pair(c.spec_fn('L_accepted'), setup=xml_setup())
    for js, k in (([('j', 'a', 'b')], 0), ([('j', 'a', 'b'), ('k', 'a', 'c')], 0), ([('j', 'a', 'b'), ('k', 'a', 'c')], 1)):
        for what in ('no name', 'no type', 'other type', 'unreadable origin', 'unreadable rotation', 'arbitrary'):
            d = robot('abc'[:len(js) + 1], js)
            i = [x for x, e in enumerate(d.kids) if e.tag == 'joint'][k]
            e = joint(*js[k], type='?' if what in ('other type', 'arbitrary') else 'fixed', open=what == 'arbitrary')
            e.absent.add('origin')
            if what[:3] == 'no ':
                del e.attrs[what[3:]]
            if what[:10] == 'unreadable':
                e.kids.append(N_('origin', {'xyz' if what.endswith('origin') else 'rpy': '?'}))
            d.kids[i] = e
            c.pair(c.spec_fn('L_model'), setup=xml_setup(None, d), tag='{robot whose joint %d of %d has %s}' % (k, len(js), what))
    c.assume('an element answers Attribute and FirstChildElement as the document interface defines; number texts are those U07 decides')
    c.finish(1)


def U02():
    c = Check('U02', 'Joint attributes reach their fields')
    c.load(PG.URDF, 'U02.cpp')
    f = lambda fn, **k: c.pair(c.spec_fn(fn), consts=k, setup=xml_setup())
    f('L_text', k=[0, 1, 2, 3])
    f('L_type')
    f('L_origin', i=list(range(7)))
    f('L_axis', i=[0, 1, 2])
    f('L_part', k=list(range(7)))
    f('L_number', k=list(range(14)))
    c.assume('an element answers Attribute and FirstChildElement as the document interface defines; number texts are those U07 decides')
    c.finish(36)


DOM = 'an element answers Attribute, FirstChildElement and NextSiblingElement as the document interface defines; number texts are those U07 decides'


def parts(v, c, inertial=None):
    d = dict(visual=v, collision=c)
    if inertial is not None:
        d['inertial'] = inertial
    return xml_setup(d), '{%d visuals, %d collisions}' % (v, c)


def U03():
    c = Check('U03', 'Link attributes reach their fields')
    c.load(PG.URDF, 'U03.cpp')
    T = c.tier == 'thorough'
    f = lambda fn, su, **k: c.pair(c.spec_fn(fn), consts=k, setup=su[0], tag=su[1])
    for su in [parts(0, 0), parts(1, 0), parts(0, 1)] + ([parts(1, 1)] if T else []):
        f('L_name', su)
        f('L_heavy', su)
        f('L_inertial', su, k=list(range(14)))
        f('L_counts', su)
        f('P_first', su)
    ns = (1, 2, 3) if T else (1, 2)
    for w in (0, 1):
        for n in ns:
            su = parts(n if w == 0 else 0, n if w else 0, 0)
            f('L_counts', su)
            f('P_first', su)
            for k in range(n):
                f('L_origin', su, w=[w], n=[k], i=list(range(7)))
                f('L_part_name', su, w=[w], n=[k])
                f('L_shape', su, w=[w], n=[k])
                f('L_size', su, w=[w], n=[k], i=[0, 1, 2])
                f('L_file', su, w=[w], n=[k])
    c.assume(DOM)
    c.finish(100)


def U04():
    c = Check('U04', 'Malformed links are detected')
    c.load(PG.URDF, 'U04.cpp')
    for su in [parts(0, 0), parts(1, 0), parts(0, 1), parts(2, 0, 0), parts(0, 2, 0), parts(1, 1, 0)]:
        c.pair(c.spec_fn('L_accepted'), setup=su[0], tag=su[1])
    c.assume(DOM)
    c.finish(6)

N_ = XM.Node


def robot(links, joints, mats=(), version=None, name='r', tag='robot', extra=()):
    """links: names; joints: (name, parent, child) with None for an absent element, '' for an element without link"""
    kids = [material(m) for m in mats]
    kids += [N_('link', {'name': l}) for l in links]
    for j in joints:
        kids.append(joint(*j))
    a = {} if name is None else {'name': name}
    if version is not None:
        a['version'] = version
    return N_(tag, a, kids + list(extra))


MATERIAL = {'': ['color'], "'": ['texture'], '"': ['color', 'texture'], '.': []}


def material(m):
    """x, or x followed by what it defines: ' a texture, " a color and a texture, . nothing"""
    ks = {'color': N_('color', {'rgba': '+'}), 'texture': N_('texture', {'filename': '+'})}
    return N_('material', {'name': m[0]}, [ks[k] for k in MATERIAL[m[1:]]])


def joint(name, p, c, type='fixed', open=False):
    ks = [N_(w, {'link': x} if x else {}) for w, x in (('parent', p), ('child', c)) if x is not None]
    return N_('joint', {'name': name, 'type': type}, ks, open=open, absent={'parent', 'child'})


def described(d):
    return ' '.join('%s%s' % (k.tag[0], ':'.join([str(k.attrs.get('name'))] + [str(c.attrs.get('link', '')) for c in k.kids if c.tag in ('parent', 'child')])) for k in d.kids)


def graphs(T):
    import itertools
    for n in (1, 2, 3) + ((4,) if T else ()):
        ls = 'abcd'[:n]
        ends = [(p, c) for p in ls for c in ls]
        for m in range(0, n + 1 if n < 4 else n):
            for js in itertools.combinations_with_replacement(ends, m):
                yield ls, [('jkmn'[i], p, c) for i, (p, c) in enumerate(js)]


def U05():
    c = Check('U05', 'Only valid trees are accepted')
    c.load(PG.URDF, 'U05.cpp')
    T = c.tier == 'thorough'
    f = lambda d, t=None: c.pair(c.spec_fn('L_valid'), setup=xml_setup(None, d), tag='{%s}' % (t or described(d)))
    f('none', 'no element')
    f(robot('a', [], tag='sdf'), 'other root element')
    f(robot('a', [], name=None), 'robot without a name')
    for v in ('1.0', '1', '1.', '.0', '', '1.1', '0.1', '2.0', '10.0', '1.0.0', 'a.b', '1.b', '1.0a', '-1.0', '1,0', '4294967297.0', '1.4294967296'):
        f(robot('a', [], version=v), 'version %s' % v)
    for ms in ('x', 'xy', 'xx', 'xyx', 'yxx'):
        f(robot('a', [], mats=ms))
    for k in itertools.product(MATERIAL, repeat=2):
        for ms in (['x' + k[0], 'x' + k[1]], ['x' + k[0], 'y' + k[1]]) + ((['x' + k[0], 'y', 'x' + k[1]],) if k[0] <= k[1] else ()):
            if k != ('', ''):
                f(robot('a', [], mats=ms), 'materials ' + ' '.join(ms))
    # what stands where does not matter
    for a in itertools.permutations(range(4)):
        for ls, js, ms in (('ab', [('j', 'a', 'b')], 'x'), ('ab', [('j', 'a', 'b')], 'xx'), ('aba', [('j', 'a', 'b')], ''), ('ab', [('j', 'a', 'b'), ('k', 'b', 'a')], ''), ('abc', [('j', 'a', 'b')], ''), ('ab', [('j', 'a', 'b'), ('j', 'a', 'b')], '')):
            d = robot(ls, js, mats=ms)
            if len(d.kids) == 4 or len(d.kids) == 3 and a[3] == 3:
                d.kids = [d.kids[i] for i in a if i < len(d.kids)]
                f(d)
    # links and joints with content
    for ls, js in (('ab', [('j', 'a', 'b')]), ('abc', [('j', 'a', 'b'), ('k', 'b', 'c')]), ('aba', [('j', 'a', 'b')]), ('ab', [('j', 'a', 'b'), ('j', 'a', 'b')]), ('abc', [('j', 'a', 'b'), ('k', 'b', 'a')]), ('abc', [('j', 'a', 'c'), ('k', 'b', 'c')])):
        for where in range(len(js)):
            d = robot(ls, js)
            i = [x for x, e in enumerate(d.kids) if e.tag == 'joint'][where]
            d.kids[i] = joint(*js[where], type='?', open=True)
            d.kids[i].absent |= {'origin', 'axis', 'dynamics', 'safety_controller', 'calibration', 'mimic'}
            f(d, described(d) + ', joint %d of any type' % where)
        for where in range(len(ls)):
            d = robot(ls, js)
            e = [x for x in d.kids if x.tag == 'link'][where]
            e.kids.append(N_('inertial', {}, [N_('mass', {'value': '+'}), N_('inertia', {k: '+' for k in ('ixx', 'ixy', 'ixz', 'iyy', 'iyz', 'izz')})]))
            f(d, described(d) + ', link %d with mass' % where)
    for ls in ('', 'aa', 'aba', 'baa', 'abcb'):
        f(robot(ls, []))
    for js in ([('j', 'a', 'b'), ('j', 'b', 'z')], [('j', 'a', 'b'), ('j', 'b', 'a')]):
        f(robot('ab', js))
    for js in ([('j', 'a', 'b'), ('j', 'b', 'c')], [('j', 'a', 'b'), ('k', 'b', 'c'), ('j', 'c', 'd')], [('k', 'b', 'c'), ('j', 'a', 'b'), ('j', 'a', 'd')]):
        f(robot('abcd', js))
    for p in (None, '', 'a', 'z'):
        for q in (None, '', 'b', 'z'):
            f(robot('ab', [('j', p, q)]))
            f(robot('bac', [('k', 'a', 'c'), ('j', p, q)]))
    for ls, js in graphs(T):
        f(robot(ls, js))
        if js != js[::-1]:
            f(robot(ls[::-1], js[::-1]))
    c.assume(DOM)
    c.finish(200)


def is_tree(ls, js):
    up = {c: p for _j, p, c in js}
    if len(js) != len(ls) - 1 or len(up) != len(js):
        return False
    for l in ls:
        for _ in ls:
            l = up.get(l, l)
        if l in up:
            return False
    return True


def U06():
    c = Check('U06', 'Parent and child links mirror the joints')
    c.load(PG.URDF, 'U05.cpp')
    T = c.tier == 'thorough'
    done = set()
    for ls, js in list(graphs(True)):
        if not is_tree(ls, js) or (len(ls) == 4 and not T and (js[0][1:], js[1][1:]) not in done and len(done) > 5):
            continue
        if len(ls) == 4:
            done.add((js[0][1:], js[1][1:]))
        for a, b in ((ls, js), (ls[::-1], js[::-1])):
            d = robot(a, b)
            su, t = xml_setup(None, d), '{%s}' % described(d)
            c.pair(c.spec_fn('L_root'), setup=su, tag=t)
            c.pair(c.spec_fn('L_size'), consts=dict(k=[0, 1]), setup=su, tag=t)
            for fn in ('L_parent', 'L_parent_joint', 'P_children', 'P_pointers'):
                c.pair(c.spec_fn(fn), consts=dict(k=list(range(len(ls)))), setup=su, tag=t)
            if len(js) < 2:
                break
    c.assume(DOM)
    c.finish(100)


def texts(T):
    """texts of n words, with extra spaces in every place"""
    ws = 'p q r s t u'.split()
    out = []
    for n in range(0, 7 if T else 6):
        base = ws[:n]
        out.append(' '.join(base))
        for k in range(n + 1):
            out.append((' '.join(base[:k]) + '  ' + ' '.join(base[k:])) if 0 < k < n else (' ' + ' '.join(base)) if k == 0 else ' '.join(base) + ' ')
        if T or n in (2, 3, 4):
            out.append('  ' + '  '.join(base) + ' ')
    out += ['pp q rst', 'p\tq r', 'p q\n r', 'pq r st u']
    return list(dict.fromkeys(out))


def U07():
    c = Check('U07', 'Numbers are parsed fully and independently of locale')
    c.load(PG.URDF, 'U07.cpp')
    f = lambda fn, **k: c.pair(c.spec_fn(fn), consts=k, setup=XM.numerals, types=True)
    f('L_number')
    ts = texts(c.tier == 'thorough')
    f('L_vector', t=ts, i=[0, 1, 2])
    f('L_color_ok', t=ts)
    f('L_color', t=ts, i=[0, 1, 2, 3])
    f('L_written')
    f('L_written_list', n=[0, 1, 2, 3, 4])
    f('L_written_vector')
    f('L_written_rotation')
    f('L_written_color')
    c.assume('what a text reads as in a locale is the same function of the text for every stream; the words of a text are arbitrary')
    c.finish(60)


def origins(k):
    return [] if k == 0 else [N_('origin', {a: '+' for a in (('xyz',), ('rpy',), ('xyz', 'rpy'))[k - 1]})]


def full_joint(type, o=3, axis='+', parts=('limit', 'safety_controller', 'calibration', 'mimic', 'dynamics'), leave=()):
    """a joint with these parts and all their attributes but some"""
    ats = dict(limit='lower upper effort velocity', safety_controller='soft_lower_limit soft_upper_limit k_position k_velocity', calibration='rising falling',
               mimic='joint multiplier offset', dynamics='damping friction')
    ks = origins(o) + ([N_('axis', {'xyz': axis} if axis else {})] if axis is not None else [])
    ks += [N_('parent', {'link': 'a'}), N_('child', {'link': 'b'})]
    ks += [N_(p, {a: ('?' if a == 'joint' else '+') for a in ats[p].split() if p + '.' + a not in leave}) for p in parts]
    return N_('joint', {'name': 'j', 'type': type}, ks)


def exported_joints(T):
    opt = 'limit.lower limit.upper safety_controller.soft_lower_limit safety_controller.soft_upper_limit safety_controller.k_position calibration.rising calibration.falling mimic.multiplier mimic.offset dynamics.damping dynamics.friction'.split()
    for t in ('revolute', 'continuous', 'prismatic', 'floating', 'planar', 'fixed'):
        yield t, full_joint(t)
        yield t + ', bare', full_joint(t, 0, None, ('limit',) if t in ('revolute', 'prismatic') else ())
    for o in (1, 2):
        yield 'revolute, origin %d' % o, full_joint('revolute', o, '', ('limit',))
    for a in opt:
        yield 'no ' + a, full_joint('revolute', leave=(a,))
    yield 'empty calibration', full_joint('revolute', leave=('calibration.rising', 'calibration.falling'))
    yield 'least', full_joint('revolute', leave=[a for a in opt if a != 'dynamics.friction'])
    yield 'least', full_joint('prismatic', leave=[a for a in opt if a != 'dynamics.damping'])
    if T:
        import itertools
        ps = ('limit', 'safety_controller', 'calibration', 'mimic', 'dynamics')
        for t in ('revolute', 'continuous', 'prismatic', 'floating', 'planar', 'fixed'):
            for n in range(5):
                for c in itertools.combinations(ps, n):
                    if t in ('revolute', 'prismatic') and 'limit' not in c:
                        continue
                    yield t + ' ' + '+'.join(c), full_joint(t, parts=c)


FORMS = dict(sphere=('radius',), box=('size',), cylinder=('radius', 'length'), mesh=('filename', 'scale'), mesh1=('filename',))


def part_of(tag, shape, name=None, o=0, mat=None):
    a = {x: ('?' if x == 'filename' else '+') for x in FORMS[shape]}
    g = N_('geometry', {}, [N_(shape.rstrip('1'), a)])
    return N_(tag, {} if name is None else {'name': name}, origins(o) + [g] + ([mat] if mat is not None else []))


def looks(name, kind):
    return N_('material', {'name': name}, ([N_('color', {'rgba': '+'})] if 'c' in kind else []) + ([N_('texture', {'filename': '?'})] if 't' in kind else []))


def exported_links(T):
    yield 'bare', [], []
    for o in range(4):
        yield 'inertial, origin %d' % o, [], [N_('inertial', {}, origins(o) + [N_('mass', {'value': '+'}), N_('inertia', {x: '+' for x in 'ixx ixy ixz iyy iyz izz'.split()})])]
    for t in ('visual', 'collision'):
        for s in FORMS:
            yield '%s %s' % (t, s), [], [part_of(t, s, '?', 3)]
            if T:
                for o in (0, 1, 2):
                    yield '%s %s, origin %d' % (t, s, o), [], [part_of(t, s, None, o)]
        yield t + ', no name', [], [part_of(t, 'sphere')]
        yield t + 's', [], [part_of(t, 'box', 'n'), part_of(t, 'sphere', 'm', 3), part_of(t, 'mesh', '?')]
    yield 'visual and collision', [], [part_of('collision', 'box', 'n'), part_of('visual', 'cylinder', 'm', 1), part_of('collision', 'mesh1', None, 2), part_of('visual', 'box')]
    for k in ('', 'c', 't', 'ct'):
        yield 'visual with material ' + k, [], [part_of('visual', 'sphere', mat=looks('x', k))]
    for k in ('c', 't', 'ct'):
        yield 'material %s used' % k, [looks('x', k)], [part_of('visual', 'sphere', mat=looks('x', ''))]
        yield 'material %s unused' % k, [looks('x', k)], [part_of('visual', 'sphere', mat=looks('y', ''))]
    yield 'materials', [looks('y', 'c'), looks('x', 'ct')], [part_of('visual', 'sphere', mat=looks('z', 't')), part_of('visual', 'box', mat=looks('z', '')), part_of('visual', 'box', mat=looks('x', ''))]


def U08():
    c = Check('U08', 'Export writes what the parser reads')
    c.load(PG.URDF, 'U08.cpp')
    T = c.tier == 'thorough'

    def f(d, t, fns):
        for fn, k in fns:
            c.pair(c.spec_fn(fn), consts={a: b if isinstance(b, list) else [b] for a, b in k.items()}, setup=xml_setup(None, d, True), tag='{%s}' % t)
    for k, (what, j) in enumerate(exported_joints(T)):
        d = N_('robot', {'name': 'r'}, [N_('link', {'name': 'b'}), N_('link', {'name': 'a'}), j])
        f(d, '%s %d' % (what, k), [('L_size', {}), ('L_names', dict(k=[0, 1])), ('L_jtext', dict(n='j', k=list(range(4)))), ('L_jparts', dict(n='j')), ('L_place', dict(n='j')), ('L_jnumbers', dict(n='j'))])
    for k, (what, ms, ks) in enumerate(exported_links(T)):
        d = N_('robot', {'name': '?'}, ms + [N_('link', {'name': 'a'}, ks)])
        ns = [('L_size', {}), ('L_names', dict(k=[0, 1])), ('L_body', dict(n='a')), ('L_counts', dict(n='a'))]
        v = sum(x.tag == 'visual' for x in ks)
        for w, n in ((0, v), (1, sum(x.tag == 'collision' for x in ks))):
            if n:
                ns += [('L_form', dict(n='a', w=[w], i=list(range(n)))), ('L_part', dict(n='a', w=[w], i=list(range(n)), k=list(range(4))))]
        if v:
            ns += [('L_shade', dict(n='a', i=list(range(v))))]
        for m in ms:
            ns += [('L_look', dict(n=m.attrs['name'])), ('L_tone', dict(n=m.attrs['name']))]
        f(d, '%s %d' % (what, k), ns)
    for ls, js in graphs(T):
        if len(ls) == 3 and is_tree(ls, js):
            for a, b in ((ls, js), (ls[::-1], js[::-1])):
                d = robot(a, b)
                f(d, described(d), [('L_size', {}), ('L_shared', {}), ('L_names', dict(k=[1])), ('L_jtext', dict(n=['j', 'k'], k=[0, 1, 2]))])
    c.assume(DOM)
    c.finish(100)


def colored(name, kind):
    """kind: '' only the name, 'c' with a color that is one, 't' with a texture, '?' with a color that may be none"""
    k = [N_('color', {'rgba': '+' if kind == 'c' else '?'})] if kind in ('c', '?') else [N_('texture', {'filename': '?'})] if kind == 't' else []
    return N_('material', {'name': name}, k)


def material_docs(T):
    x, xc, xt, yc, y, xq = ('x', ''), ('x', 'c'), ('x', 't'), ('y', 'c'), ('y', ''), ('x', '?')
    # (robot-level materials, visuals' materials by link)
    yield [xc], [[x]]
    yield [xc], [[xc]]
    yield [xt], [[xc]]
    yield [yc], [[x]]
    yield [yc], [[xc]]
    yield [], [[None]]
    yield [xc, yc], [[y, x]]
    yield [], [[xc, x]]
    yield [], [[x, xc, x]]
    yield [], [[xc, xt]]
    yield [], [[x], [xc]]
    yield [], [[xc], [x]]
    yield [], [[xc], [xt]]
    yield [yc], [[xc, y], [y, x]]
    yield [yc], [[xq]]
    yield [], [[xq, xc]]
    import itertools
    for tops in ([], [xc]):
        for vs in itertools.product([None, x, xt], repeat=2):
            yield tops, [list(vs)]
    yield [xc], [[None], [x]]
    yield [xc], [[x], [None, x]]
    yield [xc, yc], [[None, y, x]]
    if T:
        for tops in ([], [xc], [xt], [xc, yc], [yc, xt]):
            for vs in itertools.product([None, x, xc, xt, y, yc], repeat=2):
                yield tops, [list(vs)]
                yield tops, [[vs[0]], [vs[1]]]


def U09():
    c = Check('U09', 'Materials')
    c.load(PG.URDF, 'U09.cpp')
    f = lambda fn, su=(xml_setup(), ''), **k: c.pair(c.spec_fn(fn), consts=k, setup=su[0], tag=su[1])
    f('L_accepted', name_only=[False, True])
    f('L_shade', i=[0, 1, 2, 3])
    f('L_texture')
    f('L_name')
    for n in (1, 2):
        su = parts(n, 0, 0)
        for k in range(n):
            f('L_visual_material_name', su, n=[k])
            f('L_visual_material', su, n=[k])
            f('L_visual_shade', su, n=[k], i=[0, 1, 2, 3])
            f('L_visual_texture', su, n=[k])
    c.load(PG.URDF, 'U09.cpp', 'U09M.cpp')
    for tops, ls in material_docs(c.tier == 'thorough'):
        d = robot('', [])
        d.kids = [colored(*t) for t in tops]
        for l, vs in zip('ab', ls):
            d.kids.append(N_('link', {'name': l}, [N_('visual', {}, [N_('geometry', {}, [N_('sphere', {'radius': '+'})])] + ([colored(*v)] if v else [])) for v in vs]))
        if len(ls) > 1:
            d.kids.append(joint('j', 'a', 'b'))
        su = (xml_setup(None, d), '{%s | %s}' % (' '.join(n + k for n, k in tops), ' | '.join(' '.join((v[0] + v[1]) if v else '-' for v in vs) for vs in ls)))
        for l, vs in enumerate(ls):
            f('P_first_visual', su, l=[l])
            for k in range(len(vs)):
                f('L_has', su, l=[l], k=[k])
                f('L_color', su, l=[l], k=[k], i=[0, 3] if c.tier != 'thorough' else [0, 1, 2, 3])
                f('L_name_of', su, l=[l], k=[k])
        f('L_available', su, n=[0, 1, 2])
        f('L_available_color', su, n=[0, 1], i=[1])
    c.assume(DOM)
    c.finish(20)


def W01():
    c = Check('W01', 'Batch queries answer each row for its own configuration')
    c.load(PG.CORE + PG.URDF, 'W01.cpp')
    su = world_poses(c)
    T = c.tier == 'thorough'
    wb = [False, True]
    for s in WORLD:
        ls, js = WORLD[s]
        t = '{robot %d}' % s
        f = lambda fn, **k: c.pair(c.spec_fn(fn), consts=dict(k, s=[s]), setup=su, tag=t)
        f('L_pose', i=[0], n=[1, 2], wb=wb, l=ls if T else ls[:2], rt=[0, 1, 2] if T else [1], d=[0, 2] if T else [2])
        f('L_pose', i=[1], n=[2], wb=wb, l=ls, rt=[0, 1, 2], d=[2])
        if T:
            f('L_pose', i=[2], n=[3], wb=wb, l=ls, rt=[0, 1, 2], d=[1])
        for i in (0, 1):
            if i or T:
                f('L_jacobian', i=[i], n=[2], wb=wb, l=ls[:2], rt=[0, 1, 2] if T else [1, 2], d=[2])
            f('L_sqdist', i=[i], n=[2], wb=wb, a=ls[:1], b=ls[1:2], d=[0, 2])
            if s > 1:
                f('L_com', i=[i], n=[2], wb=wb, d=[0, 1, 2])
                if i or T:
                    f('L_com_jacobian', i=[i], n=[2], wb=wb, d=[2])
        f('L_cached_pose', wb=wb, l=ls, rt=[0, 1, 2] if T else [2], d=[0, 3])
        f('L_cached_jacobian', wb=wb, l=ls[:2], rt=[1], d=[0, 3] if T else [3])
        f('L_cached_sqdist', wb=wb, a=ls[:1], b=ls[1:2], d=[0, 3])
        f('L_left', n=[2], wb=wb, l=ls)
        f('L_set_base', l=ls)
        f('L_get_base')
        f('L_root')
        f('L_added', p=ls, l=ls[:1] + ['n'])
        if s > 1:
            f('L_inertia', d=[0, 1, 2])
    c.assume(ROBOTS)
    c.finish(50)


def W02():
    c = Check('W02', 'Batch results are laid out by configuration then link')
    c.load(PG.CORE + PG.URDF, 'W02.cpp')
    su = world_poses(c)
    T = c.tier == 'thorough'
    wb = [False, True]
    for s in (2, 3) if T else (3,):
        t = '{robot %d}' % s
        f = lambda fn, **k: c.pair(c.spec_fn(fn), consts=dict(k, s=[s]), setup=jac_of_state(c), confirm=su, tag=t)
        for n, nl in ((1, 2), (1, 3), (2, 1), (2, 2), (2, 4)) + (((3, 2), (2, 3)) if T else ()):
            for i in range(n):
                js = list(range(nl if nl < 4 else 2))
                f('L_pose_row', n=[n], nl=[nl], i=[i], j=js, rt=[0, 1, 2], wb=wb)
                if n == 2 or nl > 2:
                    f('L_jacobian_block', n=[n], nl=[nl], i=[i], j=js, rt=[0, 1, 2] if T or nl < 3 else [0, 2], wb=wb if T or nl < 3 else [True])
        f('L_sizes', n=[0, 1, 2], nl=[0, 2, 3], rt=[0, 1, 2], wb=wb, wj=[False, True])
        f('L_no_jacobian', n=[1, 2], nl=[2], rt=[0, 1, 2], wb=wb)
        f('L_joint_order', rt=[0, 1, 2], wb=wb)
    c.assume(ROBOTS)
    c.finish(50)


def W03():
    c = Check('W03', 'Center of mass with contact forces')
    c.load(PG.CORE + PG.URDF, 'W03.cpp')
    su = world_poses(c)
    wb = [False, True]
    T = c.tier == 'thorough'
    for s in (2, 3):
        t = '{robot %d}' % s
        f = lambda fn, **k: c.pair(c.spec_fn(fn), consts=dict(k, s=[s]), setup=su, tag=t)
        f('L_com', n=[2], i=[0, 1], nf=[0, 1, 2, 4], wb=wb)
        f('L_com', n=[1], i=[0], nf=[3], wb=wb)
        f('L_jacobian', n=[2], i=[0, 1], nf=[0, 1, 2] + ([4] if T else []), wb=wb)
        f('L_jacobian', n=[1], i=[0], nf=[3], wb=[True])
        f('L_same_center', n=[2], nf=[0, 2], wb=wb)
        f('L_sizes', n=[0, 1, 2], nf=[0, 1], wb=wb, wj=[False, True])
    c.assume(ROBOTS + '; the force sum is not zero')
    c.finish(30)


def W04():
    c = Check('W04', 'Inter-link squared distances and gradients')
    c.load(PG.CORE + PG.URDF, 'W04.cpp')
    su = world_poses(c)
    wb = [False, True]
    for s in (2, 3):
        t = '{robot %d}' % s
        f = lambda fn, **k: c.pair(c.spec_fn(fn), consts=dict(k, s=[s]), setup=su, tag=t)
        for i in (0, 1):
            f('L_sqdist', n=[2], np=[2], i=[i], j=[0, 1], wb=wb, wg=[False, True])
            f('L_sqdist', n=[2], np=[4], i=[i], j=[0, 1, 2, 3], wb=[True], wg=[True])
            c.pair(c.spec_fn('L_gradient'), consts=dict(s=[s], n=[2], np=[4], i=[i], j=[2, 3], wb=[True], k=[0, 1, len(WORLD[s][1]) + 3]), setup=jac_of_state(c), confirm=su, tag=t)
            for w in wb:
                c.pair(c.spec_fn('L_gradient'), consts=dict(s=[s], n=[2], np=[2], i=[i], j=[0, 1], wb=[w], k=list(range(len(WORLD[s][1]) + 6 * w))), setup=jac_of_state(c), confirm=su, tag=t)
        f('L_sizes', n=[0, 1, 2], np=[0, 1, 2], wb=wb)
    c.assume(ROBOTS)
    c.finish(30)


def W05():
    c = Check('W05', 'Dimension mismatches are rejected at the binding')
    c.load(PG.CORE + PG.URDF, 'W05.cpp')
    su = world_poses(c)
    wb = [False, True]
    for s in (1, 2):
        t = '{robot %d}' % s
        nj = len(WORLD[s][1])
        f = lambda fn, **k: c.pair(c.spec_fn(fn), consts=dict(k, s=[s]), setup=su, tag=t)
        for fn in ('L_fk', 'L_com', 'L_sqdists'):
            for w, ks in ((False, [0, nj - 1, nj, nj + 1, nj + 6]), (True, [0, 3, 5, nj, nj + 5, nj + 6, nj + 7])):
                f(fn, n=[1], r=[0], k=sorted(set(ks)), wb=[w], wj=[False, True])
                f(fn, n=[2], r=[1], k=sorted(set(ks)), wb=[w], wj=[True])
                f(fn, n=[0], r=[0], k=[0], wb=[w], wj=[False, True])
        for fn in ('L_inertia', 'L_angles'):
            f(fn, k=list(range(nj + 2)))
        f('L_base', k=list(range(9)))
        for fn in ('L_forces', 'L_pairs'):
            if s > 1 or fn == 'L_pairs':
                f(fn, n=[1], a=[0, 1, 2], b=[0, 1, 2], wb=wb, wj=[False, True])
    c.assume(ROBOTS)
    c.finish(60)


def heap_setup(faults=False):
    def su(I):
        HM.install(I)
        if faults:
            I.faults = True
    return su


def derived(P, root):
    cl = {root}
    while True:
        n = set(cl)
        for r, d in P.records.items():
            if any(d['tu'].types[b['t']]['s'] in cl for b in d.get('bases', [])):
                n.add(r)
        if n == cl:
            return cl
        cl = n


def X03():
    c = Check('X03', 'XML nodes have exactly one owner')
    P = c.load(sorted(set(PG.XML) | set(PG.URDF)))
    for f, sites, reports, why in OW.analyse(P, derived(P, 'TiXmlBase'))[0]:
        name = 'owner:%s/%d' % (f.q, len(f.params))
        rule = 'every path hands over or releases each object it obtains once, and leaves it alone afterwards'
        if reports is None:
            c.und(name, rule, f.where(), why)
        elif reports:
            for (kind, at), (what, trail) in reports.items():
                c.bad(name + '@' + at, rule, at, what + ''.join('\n    path %s' % t for t in trail), analysed=[f.q])
        else:
            c.ok(name, rule, f.where(), '; '.join('%s at %s' % o[:2] for o in sorted(sites)), analysed=[f.q])
    c.load(PG.XML, 'X03.cpp')
    T = c.tier == 'thorough'
    su = heap_setup()
    kinds = [0, 1, 2, 3, 4] if T else [0, 1]
    for document in (False, True):
        for n in range(4 if T else 3):
            for op in range(16):
                at = list(range(n)) if op in (2, 3, 4, 5, 13, 14, 15) else [0]
                ks = kinds if op in (0, 1, 2, 3, 4) else [0]
                c.pair(c.spec_fn('L_edit'), consts=dict(n=[n], document=[document], op1=[op], i=at, k1=[0, 1, 2, 3, 4] if ks is kinds else ks, op2=[-1], j=[0], k2=[0]), setup=su)
                if op < 6 and n == 2 or T and op < 11:
                    for op2 in range(7):
                        at2 = [0, 1, 2] if op2 in (2, 3, 4, 5) else [0]
                        c.pair(c.spec_fn('L_edit'), consts=dict(n=[n], document=[document], op1=[op], i=at, k1=[0], op2=[op2], j=at2, k2=[1]), setup=su)
    c.pair(c.spec_fn('L_copy'), consts=dict(n=[0, 1, 2, 3], document=[False, True], how=[0, 1, 2], originalFirst=[False, True]), setup=su)
    for n in range(4):
        c.pair(c.spec_fn('L_attributes'), consts=dict(n=[n], op1=[0, 1, 2, 3], i=[0, 1, 2] if n < 3 else [0, 1, 2, 3], op2=[0, 2] if not T else [0, 1, 2, 3], j=[0, 1, 2]), setup=su)
    c.finish(100)


def X04():
    c = Check('X04', 'Element and attribute lookup is by exact name in document order')
    c.load(PG.XML, 'X04.cpp')
    T = c.tier == 'thorough'
    su = heap_setup()
    kinds = [0, 1, 2, 3, 4] if T else [0, 1, 2]
    for n in range(4):
        ks = dict(k0=kinds if n > 0 else [0], k1=(kinds if n < 3 or T else [0, 1]) if n > 1 else [0], k2=(kinds if T else [0, 1]) if n > 2 else [0], n=[n])
        f = lambda fn, **k: c.pair(c.spec_fn(fn), consts=dict(ks, **k), setup=su)
        f('L_first', how=list(range(6)))
        f('L_last', how=[0, 1])
        f('L_document')
        f('P_owner')
        if n:
            f('L_next', how=list(range(6)), **{'from': list(range(n))})
            f('L_previous', how=[0, 1], **{'from': list(range(n))})
    for n in range(4):
        c.pair(c.spec_fn('L_attribute'), consts=dict(n=[n], how=[0, 1]), setup=su)
        c.pair(c.spec_fn('L_removed'), consts=dict(n=[n]), setup=su)
        c.pair(c.spec_fn('L_order'), consts=dict(n=[n], backwards=[False, True]), setup=su)
    c.finish(100)


def S01():
    from vfa import shared as SH
    c = Check('S01', 'Models and documents share no state')
    P = c.load(sorted(set(PG.CORE) | set(PG.URDF) | set(PG.XML) | set(PG.WRAP)))
    S = SH.Shared(P)
    allowed = {('TiXmlBase::SetCondenseWhiteSpace', 'TiXmlBase::condenseWhiteSpace')}
    setters = {a for a, _ in allowed}
    for f in sorted(P.fns.values(), key=lambda f: f.id):
        if f.body is None or f.d.get('rec') == 'TiXmlString' or f.file.endswith('/tinystr.cpp') or f.q.startswith(('pybind11_init', 'PyInit')):
            continue                                # TiXmlString is std::string in this build; module initialisers run once
        rule = 'stores nothing in variables with static storage duration, nor in the settings of the process'
        name = 'effects:%s' % f.id
        eff = [e for e in S.effects(f) if (f.q, e[3]) not in allowed]
        for n in SH.calls(f):
            if n['fn']['q'] in setters and f.q not in setters:
                eff.append(('write', S.where(f, n), '%s is called' % n['fn']['q'], n['fn']['q']))
        for i, e in enumerate(x for x in eff if x[0] == 'write'):
            c.bad('%s@%s' % (name, e[1]), rule, e[1], '%s: %s' % (f.q, e[2]), analysed=[f.q])
        if not eff:
            c.ok(name, rule, f.where(), 'reads %s' % ', '.join(sorted({r for _, r in S.roots(f)})) if S.roots(f) else '', analysed=[f.q])
        elif all(x[0] == 'open' for x in eff):
            c.und(name, rule, f.where(), eff[0][2])
    c.finish(400)


def run(pid):
    if pid[0] == 'Y':
        from checks import pylayer
        getattr(pylayer, pid)()
    if pid in ('X01', 'X02'):
        from checks import xmltext
        getattr(xmltext, pid)()
    globals()[pid]()
