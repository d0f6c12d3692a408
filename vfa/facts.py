"""Facts about the input objects of an analysis (representation of a robot model)."""
from .terms import *
from . import terms as TM
from .values import *


def root_of(t, name):
    """root term of field chain: app('.'+name, R) -> R"""
    if t.op == 'app' and t.args[0] == '.' + name and len(t.args) == 2:
        return t.args[1]
    return None


def elem(t, field):
    """(root, index) if t is element of the vector field `field` of some model"""
    if t.op == 'app' and t.args[0] == 'at' and len(t.args) == 3:
        r = root_of(t.args[1], field)
        if r is not None:
            return r, t.args[2]
    return None


def hook(name, f):
    old = TM.user_hooks.get(name)

    def g(*xs):
        r = f(*xs)
        if r is None and old is not None:
            r = old(*xs)
        if r is None:
            b = TM._app_hooks.get(name)
            if b is not None:
                r = b(*xs)
        return r
    TM.user_hooks[name] = g


def model_root(model='m'):
    return mk('app', 'arg:' + model)


def link_at(i, model='m'):
    return mk('app', 'at', mk('app', '.links_', model_root(model)), i if isinstance(i, T) else const(i), sort='p')


def ids():
    """links_[i]->id == i, joints_[i]->id == i"""
    def f(p):
        for fld in ('links_', 'joints_'):
            e = elem(p, fld)
            if e is not None:
                return e[1]
        return None
    hook('.id', f)


def sizes(model='m'):
    """representation invariant on container sizes (established by the constructor, kept by every method: K14, K16)"""
    TM.nonneg_forced.add('.num_dof_')
    R = model_root(model)

    def size(r):
        if r.op == 'app' and len(r.args) == 2:
            f, x = r.args
            if x is R and f in ('.joint_angles_', '.joints_', '.joint_ids_'):
                return num(mk('app', '.num_dof_', R, sort='i'))
            if x is R and f == '.link_ids_':
                return num(mk('app', 'size', mk('app', '.links_', R), sort='i'))
            if f in ('.data_', '.cache_predicate_vector_') and x.op == 'app' and x.args[0] == '.transform_cache_' and x.args[1] is R:
                return num(mk('app', 'size', mk('app', '.links_', R), sort='i'))
        return None
    hook('size', size)

    def csz(x):
        if x.op == 'app' and x.args[0] == '.transform_cache_' and x.args[1] is R:
            return num(mk('app', 'size', mk('app', '.links_', R), sort='i'))
        return None
    hook('.cache_size_', csz)


def tree(parent, model='m', cached=()):
    """concrete shape: parent[k] is the parent link id of link k (None for the root)"""
    n = len(parent)
    R = model_root(model)
    L = mk('app', '.links_', R)
    ids()

    def par(p):
        e = elem(p, 'links_')
        if e is None or not is_const(e[1]):
            return None
        k = int(const_val(e[1]))
        if k >= n:
            return None
        return NULL if parent[k] is None else link_at(parent[k], model)
    hook('.parent_link_', par)
    hook('.child_links', lambda p: None)

    def pj(p):
        e = elem(p, 'links_')
        if e is not None and is_const(e[1]) and int(const_val(e[1])) < n and parent[int(const_val(e[1]))] is None:
            return NULL
        return None
    hook('.parent_joint', pj)

    def size(r):
        if r is L:
            return const(n)
        if r.op == 'app' and r.args[0] == '.child_links':
            e = elem(r.args[1], 'links_')
            if e and is_const(e[1]):
                return const(sum(1 for q in parent if q == const_val(e[1])))
        return None
    hook('size', size)

    def at(r, i):
        if r.op == 'app' and r.args[0] == '.child_links':
            e = elem(r.args[1], 'links_')
            if e and is_const(e[1]) and is_const(i):
                ch = [k for k in range(n) if parent[k] == const_val(e[1])]
                j = int(const_val(i))
                if j < len(ch):
                    return link_at(ch[j], model)
        return None
    hook('at', at)
    pred = mk('app', '.cache_predicate_vector_', mk('app', '.transform_cache_', R))

    def at2(r, i):
        if r is pred and cached is not None and is_const(i):
            return TRUE if int(const_val(i)) in cached else FALSE
        return None
    hook('at', at2)
    nonnull_elems()


def nonnull_elems():
    """links, joints and parent joints of non-root links exist"""
    def f(a):
        if elem(a, 'links_') or elem(a, 'joints_') or elem(a, 'com_dummy_links_'):
            return True
        return a.op == 'app' and a.args[0] == '.parent_joint'
    TM._nonnull_preds.append(f)
