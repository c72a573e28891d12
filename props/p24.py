"""P24 jax transformations: jit, vmap, grad and tree operations see the same simulation."""
from .common import *

KEYS = EFF + ('R_s', 'R_p', 'T_s', 'T_p')
SHAPES = [([1, 1], 3, 4), ([2, 0], 1, 4), ([1, 0], 2, 3), ([0, 1], 2, 2), ([1, 1], 1, 3), ([2, 1], 2, 3)]
ARGS = ('theta', 'phi', 'psi', 'wavelength', 'n_top', 'n_bot', 'period', 'thickness', 'ucell')
MEMO = {}


def jx():
    import jax
    jax.config.update('jax_enable_x64', True)
    return jax


def flat(result):
    """everything a solve reports, as a flat dict of arrays"""
    out = {}
    for nm in ('res', 'res_te_inc', 'res_tm_inc'):
        sub = getattr(result, nm)
        if sub is not None:
            for k in KEYS:
                out[nm + '.' + k] = getattr(sub, k)
    return out


def report(m):
    return flat(m.conv_solve())


def compare(what, got, want, tol=1e-9):
    expect(set(got) == set(want), f'{what}: different outputs')
    for k in want:
        sim.close(f'{what}: {k}', sim.arr(got[k]), sim.arr(want[k]), tol)


def settings(case):
    kw = sim.kwargs(case, use_pinv=bool(case['pinv']))
    kw['psi'] = sim.psi_of(case)
    kw.pop('pol', None)
    if kw['phi'] is None:
        kw['phi'] = 0.3
    return kw


def lit(r):
    return int(np.sum(sim.arr(r['res.de_ri']) > 1e-9) + np.sum(sim.arr(r['res.de_ti']) > 1e-9)) >= 2


def labels(case, *more):
    return [gen.mode_of(case), 'pinv' if case['pinv'] else 'inv'] + list(more)


SAME = ('n_top', 'n_bot', 'theta', 'phi', 'psi', 'pol', 'period', 'wavelength', 'thickness', 'fto', 'fourier_type', 'enhanced_dfs',
        'use_pinv', 'type_complex', 'connecting_algo', 'backend', 'ucell', 'perturbation')


def tree(case):
    """taking the object apart and putting it together again leaves every setting and the result"""
    jax = jx()
    check_gap(case)
    check_modes(case)
    kw = sim.kwargs(case, use_pinv=bool(case['pinv']), type_complex=case['tc1'])
    if case['pert']:
        kw['perturbation'] = 10. ** -case['pert']
    m = sim.meent().call_mee(**kw)
    leaves, td = jax.tree_util.tree_flatten(m)
    ways = {'unflatten': jax.tree_util.tree_unflatten(td, leaves), 'tree_map': jax.tree_util.tree_map(lambda x: x, m)}
    want = report(m)
    for how, n in ways.items():
        expect(type(n) is type(m), f'{how}: {type(n)}')
        for k in SAME:
            a, b = getattr(m, k), getattr(n, k)
            if a is None or b is None or isinstance(a, (str, bool)) or callable(a):
                expect(a is b or a == b, f'{how}: {k} becomes {b!r} from {a!r}')
            else:
                sim.close(f'{how}: {k}', sim.arr(b).astype(complex), sim.arr(a).astype(complex), 1e-6 if case['tc1'] else 1e-12)
        again = report(n)
        compare(how, again, want, 1e-3 if case['tc1'] else 1e-9)
        for k in want:
            expect(sim.arr(again[k]).dtype == sim.arr(want[k]).dtype, f'{how}: {k} has another precision')
        # it goes on being the same simulation
        if case['pert'] and not case['tc1']:
            o = jax.tree_util.tree_unflatten(td, leaves)
            n.theta, o.theta = 0., kw['perturbation']
            if case['pert'] < 4:
                compare(how + ', then normal incidence', report(n), report(o))
    expect(set(report(m)) == set(want), 'outputs change')
    return {'nontrivial': lit(want), 'labels': labels(case, case['dim'])}


def jitted():
    if 'f' not in MEMO:
        MEMO['f'] = jx().jit(report)
    return MEMO['f']


def jit_object(case):
    """compiling a function of the object"""
    check_gap(case)
    check_modes(case)
    m = sim.meent().call_mee(**settings(case))
    want = report(m)
    compare('compiled', jitted()(m), want)
    return {'nontrivial': lit(want), 'labels': labels(case)}


def chosen(case):
    names = [a for i, a in enumerate(ARGS) if case['mask'] >> i & 1] or ['theta']
    return names


def function(kw, names):
    rest = {k: v for k, v in kw.items() if k not in names}

    def f(p):
        return report(sim.meent().call_mee(**rest, **p))
    return f


def start(kw, names):
    jnp = jx().numpy
    return {k: jnp.asarray(kw[k]) for k in names}


def jit_args(case):
    """compiling a function of some of the settings, the rest fixed"""
    check_gap(case)
    check_modes(case)
    kw = settings(case)
    names = chosen(case)
    want = report(sim.meent().call_mee(**kw))
    f = function(kw, names)
    if case['later']:
        m = sim.meent().call_mee(**dict(kw, theta=0.3, wavelength=kw['wavelength'] * 1.1))

        def f(p):
            for k, v in dict(kw, **p).items():
                if k in ARGS:
                    setattr(m, k, v)
            return report(m)
    compare(f'compiled in {names}', jx().jit(f)(start(kw, names)), want)
    return {'nontrivial': lit(want), 'labels': labels(case, 'assigned' if case['later'] else 'constructed', *names)}


def vmap(case):
    """a batch gives what one at a time gives"""
    jnp = jx().numpy
    check_gap(case)
    check_modes(case)
    kw = settings(case)
    names = chosen(case)
    rs = np.random.RandomState(case['seed'])
    batch = []
    for i in range(3):
        p = {k: np.asarray(kw[k]) for k in names}
        if i:
            p = {k: v * (1 + 0.02 * rs.uniform(-1, 1, v.shape)) for k, v in p.items()}
        batch.append(p)
    f = function(kw, names)
    stacked = {k: jnp.stack([jnp.asarray(b[k]) for b in batch]) for k in names}
    got = jx().vmap(f)(stacked)
    for i, b in enumerate(batch):
        want = f({k: jnp.asarray(v) for k, v in b.items()})
        compare(f'entry {i} of a batch over {names}', {k: v[i] for k, v in got.items()}, want, 1e-7)
    return {'nontrivial': lit(want), 'labels': labels(case, *names)}


def grads(case):
    """differentiating a function of the object, compiled or not, is differentiating a function of its settings"""
    jax = jx()
    check_gap(case, 0.05)
    check_modes(case, 0.03)
    kw = settings(case)
    names = [k for k in ('theta', 'wavelength', 'thickness', 'period', 'psi', 'phi') if k in ARGS]
    w = np.random.RandomState(case['seed']).uniform(-1, 1, (2,) + shape_of(case))

    def loss(m):
        r = m.conv_solve().res
        return (w[0] * r.de_ri).sum() + (w[1] * r.de_ti).sum()
    m = sim.meent().call_mee(**kw)
    g = jax.grad(loss)(m)
    by = jax.grad(lambda p: loss(sim.meent().call_mee(**{k: v for k, v in kw.items() if k not in names}, **p)))
    p = start(kw, names)
    want = by(p)
    comp = jax.jit(by)(p)
    for k in names:
        s = max(1., float(np.abs(sim.arr(want[k])).max()))
        sim.close(f'compiled gradient of {k}', sim.arr(comp[k]), sim.arr(want[k]), 1e-6, scale=s)
        sim.close(f'gradient of {k} through the object', sim.arr(getattr(g, k)).real, sim.arr(want[k]).real, 1e-6, scale=s)
    return {'nontrivial': max(np.abs(sim.arr(v)).max() for v in want.values()) > 1e-3, 'labels': labels(case)}


def structure(s, **kw):
    sh = SHAPES[s % len(SHAPES)]
    dim = '2d' if sh[1] > 1 else '1dc'
    return gen.structure(backends=(1,), dims=(dim,), jax_shape={dim: sh}, max_layers=1 if s % 2 else 2, lossy=True,
                         with_metal=True, lossy_bot=True, **kw)


def any_dim(s):
    return gen.structure(backends=(1,), jax_shape=gen.JAX_SHAPES[s % 3], max_layers=2, lossy=True, with_metal=True, lossy_bot=True)


PINV = {'pinv': st.booleans()}
TREE = {'tc1': st.sampled_from([0, 0, 1]), 'pert': st.sampled_from([0, 0, 2, 3, 6])}
MASK = {'mask': st.one_of(st.integers(1, 511), st.sampled_from([1, 2, 4, 8, 16, 32, 64, 128, 256]))}
LATER = {'later': st.booleans()}
SEED = {'seed': st.integers(0, 10 ** 6)}
RULE = 'at least two orders carry power'
DFS = dict(fts=(0,))
RELATIONS = [
    Relation('tree', lambda s: with_extra(any_dim(s), **PINV, **TREE), tree, 36, 1500, shards=2, weight=40., rule=RULE),
    Relation('jit-object', lambda s: with_extra(structure(s, **DFS), **PINV), jit_object, 24, 1500, shards=2, weight=40., rule=RULE),
    Relation('jit-args', lambda s: with_extra(structure(s, **DFS), **PINV, **MASK, **LATER), jit_args, 9, 400, shards=3, weight=100.,
             rule=RULE),
    Relation('vmap', lambda s: with_extra(structure(s, **DFS), **PINV, **MASK, **SEED), vmap, 6, 300, shards=3, weight=150., rule=RULE),
    Relation('grad', lambda s: with_extra(structure(s, **DFS), **PINV, **SEED), grads, 4, 120, shards=2, weight=200.,
             rule='the gradient is not negligible'),
]
ASSUMPTIONS = ['orders or uniform-layer modes at cutoff are left out', 'compilation needs conical incidence or a two-dimensional cell, and '
               'the discrete series: the planar solver and the continuous series read concrete values']
