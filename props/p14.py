"""P14 the optimisation helpers: grad() is the gradient, fit() is the chosen optimiser applied to it."""

from .common import *
from . import p13


def start(case):
    """a fresh mee and the starting values of everything that may be optimised"""
    m = sim.build(case, ucell=np.array(gen.ucell_array(case['cell'], 'complex' if case['cplx'] else None)))
    return m


def loss_of(case, w):
    return lambda result: p13.functional(case, result, w)


def fresh_loss(case, params, w):
    """the same loss from a new object for given parameter values"""
    kw = sim.kwargs(case)
    kw.update(params)
    return p13.functional(case, sim.meent().call_mee(**kw).conv_solve(), w)


def start_values(case):
    v = {'ucell': gen.ucell_array(case['cell'], 'complex' if case['cplx'] else None),
         'thickness': np.array(case['thickness']), 'period': np.array(case['period']),
         'theta': np.array(case['theta'] + 0j), 'phi': np.array((case['phi'] or 0.) + 0j), 'psi': np.array(sim.psi_of(case) + 0j)}
    return {k: v[k] for k in case['pois']}


def torch_check(case):
    import torch
    check_gap(case, 0.05)
    check_modes(case, 0.03)
    w = p13.weights(case, shape_of(case))
    pois = case['pois']
    loss = loss_of(case, w)

    def leaves(values):
        return {k: torch.tensor(v, requires_grad=True) for k, v in values.items()}

    def manual_grad(values):
        lv = leaves(values)
        fresh_loss(case, lv, w).backward()
        return {k: sim.arr(lv[k].grad) for k in pois}

    m = start(case)
    values = start_values(case)
    want = manual_grad(values)
    size = max(1., max(np.abs(g).max() for g in want.values()))
    if not np.isfinite(size) or size > 1e4:
        raise Skip('steep')
    for again in range(case['again']):
        got = m.grad(pois, m.conv_solve, loss)
        expect(set(got) == set(pois), f'grad() returned {sorted(got)} for {sorted(pois)}')
        for k in pois:
            sim.close(f'grad() call {again + 1}: {k}', sim.arr(got[k]), want[k], 1e-8 * size, scale=1.)
            sim.close(f'{k} after grad()', sim.arr(getattr(m, k)), values[k], 1e-13)
    # fit against the same optimiser run by hand on fresh objects
    lr = case['lr'] / size
    opts = [{'lr': lr}, {'lr': lr, 'momentum': 0.9}, {'lr': lr * size * 0.1}, {'lr': lr * size * .1, 'weight_decay': .3},
            {'lr': lr, 'weight_decay': .5, 'momentum': .5, 'nesterov': True}][case['opt']]
    cls = [torch.optim.SGD, torch.optim.SGD, torch.optim.Adam, torch.optim.AdamW, torch.optim.SGD][case['opt']]
    lv = leaves(values)
    for it in case['fits']:
        opt = cls([lv[k] for k in pois], **opts)
        for _ in range(it):
            opt.zero_grad()
            fresh_loss(case, lv, w).backward()
            opt.step()
        out = m.fit(pois, m.conv_solve, loss, cls, dict(opts), iteration=it)
        expect(len(out) == len(pois), f'fit() returned {len(out)} values for {len(pois)} parameters')
        for k, o in zip(pois, out):
            want_k = sim.arr(lv[k])
            if not np.all(np.isfinite(want_k)):
                raise Skip('diverged')
            sim.close(f'fit() result {k}', sim.arr(o), want_k, 1e-6)
            sim.close(f'{k} of the object after fit()', sim.arr(getattr(m, k)), want_k, 1e-6)
        for k in ('thickness', 'period', 'ucell'):
            if k not in pois:
                fixed = start_values(dict(case, pois=[k]))[k]
                sim.close(f'{k}, which was not to be fitted', sim.arr(getattr(m, k)), fixed, 1e-13)
    # solving afterwards uses the fitted values
    r = sim.arr(p13.functional(case, m.conv_solve(), w))
    with torch.no_grad():
        f = sim.arr(fresh_loss(case, {k: lv[k].detach() for k in pois}, w))
    sim.close('loss after fit()', r, f, 1e-5, scale=max(1., abs(float(f))))
    return {'nontrivial': gen.is_patterned(case), 'labels': [case['dim'], '+'.join(pois), f"opt{case['opt']}"]}


def jax_check(case):
    import jax
    import optax
    jnp = p13.lib(1)
    check_gap(case, 0.05)
    check_modes(case, 0.03)
    w = p13.weights(case, shape_of(case))
    pois = case['pois']
    loss = loss_of(case, w)
    m = start(case)
    values = {k: jnp.asarray(v) for k, v in start_values(case).items()}
    vg = jax.value_and_grad(lambda p: fresh_loss(case, p, w))
    _, want = vg(values)
    size = max(1., max(float(np.abs(sim.arr(g)).max()) for g in want.values()))
    if not np.isfinite(size) or size > 1e4:
        raise Skip('steep')
    for again in range(case['again']):
        got = m.grad(pois, m.conv_solve, loss)
        expect(set(got) == set(pois), f'grad() returned {sorted(got)} for {sorted(pois)}')
        for k in pois:
            sim.close(f'grad() call {again + 1}: {k}', sim.arr(got[k]), sim.arr(want[k]), 1e-8 * size, scale=1.)
            sim.close(f'{k} after grad()', sim.arr(getattr(m, k)), sim.arr(values[k]), 1e-13)
    lr = case['lr'] / size
    opt = [optax.sgd(lr), optax.sgd(lr, momentum=0.9), optax.adam(lr * size * 0.1), optax.adamw(lr * size * .1, weight_decay=.3),
           optax.chain(optax.add_decayed_weights(.5), optax.sgd(lr, momentum=.5, nesterov=True))][case['opt']]
    p = values
    for it in case['fits'][:1]:
        state = opt.init(p)
        for _ in range(it):
            _, g = vg(p)
            upd, state = opt.update({k: jnp.conj(v) for k, v in g.items()}, state, p)
            p = optax.apply_updates(p, upd)
        out = m.fit(pois, m.conv_solve, loss, opt, iteration=it)
        for k in pois:
            want_k = sim.arr(p[k])
            if not np.all(np.isfinite(want_k)):
                raise Skip('diverged')
            sim.close(f'fit() result {k}', sim.arr(out[k]), want_k, 1e-6)
            sim.close(f'{k} of the object after fit()', sim.arr(getattr(m, k)), want_k, 1e-6)
    r = float(p13.functional(case, m.conv_solve(), w))
    f = float(fresh_loss(case, p, w))
    sim.close('loss after fit()', r, f, 1e-5, scale=max(1., abs(f)))
    return {'nontrivial': gen.is_patterned(case), 'labels': [case['dim'], '+'.join(pois), f"opt{case['opt']}"]}


@st.composite
def cases(draw, backends=(2,), jax_shape=None, fts=(0, 1)):
    c = draw(gen.structure(backends=backends, lossy=True, max_layers=2, max_n=5, jax_shape=jax_shape, fts=fts,
                           max_theta=1., scale=False))
    if jax_shape is None:
        c['fto'] = draw(st.sampled_from(p13.SMALL2 if c['dim'] == '2d' else p13.SMALL1))
    if c['dim'] != '1d' and not c['phi']:
        c['phi'] = 0.4
    if c['dim'] == '1dc' and c['pol'] in (['pol', 0], ['pol', 1]):
        c['pol'] = ['psi', draw(gen.num(0., 3.))]
    pois = draw(st.sampled_from([['ucell'], ['thickness'], ['ucell', 'thickness'], ['thickness', 'ucell'], ['period'],
                                 ['period', 'thickness', 'ucell']]
                                + ([['theta'], ['phi', 'ucell'], ['psi'], ['thickness', 'psi', 'theta']] if c['dim'] != '1d' else [])))
    return dict(c, seed=draw(st.integers(0, 10 ** 6)), cplx=draw(st.booleans()), pois=pois,
                again=draw(st.integers(1, 3)), opt=draw(st.integers(0, 4)), lr=draw(gen.num(0.001, 0.03)),
                fits=draw(st.lists(st.integers(1, 4), min_size=1, max_size=2)))


JS = {'1d': ([2, 0], 1, 4), '1dc': ([2, 0], 1, 4), '2d': ([1, 1], 2, 3)}
RULE = 'patterned cell; the optimiser really moves'
RELATIONS = [
    Relation('torch', lambda s: cases(), torch_check, 160, 3000, shards=5, weight=1, rule=RULE),
    Relation('jax', lambda s: cases(backends=(1,), jax_shape=JS, fts=(0,)), jax_check, 6, 150, shards=3, weight=100,
             rule=RULE),
]
ASSUMPTIONS = ['fit() on jax compiles the step, which the code supports for the discrete series only']
