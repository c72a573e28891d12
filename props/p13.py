"""P13 gradients: automatic differentiation equals the derivative of the computed result."""
from .common import *

OUT = ('de_ri_s', 'de_ri_p', 'de_ti_s', 'de_ti_p', 'de_ri', 'de_ti', 'R_s', 'R_p', 'T_s', 'T_p')


def check_eig(sol, low=1e-8, high=1e-2):
    """eigenvector derivatives are regularised in the code (1e-10 on squared gaps); leave out almost equal, but not
    equal, eigenvalues"""
    for m in sol.modes:
        q2 = m[2] ** 2
        g = np.abs(q2[:, None] - q2[None, :])[np.triu_indices(len(q2), 1)]
        if np.any((g > low) & (g < high)):
            raise Skip('two layer modes almost coincide')


def lib(b):
    if b == 2:
        import torch
        return torch
    import jax
    jax.config.update('jax_enable_x64', True)
    import jax.numpy as jnp
    return jnp


def weights(case, shape):
    """a random linear functional of everything reported"""
    rs = np.random.RandomState(case['seed'])
    names = ('res',) if case['dim'] == '1d' else ('res', 'te', 'tm')
    w = {}
    for nm in names:
        for k in OUT:
            v = rs.uniform(-1, 1, shape)
            w[nm, k] = v + 1j * rs.uniform(-1, 1, shape) if k[0] in 'RT' else v
    return w


def functional(case, result, w):
    b = case['b']
    xp = lib(b)
    tot = 0.
    for (nm, k), v in w.items():
        sub = getattr(result, {'res': 'res', 'te': 'res_te_inc', 'tm': 'res_tm_inc'}[nm])
        x = getattr(sub, k)
        v = xp.tensor(v) if b == 2 else xp.asarray(v)
        t = (v * x).sum()
        tot = tot + (t.real if np.iscomplexobj(w[nm, k]) else t)
    return tot


def evaluate(case, params, w):
    kw = assemble(case, params)
    return functional(case, sim.meent().call_mee(**kw).conv_solve(), w)


def parameters(case):
    """name -> numpy value of everything that can be differentiated"""
    p = {'theta': case['theta'], 'wavelength': case['wl'], 'n_top': case['n_top'], 'n_bot': sim.number(case['n_bot']),
         'period': np.array(case['period']), 'thickness': np.array(case['thickness'])}
    if case['dim'] != '1d':
        if case['b'] == 2 and case['pol'][0] == 'pol' and 0 < case['pol'][1] < 1:
            p['pol'] = case['pol'][1]     # jax branches on its value: differentiable through psi only
        else:
            p['psi'] = sim.psi_of(case)
        p['phi'] = case['phi'] or 0.
    if 'vec' in case:
        for i, L in enumerate(case['vec']):
            p[f'{i}/base'] = np.array([sim.number(L['base'])])
            for j, o in enumerate(L['objs']):
                for k in ('cx', 'cy', 'lx', 'ly'):
                    # jax takes lengths as one-element arrays and centres as scalars
                    p[f'{i}/{j}/{k}'] = np.array(o[k] if case['b'] == 1 and k[0] == 'c' else [o[k]])
                p[f'{i}/{j}/n'] = np.array([sim.number(o['n'])])
                if case['b'] == 2 and o['angle'] not in (0., np.pi / 2, np.pi, 3 * np.pi / 2, -np.pi / 2, np.pi / 4):
                    p[f'{i}/{j}/angle'] = np.array([o['angle']])
    else:
        p['ucell'] = gen.ucell_array(case['cell'], 'complex' if case['cplx'] else None)
    return {k: np.asarray(v) for k, v in p.items()}


def assemble(case, params):
    if 'vec' not in case:
        kw = sim.kwargs(case)
        kw.update(params)
    else:
        kw = sim.vector_kwargs(case)
        kw.update({k: v for k, v in params.items() if '/' not in k})
        cell = []
        for i, L in enumerate(case['vec']):
            objs = []
            for j, o in enumerate(L['objs']):
                q = dict(o, n=sim.number(o['n']))
                for k in ('cx', 'cy', 'lx', 'ly', 'n', 'angle'):
                    q[k] = params.get(f'{i}/{j}/{k}', q[k])
                objs.append([o['kind'], q['cx'], q['cy'], q['lx'], q['ly'], q['n'], q['angle'], o['a'], o['b']])
            cell.append([params.get(f'{i}/base', sim.number(L['base'])), objs])
        kw['ucell'] = cell
    if case['dim'] != '1d' and 'psi' in params:
        kw.pop('pol', None)
    if case['b'] == 2:
        # per-layer values and periods written as a list, as one would type them
        if case['seed'] % 3 == 1:
            kw['thickness'] = list(kw['thickness'].unbind())
        if case['seed'] % 5 == 1:
            kw['period'] = tuple(kw['period'].unbind())
    return kw


def plain(case, p):
    """numpy values -> leaf values of the backend, no differentiation"""
    xp = lib(case['b'])
    return {k: (xp.tensor(v) if case['b'] == 2 else xp.asarray(v)) for k, v in p.items()}


def gradient(case, p, names, w):
    if case['b'] == 2:
        leaves = plain(case, p)
        for k in names:
            leaves[k].requires_grad_(True)
        evaluate(case, leaves, w).backward()
        out = {}
        for k in names:
            if leaves[k].grad is None:
                raise Violation(f'no gradient reaches {k}')
            out[k] = np.conj(sim.arr(leaves[k].grad))
        return out
    import jax
    leaves = plain(case, p)
    rest = {k: v for k, v in leaves.items() if k not in names}
    g = jax.grad(lambda q: evaluate(case, dict(rest, **q), w))({k: leaves[k] for k in names})
    return {k: sim.arr(v) for k, v in g.items()}


LENGTH = {'period', 'thickness', 'wavelength'}


def directions(case, p, names, rs, single):
    """relative step directions; one random direction over everything, or one coordinate"""
    d = {}
    for k in names:
        v = rs.uniform(-1, 1, p[k].shape)
        if np.iscomplexobj(p[k]):
            v = v + 1j * rs.uniform(-1, 1, p[k].shape)
        size = case['wl'] if (k in LENGTH or k.split('/')[-1] in ('cx', 'cy', 'lx', 'ly')) else 1.
        d[k] = v * size
    if single is not None:
        k = names[single % len(names)]
        one = np.zeros_like(d[k])
        ix = np.unravel_index(rs.randint(d[k].size), d[k].shape) if d[k].shape else ()
        one[ix] = d[k][ix]
        d = {n: np.zeros_like(d[n]) for n in names}
        d[k] = one
    return d


def check(case):
    check_gap(case, 0.05)
    if 'vec' in case:
        layers, _ = vector_layers(case)
        check_eig(sim.reference(case, layers=layers, min_gap=0.05, min_q=0.02))
    else:
        check_modes(case, 0.03)
        check_eig(sim.reference(case, min_gap=0.05, min_q=0.02))
    p = parameters(case)
    names = sorted(p)
    w = weights(case, shape_of(case))
    if case['single'] % 2:
        # differentiate one thing only, the rest left as plain numbers
        names = [names[case['single'] // 2 % len(names)]]
    g = gradient(case, p, names, w)
    for k in names:
        expect(g[k].shape == p[k].shape, f'gradient of {k} has shape {g[k].shape}, not {p[k].shape}')
        expect(np.all(np.isfinite(g[k])), f'gradient of {k} is not finite')
    rs = np.random.RandomState(case['seed'] + 1)
    # size of a generic directional derivative, for the tolerance
    generic = directions(case, p, names, np.random.RandomState(0), None)
    typical = np.sqrt(sum(np.sum(np.abs(g[k] * generic[k]) ** 2) for k in names))
    done = 0
    for single in (None, case['single'], case['single'] + 7):
        d = directions(case, p, names, rs, single)
        ad = float(sum(np.sum(g[k] * d[k]).real for k in names))

        def along(t):
            return float(sim.arr(evaluate(case, plain(case, {k: v + t * d[k] if k in d else v for k, v in p.items()}), w)))
        est = []
        for h in (2e-4, 1e-4, 5e-5):
            est.append((along(h) - along(-h)) / (2 * h))
        r1, r2 = (4 * est[1] - est[0]) / 3, (4 * est[2] - est[1]) / 3
        err = abs(r1 - r2) * 5
        scale = 1. + abs(r2) + typical
        if err > 1e-2 * scale:
            continue
        done += 1
        expect(abs(ad - r2) <= 2e-5 * scale + err,
               f'derivative of the result along a step of {"all of " + str(names) if single is None else names[single % len(names)]}: '
               f'automatic {ad!r}, numerical {r2!r} (scale {scale:.3g}, numerical error {err:.1g})')
    if not done:
        raise Skip('too sharp for finite differences')
    return {'nontrivial': done > 0 and typical > 1e-3, 'labels': [sim.BACK[case['b']], case['dim'], gen.mode_of(case)]
            + (names if len(names) == 1 else ['all'])}


def vector_layers(case):
    """reference layers of a drawn case, through meent's own drawing (the drawing is P17's business)"""
    m = sim.meent().call_mee(**sim.vector_kwargs(case, backend=0))
    out = []
    for (n, xs, ys), d in zip(m.modeling_vector_instruction(sim.vector_instruction(case)), case['thickness']):
        xe = np.concatenate([[0.], np.asarray(xs).real.ravel() / case['period'][0]])
        ye = np.concatenate([[0.], np.asarray(ys).real.ravel() / case['period'][1]])
        xe[-1] = ye[-1] = 1.
        out.append(ref.layer_grid(np.asarray(n) ** 2, xe, ye, *case['fto']) + (d,))
    return out, m


SMALL1 = [[1, 0], [2, 0], [3, 0], [4, 0]]
SMALL2 = [[1, 1], [1, 0], [0, 1], [2, 0], [2, 1], [1, 2]]


@st.composite
def raster(draw, jax_shape=None, backends=(2,)):
    c = draw(gen.structure(backends=backends, lossy=True, lossy_bot=True, with_metal=True, max_layers=2, max_n=6,
                           jax_shape=jax_shape, max_theta=1.))
    if jax_shape is None:
        c['fto'] = draw(st.sampled_from(SMALL2 if c['dim'] == '2d' else SMALL1))
    if c['dim'] != '1d' and not c['phi']:
        c['phi'] = 0.4
    if c['dim'] == '1dc' and c['pol'] in (['pol', 0], ['pol', 1]):
        c['pol'] = ['psi', draw(gen.num(0., 3.))]
    return dict(c, seed=draw(st.integers(0, 10 ** 6)), single=draw(st.integers(0, 40)), cplx=draw(st.booleans()))


@st.composite
def vector(draw, jax=False, backends=(2,)):
    c = draw(gen.vector_structure(backends=backends, lossy=True, lossy_bot=True, max_layers=1 if jax else 2, max_objs=2, jax=jax))
    if not jax:
        c['fto'] = draw(st.sampled_from(SMALL2))
    if not c['phi']:
        c['phi'] = 0.4
    return dict(c, seed=draw(st.integers(0, 10 ** 6)), single=draw(st.integers(0, 40)), cplx=False)


def vcheck(case):
    for L in case['vec']:
        m = sim.meent().call_mee(**sim.vector_kwargs(case, backend=0))
        xs, ys = [0., case['period'][0]], [0., case['period'][1]]
        for o in sim.vector_instruction(case)[case['vec'].index(L)][1]:
            seen_x, seen_y = set(), set()
            for a, b, _ in getattr(m, o[0])(*o[1:]):
                seen_x |= {float(np.real(np.ravel(a[1])[0])), float(np.real(np.ravel(b[1])[0]))}
                seen_y |= {float(np.real(np.ravel(a[0])[0])), float(np.real(np.ravel(b[0])[0]))}
            xs += sorted(seen_x)
            ys += sorted(seen_y)
        for v, per in ((xs, case['period'][0]), (ys, case['period'][1])):
            v = np.sort(v)
            if len(v) > 1 and np.min(np.diff(v)) < 1e-3 * per:
                raise Skip('edges touch: no derivative')
    return check(case)


def jraster(s):
    return raster(jax_shape={'1d': ([2, 0], 1, 4), '1dc': ([2, 0], 1, 4), '2d': ([1, 1], 2, 3)}, backends=(1,))


def f3_probe():
    """F3 as recorded: at normal incidence the derivative with respect to pixels of a uniform layer under a patterned one
    is wrong, at oblique incidence it is right."""
    import torch
    u = np.array([[[1., 2., 1.5], [2.5, 1., 1.2]], [[1.8] * 3] * 2])
    rs = np.random.RandomState(1)
    d = rs.uniform(-1, 1, u.shape)

    def both(theta):
        def value(v, grad=False):
            t = torch.tensor(v, requires_grad=grad)
            r = sim.meent().call_mee(backend=2, n_top=1., n_bot=1.5, theta=theta, phi=0.5, psi=0.7, period=[1.3, 1.3],
                                     wavelength=1., fto=[1, 1], thickness=[0.4, 0.3], fourier_type=0, ucell=t).conv_solve()
            return t, r.res.de_ti[0, 1]
        t, y = value(u, True)
        y.backward()
        return float((t.grad * torch.tensor(d)).sum()), float(value(u + 1e-4 * d)[1] - value(u - 1e-4 * d)[1]) / 2e-4
    a, n = both(0.)
    b, m = both(0.3)
    return abs(a - n) > 1e-3 * abs(n) and abs(b - m) < 1e-5 * (abs(m) + 0.1)


KNOWN = [('F3 gradient: where modes of a uniform layer coincide (normal incidence, incidence along an axis) the derivative '
          'with respect to its single pixels is wrong (torch, jax), e.g. second layer of a 2x3-pixel cell at theta=0',
          f3_probe)]
RULE = 'the gradient is not negligible and the numerical derivative is trustworthy'
RELATIONS = [
    Relation('raster', lambda s: raster(), check, 250, 5000, shards=5, weight=1, rule=RULE),
    Relation('raster-jax', jraster, check, 9, 300, shards=3, weight=100, rule=RULE),
    Relation('vector', lambda s: vector(), vcheck, 150, 3000, shards=4, weight=1, rule=RULE),
    Relation('vector-jax', lambda s: vector(jax=True, backends=(1,)), vcheck, 4, 120, shards=2, weight=100, rule=RULE),
]
ASSUMPTIONS = ['the code regularises derivatives of nearly equal eigenvalues; structures with eigenvalue gaps between 1e-8 '
               'and 1e-2 are left out', 'touching edges have no derivative and are left out']
