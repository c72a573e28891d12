"""P23 scale: many orders, many layers, fine cells and thick layers stay stable and exact."""
from . import p12
from .common import *


@st.composite
def big(draw, backends=(0, 2), lossy=True, whats=('orders', 'layers', 'thick', 'pixels', 'coarse', 'deep'), jax_shape=None):
    what = draw(st.sampled_from(whats))
    c = draw(gen.structure(backends=backends, lossy=lossy, lossy_bot=lossy, with_metal=lossy, max_layers=3,
                           jax_shape=jax_shape))
    dim = c['dim']
    if what == 'orders':
        if dim == '2d':
            c['fto'] = draw(st.sampled_from([[4, 3], [3, 4], [5, 2], [2, 5], [7, 1], [1, 8], [4, 4], [0, 12], [12, 0]]))
        else:
            c['fto'] = [draw(st.integers(12, 45)), 0]
    elif what == 'layers':
        k = draw(st.integers(8, 25))
        n = len(c['cell'])
        order = draw(st.lists(st.integers(0, n - 1), min_size=k, max_size=k))
        c['cell'] = [c['cell'][i] for i in order]
        c['thickness'] = [c['wl'] * draw(gen.num(0.005, 0.6)) for _ in order]
        if not jax_shape:
            c['fto'] = draw(st.sampled_from([[1, 1], [2, 0], [0, 2]] if dim == '2d' else [[1, 0], [3, 0], [5, 0]]))
    elif what == 'thick':
        i = draw(st.integers(0, len(c['cell']) - 1))
        c['thickness'][i] = c['wl'] * draw(gen.num(3., 300.))
        if dim != '2d' and not jax_shape:
            c['fto'] = [draw(st.integers(1, 15)), 0]
    elif what == 'pixels':
        # fine cell from a coarse one: more pixels than the series needs, so nothing is repeated
        ky, kx = (draw(st.integers(3, 9)), draw(st.integers(3, 9))) if dim == '2d' else (1, draw(st.integers(8, 60)))
        for L in c['cell']:
            L['pat'] = [[v for v in row for _ in range(kx)] for row in L['pat'] for _ in range(ky)]
            rows, cols = len(L['pat']), len(L['pat'][0])
            for _ in range(draw(st.integers(0, 6))):
                L['pat'][draw(st.integers(0, rows - 1))][draw(st.integers(0, cols - 1))] = draw(st.integers(0, len(L['pal']) - 1))
        if dim == '2d':
            c['fto'] = draw(st.sampled_from([[1, 1], [2, 1], [1, 2], [2, 2]]))
    elif what == 'deep':
        # deep sub-wavelength with many orders: wave numbers over several decades
        s = draw(st.sampled_from([0.03, 0.1, 0.2]))
        c['period'] = [p * s for p in c['period']]
        if dim == '2d':
            c['fto'] = draw(st.sampled_from([[3, 3], [5, 1], [1, 6], [0, 8], [9, 0]]))
        else:
            c['fto'] = [draw(st.integers(8, 40)), 0]
    else:
        # far fewer or more waves than one: deep sub-wavelength or very large period
        s = draw(st.sampled_from([0.02, 0.1, 0.2, 4., 7., 12.]))
        c['period'] = [p * s for p in c['period']]
        if dim == '1d' and not jax_shape:
            c['fto'] = [draw(st.integers(5, 30)), 0]
    if dim == '1dc' and c['fto'][1] == 0 and c['pol'] in (['pol', 0], ['pol', 1]) and not c['phi']:
        # planar incidence of a pure polarisation: the one-dimensional solver's case
        c['dim'], c['phi'] = '1d', None
    c['what'] = what
    return c


def balance(case):
    """energy and passivity, cheap enough for the largest structures"""
    check_gap(case, 0.02)
    check_modes(case)
    r = sim.run(case)
    lossless = all(p[1] == 0 for L in case['cell'] for p in L['pal']) and case['n_bot'][1] == 0
    for nm, d in subs(r):
        for k, v in d.items():
            expect(np.all(np.isfinite(v)), f'{nm}.{k} is not finite')
        tot = d['de_ri'].sum() + d['de_ti'].sum()
        if lossless:
            expect(abs(tot - 1) < 1e-6, f'{nm}: total {tot!r} of a lossless structure')
        expect(tot < 1 + 1e-6 and min(d['de_ri'].min(), d['de_ti'].min()) > -1e-7, f'{nm}: total {tot!r} is not passive')
    return {'nontrivial': interesting(case, r), 'labels': sim.label(case) + [case['what'], 'lossless' if lossless else 'lossy']}


def reference(case):
    size = 4 * (2 * case['fto'][0] + 1) * (2 * case['fto'][1] + 1) * (len(case['cell']) + 1)
    if size > 2400:
        raise Skip('too large for the reference')
    sol = sim.reference(case, psis=(np.pi / 2 if case['pol'][1] == 0 else 0.,) if case['dim'] == '1d' else None)
    r = sim.run(case)
    tol = 1e-7 if case['what'] != 'thick' else 1e-6
    for j, (nm, d) in enumerate(subs(r)):
        for a in EFF[:4]:
            sim.close(f'{nm}.{a}', d[a], getattr(sol, a)[j], tol)
        for k, v in p12.wanted(case, sol, j, nm).items():
            sim.close(f'{nm}.{k}', d[k], v, 10 * tol)
    return {'nontrivial': interesting(case, r), 'labels': sim.label(case) + [case['what']]}


RULE = 'patterned, and at least two orders carry power'
RELATIONS = [
    Relation('balance', lambda s: big(lossy=s % 3 != 0), balance, 840, 10000, shards=6, weight=4., rule=RULE),
    Relation('reference', lambda s: big(), reference, 660, 10000, shards=6, weight=4., rule=RULE),
    Relation('reference-jax', lambda s: big(backends=(1,), whats=('layers', 'thick', 'coarse'),
                                            jax_shape=gen.JAX_SHAPES[s % len(gen.JAX_SHAPES)]),
             reference, 24, 600, shards=3, weight=60., rule=RULE),
]
ASSUMPTIONS = ['orders or uniform-layer modes at cutoff are left out']
