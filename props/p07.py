"""P07 Fourier representations: what the chosen series and modelling describe is the drawn geometry."""
from .common import *


# ---- raster continuous series and vector modelling describe the same rectangles
def vec_vs_raster(case):
    check_gap(case)
    check_modes(case)
    px, py = case['period']
    raster = sim.run(dict(case, ft=1))
    inst = []
    ny, nx = len(case['cell'][0]['pat']), len(case['cell'][0]['pat'][0])
    for L in case['cell']:
        objs = []
        for j, row in enumerate(L['pat']):
            # row 0 of a raster cell is the top of the drawing
            y = py * (ny - 1 - j + 0.5) / ny
            i = 0
            while i < nx:
                k = i
                while k + 1 < nx and row[k + 1] == row[i]:
                    k += 1
                if row[i] != 0:
                    objs.append(['rectangle', px * (i + k + 1) / 2 / nx, y, px * (k + 1 - i) / nx, py / ny,
                                 sim.number(L['pal'][row[i]])])
                i = k + 1
        order = case['order']
        objs = [objs[t] for t in sorted(range(len(objs)), key=lambda t: (t * 7919 + order) % 101)]
        inst.append([sim.number(L['pal'][0]), objs])
    k = sim.kwargs(case, ucell=inst, fourier_type=1)
    vec = sim.run_kw(k)
    compare_subs('vector modelling against the same pixels', vec, raster, tol=1e-5 if px < 1e-3 else 1e-7)    # touching edges are moved apart by ~1e-14 length units
    return {'nontrivial': interesting(case, raster), 'labels': sim.label(case)}


# ---- vector modelling of rectangles anywhere against the independent solver
def vec_vs_ref(case):
    layers = []
    for L, d in zip(case['vec'], case['thickness']):
        boxes = [(o['cy'] - o['ly'] / 2, o['cx'] - o['lx'] / 2, o['cy'] + o['ly'] / 2, o['cx'] + o['lx'] / 2,
                  complex(*o['n'])) for o in L['objs']]
        n, xs, ys = sim.paint(complex(*L['base']), boxes, case['period'])
        layers.append(ref.layer_grid(n ** 2, xs, ys, *case['fto']) + (d,))
    sol = sim.reference(case, layers=layers)
    r = sim.run_kw(sim.vector_kwargs(case))
    for j, nm in enumerate(('res', 'te', 'tm')):
        for a in EFF:
            sim.close(f'{nm}.{a}', r[nm][a], getattr(sol, a)[j], 1e-5 if case['period'][0] < 1e-3 else 1e-7)
    return {'nontrivial': any(L['objs'] for L in case['vec']),
            'labels': [sim.BACK[case['b']], f"{sum(len(L['objs']) for L in case['vec'])} objects"]}


# ---- sampling: the continuous series does not see how finely a cell is pixelated
def refine(case):
    check_gap(case)
    check_modes(case)
    a = sim.run(case)
    cell = [{'pal': L['pal'], 'pat': [[v for v in row for _ in range(case['fx'])] for row in L['pat'] for _ in range(case['fy'])]}
            for L in case['cell']]
    if len(cell[0]['pat']) > 1 and len(case['cell'][0]['pat']) == 1:
        cell = [dict(L, pat=L['pat'][:1]) for L in cell]
    b = sim.run(dict(case, cell=cell))
    compare_subs('the same cell on a finer pixel grid', b, a)
    return {'nontrivial': interesting(case, a) and case['fx'] * case['fy'] > 1, 'labels': sim.label(case)}


# ---- the discrete series converges to the continuous one
def converge(case):
    check_gap(case)
    check_modes(case)
    flip = [{'pal': L['pal'], 'pat': L['pat'][::-1]} for L in case['cell']]
    exact = sim.run(dict(case, ft=1, cell=flip))            # rows run the other way (finding F2)
    err = []
    for f in (8, 64):
        cell = [{'pal': L['pal'], 'pat': [[v for v in row for _ in range(f)] for row in L['pat'] for _ in range(f if len(L['pat']) > 1 else 1)]}
                for L in case['cell']]
        r = sim.run(dict(case, ft=0, edfs=False, cell=cell))
        err.append(max(np.abs(r['res'][a] - exact['res'][a]).max() for a in ('de_ri', 'de_ti')))
    enh = sim.run(dict(case, ft=0, edfs=True))
    e = max(np.abs(enh['res'][a] - exact['res'][a]).max() for a in ('de_ri', 'de_ti'))
    if err[0] > 0.02:
        raise Skip('resonant: no asymptotic regime at this sampling')
    expect(err[1] < 0.25 * err[0] + 1e-4, f'discrete series does not approach the continuous one: error {err[0]:.3g} at '
           f'8-fold, {err[1]:.3g} at 64-fold sampling')
    return {'nontrivial': err[0] > 1e-6, 'labels': sim.label(case) + [f'enhanced error<{10 ** np.ceil(np.log10(e + 1e-12)):.0e}']}


def f2_probe():
    k = dict(n_top=1.1, n_bot=1.5, theta=0.5, phi=0.7, period=[1000., 800.], wavelength=900., fto=[2, 1], pol=0,
             ucell=np.array([[[1., 2., 3.], [1., 1., 2.], [3., 1., 1.]]]), thickness=[300.], backend=0)
    c = sim.run_kw(dict(k, fourier_type=1))['res']['de_ti']
    d = sim.run_kw(dict(k, fourier_type=0))['res']['de_ti']
    e = sim.run_kw(dict(k, fourier_type=0, ucell=k['ucell'][:, ::-1].copy()))['res']['de_ti']
    return np.abs(e - c).max() < 0.25 * np.abs(d - c).max()


KNOWN = [('F2 raster rows: fourier_type=0 takes row 0 as the lowest y, fourier_type=1 (and vector modelling, and the '
          'field output) as the highest, so an asymmetric cell is mirrored in y when the series changes, e.g. '
          '[[1,2,3],[1,1,2],[3,1,1]] at theta=0.5, phi=0.7', f2_probe)]
RULE = 'patterned, and at least two orders carry power'
UP = {'fx': st.integers(1, 4), 'fy': st.integers(1, 4)}
RELATIONS = (
    pair('vector-raster', vec_vs_raster, 500, 10000, 0, 0, RULE, dims=('2d',), fts=(1,), lossy=True,
         lossy_bot=True, max_layers=2, max_n=6, extra={'order': st.integers(0, 100)}, shards=4)
    + [Relation('vector', lambda s: gen.vector_structure(backends=(0, 2), kinds=('rectangle0',), lossy=True, lossy_bot=True,
                                                         max_objs=4), vec_vs_ref, 500, 10000, shards=4,
                rule='at least one drawn rectangle'),
       Relation('vector-jax', lambda s: gen.vector_structure(backends=(1,), kinds=('rectangle0',), lossy=True, lossy_bot=True,
                                                             max_objs=2, jax=True, jax_fto=[(1, 1), (2, 1), (1, 2)][s % 3]), vec_vs_ref, 30, 500, shards=2, weight=60,
                rule='at least one drawn rectangle')]
    + pair('refine', refine, 600, 12000, 0, 0, RULE + ', refined', fts=(1,), lossy=True, lossy_bot=True, max_layers=3, max_n=6,
           extra=UP, shards=4)
    + pair('refine', refine, 0, 0, 24, 300, RULE + ', refined', fts=(1,), lossy=True, lossy_bot=True, max_layers=2,
           extra={'fx': st.just(2), 'fy': st.just(2)}, jshards=2)
    + pair('converge', converge, 120, 2000, 0, 0, 'sampling error above 1e-6', dims=('1d', '1dc', '2d'), max_layers=1,
           max_n=5, hi=2.2, extra={}, shards=3)
)
ASSUMPTIONS = ['orders or uniform-layer modes at cutoff are left out',
               'convergence is judged on low-contrast single layers away from resonance']
