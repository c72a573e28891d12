"""P09 layer bookkeeping and scaling."""
from .common import *

AMP = ('R_s', 'R_p', 'T_s', 'T_p')


def uniform_like(case, n):
    ny, nx = len(case['cell'][0]['pat']), len(case['cell'][0]['pat'][0])
    return {'pal': [n], 'pat': [[0] * nx for _ in range(ny)]}


def with_layers(case, cell, thickness):
    return dict(case, cell=cell, thickness=thickness)


def cut(case):
    """cutting layers into slices, or adding layers of no thickness, changes nothing"""
    check_gap(case)
    check_modes(case)
    a = sim.run(case)
    cell, thick = [], []
    for i, (L, d) in enumerate(zip(case['cell'], case['thickness'])):
        cuts = case['cuts'][i % len(case['cuts'])]
        w = np.diff([0.] + sorted(cuts) + [1.])
        for f in w:
            cell.append(L)
            thick.append(float(d * f))
    b = with_layers(case, cell, thick)
    r = sim.run(b)
    compare_subs('layers cut into slices', r, a)
    compare_subs('layers cut into slices', r, a, keys=AMP, tol=1e-7)
    # a layer of zero thickness anywhere
    at = case['at'] % (len(case['cell']) + 1)
    src = case['src'] % (len(case['cell']) + 1)
    extra = uniform_like(case, case['filler']) if src == len(case['cell']) else case['cell'][src]
    c = with_layers(case, case['cell'][:at] + [extra] + case['cell'][at:],
                    case['thickness'][:at] + [0.] + case['thickness'][at:])
    check_modes(c)
    r = sim.run(c)
    compare_subs('a layer of zero thickness added', r, a)
    compare_subs('a layer of zero thickness added', r, a, keys=AMP, tol=1e-7)
    return {'nontrivial': interesting(case, a), 'labels': sim.label(case)}


def pad_outside(case):
    """a slab of the surrounding medium above or below only adds path, and no power changes"""
    check_gap(case)
    check_modes(case)
    a = sim.run(case)
    d = case['wl'] * case['pad']
    n_bot = list(case['n_bot'])
    k = case['slabs']
    above = with_layers(case, [uniform_like(case, [case['n_top'], 0.])] * k + case['cell'], [d / k] * k + case['thickness'])
    below = with_layers(case, case['cell'] + [uniform_like(case, n_bot)] * k, case['thickness'] + [d / k] * k)
    compare_subs('a slab of the incidence medium on top', sim.run(above), a)
    r = sim.run(below)
    if n_bot[1] == 0:
        compare_subs('a slab of the substrate medium underneath', r, a)
    else:
        compare_subs('a slab of the substrate medium underneath', r, a, keys=EFF[:2])
    return {'nontrivial': interesting(case, a), 'labels': sim.label(case)}


def scale(case):
    """only ratios of lengths matter; and only index over wavelength"""
    check_gap(case)
    check_modes(case)
    a = sim.run(case)
    s = case['s']
    c = dict(case, period=[s * p for p in case['period']], wl=s * case['wl'], thickness=[s * t for t in case['thickness']])
    r = sim.run(c)
    compare_subs('all lengths scaled', r, a)
    compare_subs('all lengths scaled', r, a, keys=AMP, tol=1e-7)
    f = case['f']
    cell = [dict(L, pal=[[f * p[0], f * p[1]] for p in L['pal']]) for L in case['cell']]
    c = dict(case, cell=cell, n_top=f * case['n_top'], n_bot=[f * v for v in case['n_bot']], wl=f * case['wl'])
    compare_subs('all indices and the wavelength scaled', sim.run(c), a)
    return {'nontrivial': interesting(case, a), 'labels': sim.label(case)}


def scale_drawn(case):
    """the unit of length does not matter to a drawn cell either"""
    check_gap(case)

    def sized(s):
        vec = [dict(L, objs=[dict(o, **{k: s * o[k] for k in ('cx', 'cy', 'lx', 'ly')}) for o in L['objs']]) for L in case['vec']]
        return dict(case, period=[s * p for p in case['period']], wl=s * case['wl'], thickness=[s * t for t in case['thickness']],
                    vec=vec)
    a = sim.run_kw(sim.vector_kwargs(sized(1 / case['wl'])))
    r = sim.run_kw(sim.vector_kwargs(sized(case['s'] / case['wl'])))
    # coinciding edges are kept apart by about 1e-14 of a unit each, which is 1e-8 of a micrometre given in metres
    tol = 1e-5 if case['s'] < 1e-4 else 1e-7
    compare_subs('all lengths of a drawn cell scaled', r, a, keys=EFF + AMP, tol=tol)
    return {'nontrivial': any(len(L['objs']) for L in case['vec']), 'labels': [sim.BACK[case['b']]]}


def no_structure(case):
    """one medium everywhere: all light goes straight on, with the phase of the path"""
    n = case['n_top']
    cell = [uniform_like(case, [n, 0.]) for _ in case['cell']]
    c = dict(case, cell=cell, n_bot=[n, 0.])
    check_gap(c)
    r = sim.run(c)
    fy, fx = case['fto'][1], case['fto'][0]
    for nm, d in subs(r):
        want = np.zeros(shape_of(case))
        sim.close(f'{nm}: reflection of nothing', d['de_ri'], want, 1e-10)
        want[fy, fx] = 1.
        sim.close(f'{nm}: transmission of nothing', d['de_ti'], want, 1e-9)
    return {'nontrivial': True, 'labels': sim.label(case)}


SCALES = st.sampled_from([1e-9, 1e-6, 1e-3, 0.37, 12.5, 1e3, 1e6])
SCALES_DRAWN = st.sampled_from([4e-7, 1.5e-6, 1e-5, 1e-3, 0.37, 12.5, 633., 1e6])


def drawn(**kw):
    return with_extra(gen.vector_structure(kinds=('rectangle',), **kw), s=SCALES_DRAWN)


RULE = 'patterned, and at least two orders carry power'
CUT = {'cuts': st.lists(st.lists(gen.num(0.02, 0.98), min_size=0, max_size=2), min_size=1, max_size=3),
       'at': st.integers(0, 4), 'src': st.integers(0, 4), 'filler': gen.index(lossy=True)}
KW = dict(lossy=True, with_metal=True, lossy_bot=True, max_layers=3)
RELATIONS = (
    pair('cut', cut, 700, 15000, 36, 600, RULE, extra=CUT, jshards=2, zero_thickness=True, **KW)
    + pair('outside', pad_outside, 600, 12000, 30, 500, RULE, extra={'pad': gen.num(0.01, 3.), 'slabs': st.integers(1, 3)}, jshards=2, **KW)
    + pair('scale', scale, 600, 12000, 45, 800, RULE, jshards=2, scale=False,
           extra={'s': SCALES, 'f': gen.num(0.4, 2.5)}, **KW)
    + [Relation('scale-drawn', lambda s: drawn(lossy=True), scale_drawn, 300, 6000, shards=4, weight=2.,
                rule='at least one drawn object'),
       Relation('scale-drawn-jax', lambda s: drawn(backends=(1,), jax=True), scale_drawn, 8, 150, shards=1, weight=60.,
                rule='at least one drawn object')]
    + pair('nothing', no_structure, 200, 4000, 12, 200, 'always', jshards=1, max_layers=3, shards=2)
)
ASSUMPTIONS = ['orders or uniform-layer modes at cutoff are left out']
