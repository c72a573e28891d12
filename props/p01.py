"""P01 energy conservation: lossless structures return all incident power."""
from .common import *


def check(case):
    check_gap(case)
    r = sim.run(case)
    kt2 = transverse2(case)
    shape = shape_of(case)
    n_bot = gen.cnum(case['n_bot']).real
    for nm, d in subs(r):
        for a in EFF:
            expect(d[a] is not None and d[a].shape == shape, f'{nm}.{a}: shape {getattr(d[a], "shape", None)} != {shape}')
            expect(not np.iscomplexobj(d[a]), f'{nm}.{a} is complex')
            expect(np.all(np.isfinite(d[a])), f'{nm}.{a} is not finite')
            expect(d[a].min() > -1e-9, f'{nm}.{a}: negative efficiency {d[a].min()}')
        total = d['de_ri'].sum() + d['de_ti'].sum()
        expect(abs(total - 1) < TOL, f'{nm}: reflected + transmitted power is {total!r}, not 1')
        sim.close(f'{nm}: de_ri_s + de_ri_p', d['de_ri_s'] + d['de_ri_p'], d['de_ri'], 1e-10)
        sim.close(f'{nm}: de_ti_s + de_ti_p', d['de_ti_s'] + d['de_ti_p'], d['de_ti'], 1e-10)
        for side, n, keys in (('reflected', case['n_top'], EFF[:2]), ('transmitted', n_bot, EFF[2:4])):
            dark = kt2 > n ** 2 + 1e-6
            for a in keys:
                expect(np.all(np.abs(d[a][dark]) < 1e-10),
                       f'{nm}.{a}: an evanescent {side} order carries power')
    return {'nontrivial': interesting(case, r), 'labels': sim.label(case)}


# --------------------------------------------------------------- vector-modelled structures
def vcheck(case):
    check_gap(case)
    kw = sim.vector_kwargs(case)
    r = sim.run_kw(kw)
    for nm, d in subs(r):
        total = d['de_ri'].sum() + d['de_ti'].sum()
        expect(abs(total - 1) < 1e-7, f'{nm}: reflected + transmitted power is {total!r}, not 1')
        expect(min(d['de_ri'].min(), d['de_ti'].min()) > -1e-9, f'{nm}: negative efficiency')
    return {'nontrivial': any(len(L['objs']) for L in case['vec']), 'labels': [sim.BACK[case['b']]]}


RELATIONS = pair('raster', check, 3000, 60000, 180, 3000, max_layers=5, far=True,
                 rule='patterned, and at least two orders carry power') + [
    Relation('vector', lambda s: gen.vector_structure(backends=(0, 2)), vcheck, 250, 6000, shards=4, weight=2,
             rule='at least one drawn object'),
    Relation('vector-jax', lambda s: gen.vector_structure(backends=(1,), jax=True), vcheck, 12, 200, shards=2, weight=60,
             rule='at least one drawn object'),
]
ASSUMPTIONS = ['structures with a diffraction order within |kz| < 0.02 of cutoff are left out']
