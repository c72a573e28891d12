"""P04 patterned structures agree, order by order, with an independent solver."""
from .common import *


def check(case):
    sol = sim.reference(case)
    r = sim.run(case)
    for j, nm in enumerate(('res', 'te', 'tm')):
        d = r[nm]
        if d is None:
            expect(case['dim'] == '1d', f'sub-result {nm} is missing')
            continue
        for a in EFF:
            sim.close(f'{nm}.{a}', d[a], getattr(sol, a)[j], TOL)
    return {'nontrivial': interesting(case, r), 'labels': sim.label(case)}


RULE = 'patterned, and at least two orders carry power'
RELATIONS = (
    pair('lossless', check, 1500, 40000, 70, 2000, RULE, far=True)
    + pair('absorbing', check, 1500, 40000, 70, 2000, RULE, lossy=True, with_metal=True, lossy_bot=True, hi=4., far=True,
           zero_thickness=True)
    + [Relation('large', lambda s: gen.structure(backends=(0, 2), lossy=True, max_layers=6, max_n=24, max_theta=1.5,
                                                 thick=(0.02, 4.)), check, 300, 8000, shards=4, weight=3, rule=RULE)]
)
ASSUMPTIONS = ['orders or layer modes at cutoff (|kz| < 0.02, |q| < 0.002) are left out',
               'numpy and jax orient the p component of a mixed polarisation opposite to torch (finding F1); the '
               'reference follows each', 'raster rows run up for the discrete and down for the continuous series '
               '(finding F2); the reference follows each']
