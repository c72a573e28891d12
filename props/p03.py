"""P03 uniform stacks agree with Fresnel / Airy optics."""
from vlib import fresnel
from .common import *


def check(case):
    check_gap(case)
    check_modes(case)
    r = sim.run(case)
    films = [(complex(*L['pal'][0]), d) for L, d in zip(case['cell'], case['thickness'])]
    kt = abs(case['n_top'] * np.sin(case['theta']))
    n_bot = gen.cnum(case['n_bot'])
    P = fresnel.power(case['n_top'], n_bot, films, kt, case['wl'])
    A = fresnel.stack(case['n_top'], n_bot, films, kt, case['wl'])
    psi = sim.psi_of(case)
    share = {'res': (np.sin(psi) ** 2, np.cos(psi) ** 2), 'te': (1., 0.), 'tm': (0., 1.)}
    fy, fx = case['fto'][1], case['fto'][0]
    zero = np.zeros(shape_of(case))
    for nm, d in subs(r):
        ws, wp = share[nm]
        for key, val in (('de_ri_s', ws * P['s'][0]), ('de_ri_p', wp * P['p'][0]),
                         ('de_ti_s', ws * P['s'][1]), ('de_ti_p', wp * P['p'][1])):
            want = zero.copy()
            want[fy, fx] = val
            sim.close(f'{nm}.{key} of a uniform stack', d[key], want, TOL)
        # complex amplitudes of the specular order, on the backend's own fixed convention
        want = amplitudes(case, A, nm, psi)
        for key, val in want.items():
            got = d[key].copy()
            sim.close(f'{nm}.{key} of a uniform stack', got[fy, fx], val, 1e-7)
            got[fy, fx] = 0
            sim.close(f'{nm}.{key} of a uniform stack, other orders', got, zero, 1e-7)
    lossy = any(f[0].imag for f in films)
    return {'nontrivial': len({f[0] for f in films}) > 1 or films[0][1] > 0,
            'labels': sim.label(case) + ['absorbing' if lossy else 'clear',
                                         'tir' if kt > n_bot.real else 'refracting']}


def amplitudes(case, A, nm, psi):
    """specular amplitudes expected on the backend's convention (DESIGN.md, conventions)."""
    n_top, n_bot = case['n_top'], gen.cnum(case['n_bot'])
    (rs, ts), (rp, tp) = A['s'], A['p']
    s, p = {'res': (np.sin(psi), np.cos(psi)), 'te': (1., 0.), 'tm': (0., 1.)}[nm]
    one_d = case['dim'] == '1d'
    if case['b'] == 2:
        h = n_top if one_d else n_bot
        # tangential H of the incident p wave is n_top; torch divides by the index and conjugates
        return {'R_s': np.conj(rs * s), 'R_p': np.conj(rp * p), 'T_s': np.conj(ts * s),
                'T_p': np.conj(tp * n_top / h * p)}
    if one_d:
        return {'R_s': rs * s, 'R_p': rp * p, 'T_s': ts * s, 'T_p': tp * p}
    # numpy and jax keep H itself, rotated by i
    return {'R_s': rs * s, 'R_p': 1j * n_top * rp * p, 'T_s': ts * s, 'T_p': 1j * n_top * tp * p}


def uniform(**kw):
    def flat(c):
        for L in c['cell']:
            L['pal'] = L['pal'][:1]
            L['pat'] = [[0] * len(L['pat'][0]) for _ in L['pat']]
        return c
    return gen.structure(lossy=True, lossy_bot=True, with_metal=True, zero_thickness=True, **kw).map(flat)


RELATIONS = [
    Relation('stack', lambda s: uniform(backends=(0, 2), max_layers=6), check, 2000, 40000, shards=5,
             rule='at least one film of finite thickness or two different films'),
    Relation('stack-jax', lambda s: uniform(backends=(1,), max_layers=3, jax_shape=gen.JAX_SHAPES[s % 3]), check, 150, 3000,
             shards=3, weight=40, rule='as above'),
]
ASSUMPTIONS = ['a film exactly at total-reflection cutoff is left out']
