"""P02 passivity: absorption never creates power, and attenuates at the physical rate."""
from .common import *


def check(case):
    check_gap(case)
    check_modes(case)
    r = sim.run(case)
    kt2 = transverse2(case)
    for nm, d in subs(r):
        for a in EFF:
            expect(np.all(np.isfinite(d[a])), f'{nm}.{a} is not finite')
            expect(d[a].min() > -1e-9, f'{nm}.{a}: negative efficiency {d[a].min()}')
        total = d['de_ri'].sum() + d['de_ti'].sum()
        expect(total < 1 + TOL, f'{nm}: a passive structure returns {total!r} of the incident power')
        dark = kt2 > case['n_top'] ** 2 + 1e-6
        expect(np.all(np.abs(d['de_ri'][dark]) < 1e-10), f'{nm}: an evanescent reflected order carries power')
    lossy = any(p[1] for L in case['cell'] for p in L['pal']) or (isinstance(case['n_bot'], list) and case['n_bot'][1])
    t = r['res']['de_ri'].sum() + r['res']['de_ti'].sum()
    return {'nontrivial': bool(lossy and gen.is_patterned(case)),
            'labels': sim.label(case) + ['absorbed>1%' if t < 0.99 else 'absorbed<1%']}


def substrate(case):
    """lossless layers on an absorbing substrate: what is not reflected enters the substrate."""
    check_gap(case)
    r = sim.run(case)
    for nm, d in subs(r):
        total = d['de_ri'].sum() + d['de_ti'].sum()
        expect(abs(total - 1) < TOL,
               f'{nm}: reflected power plus power entering the substrate is {total!r}, not 1')
    return {'nontrivial': gen.is_patterned(case) and case['n_bot'][1] != 0, 'labels': sim.label(case)}


def decay(case):
    """a thick absorbing film under the structure: every transmitted order dies at its own rate."""
    check_gap(case)
    check_modes(case)
    wl = case['wl']
    n = complex(*case['film'])
    kt2 = transverse2(case)
    q = -np.sqrt(n ** 2 - kt2 + 0j).imag                  # decay per k0
    q = np.abs(q)
    k0 = 2 * np.pi / wl
    d1 = 9. / (k0 * q.min())                              # amplitude e^-9 one way
    d2 = d1 + case['step'] / (k0 * q.min())
    ny, nx = len(case['cell'][0]['pat']), len(case['cell'][0]['pat'][0])
    film = {'pal': [case['film']], 'pat': [[0] * nx for _ in range(ny)]}
    res = []
    for d in (d1, d2):
        c = dict(case, cell=case['cell'] + [film], thickness=case['thickness'] + [d])
        res.append(sim.run(c))
    n_ok = 0
    for nm, a in subs(res[0]):
        b = res[1][nm]
        sim.close(f'{nm}: reflection must not see the bottom of an opaque film', b['de_ri'], a['de_ri'], 1e-6)
        for key in ('de_ti_s', 'de_ti_p'):
            want = a[key] * np.exp(-2 * k0 * q * (d2 - d1))
            live = a[key] > 1e-16
            if not live.any():
                continue
            n_ok += 1
            ratio = b[key][live] / want[live]
            expect(np.all(np.abs(ratio - 1) < 1e-3),
                   f'{nm}.{key}: film thickened by {d2 - d1:.4g} attenuates an order by the factor '
                   f'{ratio[np.argmax(np.abs(ratio - 1))]:.6g} off the physical one')
    return {'nontrivial': n_ok > 0, 'labels': sim.label(case)}


FILM = {'film': st.builds(lambda a, b, g: [a, -b if g < 2 else -10. ** -g], gen.num(0.3, 3.), gen.num(0.05, 3.),
                          st.one_of(st.just(0.), st.just(0.), gen.num(2., 4.))), 'step': gen.num(0.3, 3.)}
RELATIONS = (
    pair('bounded', check, 1500, 40000, 90, 2000, far=True, lossy=True, with_metal=True, lossy_bot=True,
         rule='patterned with an absorbing layer or substrate')
    + pair('substrate', substrate, 900, 20000, 60, 1500, lossy_bot=True, max_layers=3,
           rule='patterned on an absorbing substrate')
    + pair('decay', decay, 400, 8000, 30, 500, lossy=True, max_layers=2, extra=FILM, shards=4,
           rule='a transmitted order above rounding')
)
ASSUMPTIONS = ['incidence medium lossless', 'orders or uniform-layer modes at cutoff are left out']
