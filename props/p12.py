"""P12 complex amplitudes: phase and size of every order, and the efficiencies follow from them."""
from .common import *

AMP = ('R_s', 'R_p', 'T_s', 'T_p')


def magnetic(case, d):
    """(R_s, R_h, T_s, T_h) up to the fixed phase: s as electric, p as magnetic amplitude per unit incident E"""
    n_top, n_bot = case['n_top'], gen.cnum(case['n_bot'])
    if case['dim'] == '1d':
        return d['R_s'], d['R_p'] * n_top, d['T_s'], d['T_p'] * n_top
    if case['b'] == 2:
        return d['R_s'], d['R_p'] * n_top, d['T_s'], d['T_p'] * np.conj(n_bot)
    return d['R_s'], d['R_p'], d['T_s'], d['T_p']


def wanted(case, sol, j, nm):
    """reference amplitudes on the backend's convention"""
    sg0 = sim.branch(np.cos(case['phi'] or 0.))
    sg = sim.branch(sol.kx)[None, :] * sg0
    n_top, n_bot = case['n_top'], gen.cnum(case['n_bot'])
    if case['b'] == 2:
        g = sg0 * sim.branch(sol.kx[case['fto'][0]])
        h = n_top if case['dim'] == '1d' else n_bot
        return {k: np.conj(g * v) for k, v in (('R_s', sol.R_s[j]), ('R_p', sol.R_h[j] / n_top), ('T_s', sol.T_s[j]),
                                               ('T_p', sol.T_h[j] / h))}
    if case['dim'] == '1d':
        return {'R_s': sg * sol.R_s[j], 'R_p': sg * sol.R_h[j] / n_top, 'T_s': sg * sol.T_s[j], 'T_p': sg * sol.T_h[j] / n_top}
    f = -1. if nm == 'tm' else 1.
    return {'R_s': f * sg * sol.R_s[j], 'R_p': -1j * f * sg * sol.R_h[j], 'T_s': f * sg * sol.T_s[j],
            'T_p': -1j * f * sg * sol.T_h[j]}


def check(case):
    if case['dim'] == '1d':
        sol = sim.reference(case, psis=(np.pi / 2 if case['pol'][1] == 0 else 0.,))
    else:
        sol = sim.reference(case)
    r = sim.run(case)
    shape = shape_of(case)
    inc = case['n_top'] * np.cos(case['theta'])
    qt, qb = sol.q_top.reshape(shape), sol.q_bot.reshape(shape)
    et, eb = case['n_top'] ** 2, gen.cnum(case['n_bot']) ** 2
    for j, (nm, d) in enumerate(subs(r)):
        rs, rh, ts, th = magnetic(case, d)
        for k, v in (('de_ri_s', np.abs(rs) ** 2 * qt.real / inc), ('de_ri_p', np.abs(rh) ** 2 * (qt / et).real / inc),
                     ('de_ti_s', np.abs(ts) ** 2 * qb.real / inc), ('de_ti_p', np.abs(th) ** 2 * (qb / eb).real / inc)):
            sim.close(f'{nm}.{k} against its own amplitude', d[k], v, 1e-8)
        for k, v in wanted(case, sol, j, nm).items():
            sim.close(f'{nm}.{k}', d[k], v, 1e-7)
    return {'nontrivial': interesting(case, r), 'labels': sim.label(case)}


RULE = 'patterned, and at least two orders carry power'
RELATIONS = pair('amplitude', check, 1500, 40000, 75, 2000, RULE, lossy=True, with_metal=True, lossy_bot=True, max_layers=5,
                 zero_thickness=True, far=True)
ASSUMPTIONS = ['orders or uniform-layer modes at cutoff are left out',
               'each backend is read on its own fixed phase and normalisation convention']
