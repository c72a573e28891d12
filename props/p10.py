"""P10 reciprocity: swapping source and detector gives the same signal."""
from .common import *

SWAP = {('te', 's'): ('te', 's'), ('te', 'p'): ('tm', 's'), ('tm', 's'): ('te', 'p'), ('tm', 'p'): ('tm', 'p')}


def reflect(case):
    """specular reflection with the plane of incidence turned half a turn, detector polarisation and source
    polarisation exchanged"""
    check_gap(case)
    check_modes(case)
    fy, fx = case['fto'][1], case['fto'][0]
    if case['dim'] == '1d':
        a, b = sim.run(case), sim.run(dict(case, theta=-case['theta']))
        for k in ('de_ri_s', 'de_ri_p'):
            sim.close(f'specular {k} from the other side', b['res'][k][fy, fx], a['res'][k][fy, fx], 1e-8)
        r = a
    else:
        phi = case['phi'] or 0.
        a, b = sim.run(case), sim.run(dict(case, phi=phi + np.pi))
        for (inc, out), (inc2, out2) in SWAP.items():
            sim.close(f'specular {inc} -> {out} against {inc2} -> {out2} from the opposite side',
                      b[inc2]['de_ri_' + out2][fy, fx], a[inc]['de_ri_' + out][fy, fx], 1e-8)
        r = a
    return {'nontrivial': interesting(case, r), 'labels': sim.label(case)}


def transmit(case):
    """straight-through transmission: light sent back along the transmitted ray"""
    check_gap(case)
    check_modes(case)
    fy, fx = case['fto'][1], case['fto'][0]
    n_bot = case['n_bot'][0]
    s = case['n_top'] * np.sin(case['theta']) / n_bot
    if abs(s) > 0.97:
        raise Skip('totally reflected')
    back = dict(case, n_top=n_bot, n_bot=[case['n_top'], 0.], cell=case['cell'][::-1],
                thickness=case['thickness'][::-1], theta=float(np.arcsin(s)))
    a = sim.run(case)
    if case['dim'] == '1d':
        back['theta'] = -back['theta']
        b = sim.run(back)
        for k in ('de_ti_s', 'de_ti_p'):
            sim.close(f'straight-through {k} from below', b['res'][k][fy, fx], a['res'][k][fy, fx], 1e-8)
    else:
        # light going back up along the ray: its in-plane wave vector is reversed
        back['phi'] = (case['phi'] or 0.) + np.pi
        b = sim.run(back)
        for (inc, out), (inc2, out2) in SWAP.items():
            sim.close(f'straight-through {inc} -> {out} against {inc2} -> {out2} from below',
                      b[inc2]['de_ti_' + out2][fy, fx], a[inc]['de_ti_' + out][fy, fx], 1e-8)
    return {'nontrivial': interesting(case, a), 'labels': sim.label(case)}


RULE = 'patterned, and at least two orders carry power'
KW = dict(lossy=True, with_metal=True, max_layers=4)
RELATIONS = (
    pair('reflect', reflect, 1000, 20000, 60, 1000, RULE, lossy_bot=True, **KW)
    + pair('transmit', transmit, 1000, 20000, 60, 1000, RULE, **KW)
)
ASSUMPTIONS = ['orders or uniform-layer modes at cutoff are left out', 'only the zeroth order: reciprocity of other '
               'orders relates expansions with different truncations and is not exact']
