"""P06 the 1D, conical and 2D formulations agree, and polarisation is a coherent superposition."""
from .common import *

AMP = ('R_s', 'R_p', 'T_s', 'T_p')


def widen(case, **over):
    """same grating written with several identical rows, so the 2D solver runs"""
    cell = [{'pal': L['pal'], 'pat': [L['pat'][0]] * case['rows']} for L in case['cell']]
    return dict(case, cell=cell, dim='2d', **over)


def pad(case, a):
    """(1, ffx) result -> result with fto_y orders, dark off the middle row"""
    fy = case['fto'][1]
    out = np.zeros((2 * fy + 1,) + a.shape[1:], dtype=a.dtype)
    out[fy] = a[a.shape[0] // 2]
    return out


def forms(case):
    """1D TE/TM solver = conical solver at phi = 0 = 2D solver"""
    check_gap(case)
    check_modes(case)
    base = dict(case, dim='1d', phi=None, fto=[case['fto'][0], 0])
    r1 = sim.run(base)
    n = 0
    alt = {'2d': widen(case, phi=case['phi0'])}
    if case['b'] == 2:
        # torch solves phi = 0 as 1D; an azimuth of a full turn is the same plane
        alt['conical'] = dict(case, dim='1dc', phi=2 * np.pi, fto=[case['fto'][0], 0])
    else:
        alt['conical'] = dict(case, dim='1dc', phi=0., fto=[case['fto'][0], 0])
        if case['fto'][1]:
            alt['conical with y orders'] = dict(case, dim='1dc', phi=case['phi0'])
    for name, c in alt.items():
        r = sim.run(c)
        which = 'te' if case['pol'][1] == 0 else 'tm'
        for sub in ('res', which):
            for a in EFF:
                want = pad(c, r1['res'][a])
                sim.close(f'{name} solver against 1D solver: {sub}.{a}', r[sub][a], want, TOL)
        n += 1
    return {'nontrivial': interesting(base, r1), 'labels': sim.label(base)}


def conical2d(case):
    """conical solver = 2D solver for a grating uniform along y"""
    check_gap(case)
    check_modes(case)
    a, b = sim.run(case), sim.run(widen(case))
    compare_subs('2D solver against conical solver', b, a, keys=EFF)
    compare_subs('2D solver against conical solver', b, a, keys=AMP, tol=1e-7)
    return {'nontrivial': interesting(case, a), 'labels': sim.label(case)}


def superpose(case):
    """response to any polarisation = sin(psi) TE response + cos(psi) TM response; the TE and TM responses
    reported next to it do not depend on psi and equal the runs at pol = 0 and pol = 1"""
    check_gap(case)
    check_modes(case)
    r = sim.run(case)
    te, tm = sim.run(dict(case, pol=['pol', 0])), sim.run(dict(case, pol=['pol', 1]))
    psi = sim.psi_of(case)
    for k in AMP:
        sim.close(f'res.{k} against the superposition of TE and TM', r['res'][k],
                  np.sin(psi) * te['res'][k] + np.cos(psi) * tm['res'][k], 1e-8)
        sim.close(f'res.{k} against its own te/tm parts', r['res'][k],
                  np.sin(psi) * r['te'][k] + np.cos(psi) * r['tm'][k], 1e-8)
    for nm, other in (('te', te), ('tm', tm)):
        for k in AMP + EFF:
            sim.close(f'{nm}.{k} reported at psi={psi:.4g} against the run with that polarisation', r[nm][k],
                      other['res'][k], 1e-8)
            sim.close(f'{nm}.{k} depends on psi', r[nm][k], other[nm][k], 1e-8)
    # pol is the same knob as psi, and psi is periodic
    if case['pol'][0] == 'pol':
        alt = sim.run(dict(case, pol=['psi', psi]))
    else:
        alt = sim.run(dict(case, pol=['psi', psi + 2 * np.pi]))
    for k in EFF:
        sim.close(f'res.{k} for the same polarisation spelled differently', alt['res'][k], r['res'][k], TOL)
    opp = sim.run(dict(case, pol=['psi', psi + np.pi]))
    for k in EFF:
        sim.close(f'res.{k} for psi + pi', opp['res'][k], r['res'][k], TOL)
    mixed = 1e-3 < abs(np.sin(psi) * np.cos(psi))
    return {'nontrivial': interesting(case, r) and mixed, 'labels': sim.label(case)}


RULE = 'patterned, and at least two orders carry power'
ROWS = {'rows': st.integers(2, 4), 'phi0': st.sampled_from([None, 0.])}
JROWS = {'rows': st.just(2), 'phi0': st.sampled_from([None, 0.])}


def with_y(strategy):
    return st.builds(lambda c, f: dict(c, fto=[c['fto'][0], f]), strategy, st.sampled_from([0, 0, 1, 2]))


def forms_strategy(backends, jax_shape=None):
    s = gen.structure(backends=backends, dims=('1d',), lossy=True, with_metal=True, lossy_bot=True, max_layers=3,
                      jax_shape=jax_shape, max_n=7)
    s = s.filter(lambda c: c['fto'][0] <= 6)
    if jax_shape is None:
        return with_extra(with_y(s), **ROWS)
    return with_extra(s, **JROWS)


RELATIONS = [
    Relation('forms', lambda s: forms_strategy((0, 2)), forms, 700, 15000, shards=4, weight=2, rule=RULE),
    Relation('forms-jax', lambda s: forms_strategy((1,), gen.JAX_SHAPES[s % 3]), forms, 30, 600, shards=2, weight=90,
             rule=RULE),
] + pair('conical2d', conical2d, 500, 10000, 20, 400, RULE, dims=('1dc',), lossy=True, lossy_bot=True, max_layers=3,
         max_n=7, extra=ROWS, jshards=2) \
  + pair('superpose', superpose, 500, 10000, 30, 500, RULE + ', genuinely mixed polarisation', dims=('1dc', '2d'),
         lossy=True, with_metal=True, lossy_bot=True, max_layers=3, jshards=2, phi_none_ok=False)
ASSUMPTIONS = ['orders or uniform-layer modes at cutoff are left out']
