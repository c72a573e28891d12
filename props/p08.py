"""P08 geometry: shifting, mirroring, rotating and repeating the structure does to the result what it does to space."""
from .common import *

AMP = ('R_s', 'R_p', 'T_s', 'T_p')


def mapped(case, f):
    return [dict(L, pat=f(L['pat'])) for L in case['cell']]


def flip_psi(pol):
    """mirror: s and p change sign relative to each other"""
    if pol in (['pol', 0], ['pol', 1]):
        return pol
    return ['psi', -(pol[1] if pol[0] == 'psi' else np.pi / 2 * (1 - pol[1]))]


def compare(what, got, want, f, keys=EFF, tol=TOL, g=lambda nm, k, a: a):
    for nm, d in subs(want):
        if got[nm] is None:
            raise Violation(f'{what}: {nm} missing')
        for k in keys:
            sim.close(f'{what}: {nm}.{k}', got[nm][k], f(g(nm, k, d[k])), tol)


def translate(case):
    """moving all layers together changes no efficiency and turns each order's amplitude by its own phase"""
    check_gap(case)
    check_modes(case)
    ny, nx = len(case['cell'][0]['pat']), len(case['cell'][0]['pat'][0])
    sx, sy = case['shift'][0] % nx, case['shift'][1] % ny
    moved = dict(case, cell=mapped(case, lambda p: np.roll(np.array(p), (sy, sx), axis=(0, 1)).tolist()))
    a, b = sim.run(case), sim.run(moved)
    compare('shifted cell', b, a, lambda v: v)
    mx = np.arange(-case['fto'][0], case['fto'][0] + 1)[None, :]
    my = np.arange(-case['fto'][1], case['fto'][1] + 1)[:, None]
    up = 1 if sim.rows_up(case) else -1
    ph = np.exp(2j * np.pi * (mx * sx / nx + up * my * sy / ny))
    if case['b'] == 2:
        ph = ph.conj()
    compare('shifted cell', b, a, lambda v: v * ph, keys=AMP, tol=1e-7)
    return {'nontrivial': interesting(case, a) and (sx or sy) != 0, 'labels': sim.label(case)}


def mirror(case):
    check_gap(case)
    check_modes(case)
    a = sim.run(case)
    one_d = case['dim'] == '1d'
    phi = case['phi'] or 0.
    if case['axis'] == 'x' or one_d:
        cell = mapped(case, lambda p: [row[::-1] for row in p])
        c = dict(case, cell=cell, pol=flip_psi(case['pol']))
        if one_d:
            c['theta'] = -case['theta']
        else:
            c['phi'] = np.pi - phi
        compare('mirrored in x', sim.run(c), a, lambda v: v[:, ::-1])
    else:
        c = dict(case, cell=mapped(case, lambda p: p[::-1]), phi=-phi, pol=flip_psi(case['pol']))
        compare('mirrored in y', sim.run(c), a, lambda v: v[::-1])
    if not one_d:
        # half a turn of sample and light together
        c = dict(case, cell=mapped(case, lambda p: [row[::-1] for row in p[::-1]]), phi=phi + np.pi)
        compare('turned by 180 degrees', sim.run(c), a, lambda v: v[::-1, ::-1])
        # the same wave, written with the opposite polar angle
        c = dict(case, theta=-case['theta'], phi=phi + np.pi)
        compare('the same direction of incidence written with -theta', sim.run(c), a, lambda v: v)
        c = dict(case, phi=phi + 2 * np.pi * case['turns'])
        if c['phi'] != 0 or case['dim'] == '2d':
            compare('phi plus full turns', sim.run(c), a, lambda v: v)
    return {'nontrivial': interesting(case, a), 'labels': sim.label(case)}


def quarter(case):
    """a quarter turn of sample and light together.  Exact under truncation when every layer varies along one
    direction only (layers may differ in direction), so those are drawn"""
    check_gap(case)
    layers, turned = [], []
    N = case['n']
    up = sim.rows_up(case)
    for L in case['lam']:
        line = [L['pal'][v] for v in L['line']]
        idx = [list(range(len(line)))] * 1
        if L['dir'] == 'x':
            pat = [list(range(N))] * N
        else:
            pat = [[N - 1 - j if not up else j] * N for j in range(N)]      # pixel j along +y has value line[j]
        layers.append({'pal': line, 'pat': pat})
        # quarter turn: new x of a y-line is -y, so the line is reversed; new y of an x-line is x
        if L['dir'] == 'x':
            pat2 = [[N - 1 - j if not up else j] * N for j in range(N)]
        else:
            pat2 = [list(range(N))[::-1]] * N
        turned.append({'pal': line, 'pat': pat2})
    phi = case['phi'] or 0.
    a = dict(case, cell=layers)
    b = dict(case, cell=turned, period=case['period'][::-1], fto=case['fto'][::-1], phi=phi + np.pi / 2)
    check_modes(a)
    ra, rb = sim.run(a), sim.run(b)
    # new order (mx', my') = (-my, mx)
    compare('turned by 90 degrees', rb, ra, lambda v: v.T[:, ::-1])
    return {'nontrivial': interesting(a, ra), 'labels': sim.label(a) + [''.join(L['dir'] for L in case['lam'])]}


def supercell(case):
    """the same structure described with a cell of fx x fy periods: the orders in between are dark"""
    check_gap(case)
    check_modes(case)
    fx, fy = case['rep']
    if case['dim'] != '2d':
        fy = 1
    fto = [case['fto'][0] * fx, case['fto'][1] * fy]
    if (2 * fto[0] + 1) * (2 * fto[1] + 1) > 170:
        raise Skip('large')
    big = dict(case, cell=mapped(case, lambda p: np.tile(np.array(p), (fy, fx)).tolist()), fto=fto,
               period=[case['period'][0] * fx, case['period'][1] * fy])
    check_gap(big)
    check_modes(big)
    a, b = sim.run(case), sim.run(big)

    def spread(v):
        out = np.zeros((2 * fto[1] + 1, 2 * fto[0] + 1), dtype=v.dtype)
        out[::fy, ::fx] = v
        return out
    compare(f'{fx}x{fy} supercell', b, a, spread)
    return {'nontrivial': interesting(case, a) and fx * fy > 1, 'labels': sim.label(case)}


@st.composite
def lam(draw, jax=False, backends=(0, 2)):
    shape = {'2d': ([1, 1], 3, 3)} if jax else None
    c = draw(gen.structure(backends=backends, dims=('2d',), max_layers=2 if jax else 3, lossy=True, lossy_bot=True,
                           jax_shape=shape))
    layers = len(c['cell'])
    N = 3 if jax else draw(st.integers(2, 6))
    out = []
    for _ in range(layers):
        k = draw(st.integers(2, 3))
        pal = [draw(gen.index(lossy=True)) for _ in range(k)]
        out.append({'pal': pal, 'line': draw(st.lists(st.integers(0, k - 1), min_size=N, max_size=N)),
                    'dir': draw(st.sampled_from('xy'))})
    c.pop('cell')
    return dict(c, lam=out, n=N)


RULE = 'patterned, and at least two orders carry power'
SH = {'shift': st.tuples(st.integers(0, 6), st.integers(0, 6)).map(list)}
MI = {'axis': st.sampled_from('xy'), 'turns': st.sampled_from([1, -1, 2])}
RE = {'rep': st.sampled_from([[2, 1], [1, 2], [3, 1], [2, 2], [1, 3]])}
KW = dict(lossy=True, with_metal=True, lossy_bot=True, max_layers=3)
RELATIONS = (
    pair('translate', translate, 700, 15000, 45, 800, RULE + ', actually moved', extra=SH, jshards=2, **KW)
    + pair('mirror', mirror, 700, 12000, 36, 600, RULE, extra=MI, jshards=2, **KW)
    + [Relation('quarter', lambda s: lam(), quarter, 700, 12000, shards=4, rule=RULE),
       Relation('quarter-jax', lambda s: lam(jax=True, backends=(1,)), quarter, 20, 400, shards=1, weight=60, rule=RULE)]
    + pair('supercell', supercell, 350, 7000, 0, 0, RULE + ', really repeated', extra=RE, fts=(1,), lossy=True,
           lossy_bot=True, max_layers=2, max_n=6, shards=4)
)
ASSUMPTIONS = ['orders or uniform-layer modes at cutoff are left out',
               'a quarter turn is exact in a truncated expansion only for layers varying along one direction; supercells '
               'only for the continuous series']
