"""P20 diagonal anisotropy (torch): each Cartesian index acts on its own field component."""
import json

from . import p11, p12, p13
from .common import *

NAMES = ('Ex', 'Ey', 'Ez', 'Hx', 'Hy', 'Hz')


def cell4(case, dtype=None):
    """(layers, ny, nx, 3)"""
    a = np.array([[[[complex(*c) for c in L['pal'][v]] for v in row] for row in L['pat']] for L in case['aniso']])
    return a.real.copy() if dtype is None and np.all(a.imag == 0) else a


def layers(case):
    u = cell4(case, 'complex')
    mode = gen.mode_of(case)
    out = []
    for l, d in zip(u, case['thickness']):
        m = [ref.raster_layer(l[..., c], *case['fto'], mode, sim.rows_up(case)) for c in range(3)]
        out.append((m[0][0], m[1][1], m[2][2], d))
    return out


@st.composite
def triple(draw, lossy):
    kind = draw(st.integers(0, 5))
    if kind == 0:
        n = draw(gen.index(lossy=lossy))
        return [n, n, n]
    t = [draw(gen.index(lossy=lossy)) for _ in range(3)]
    if kind == 1:
        i = draw(st.integers(0, 2))
        t[i] = t[(i + 1) % 3]
    return t


@st.composite
def structure(draw, lossy=True, dims=('1d', '1dc', '2d'), max_layers=3, fto1=None, fto2=None, max_theta=1.25):
    c = draw(gen.structure(backends=(2,), dims=dims, lossy_bot=lossy, max_layers=max_layers, max_n=6,
                           max_theta=max_theta))
    if c['dim'] == '2d' and fto2:
        c['fto'] = draw(st.sampled_from(fto2))
    if c['dim'] != '2d' and fto1:
        c['fto'] = draw(st.sampled_from(fto1))
    if c['dim'] == '1dc' and c['pol'] in (['pol', 0], ['pol', 1]) and c['fto'][1] == 0 and not c['phi']:
        c['dim'] = '1d'
    an = []
    for L in c.pop('cell'):
        ny, nx = len(L['pat']), len(L['pat'][0])
        k = draw(st.integers(1, 3))
        an.append({'pal': [draw(triple(lossy)) for _ in range(k)],
                   'pat': [[v % k for v in row] for row in L['pat']]})
    c['aniso'] = an
    return c


def differs(case):
    return any(p[0] != p[1] or p[1] != p[2] for L in case['aniso'] for row in L['pat'] for p in (L['pal'][v] for v in row))


def kwargs(case, **over):
    c = dict(case, cell=[{'pal': [[1., 0.]], 'pat': [[0]]}])
    k = sim.kwargs(c)
    k['ucell'] = cell4(case)
    k.update(over)
    return k


def solve(case, psis=None):
    if psis is None and case['dim'] == '1d':
        psis = (np.pi / 2 if case['pol'][1] == 0 else 0.,)
    return sim.reference(case, psis=psis, layers=layers(case))


def labels(case):
    return sim.label(case) + ['anisotropic' if differs(case) else 'isotropic values']


def reference(case):
    """efficiencies and amplitudes of every order and the field at every point, against the independent solver"""
    sol = solve(case)
    m = sim.meent().call_mee(**kwargs(case))
    r = sim.unpack(m.conv_solve())
    compare(case, sol, r)
    rx, ry, rz = case['res']
    sel = (True, True, True)
    f = p11.physical(case, m.calculate_field(res_x=rx, res_y=ry, res_z=rz, set_field_input=sel), sel)
    xs, ys, zs = p11.grid(case, case['res'])
    for i in range(len(f)):
        want = ref.field(sol, xs, ys, zs, j=i)
        for c, name in enumerate(NAMES):
            sim.close(f'{name} for input {i}', f[i][..., c], want[..., c], 1e-7, scale=max(1., np.abs(want).max()))
    return {'nontrivial': differs(case), 'labels': labels(case)}


def compare(case, sol, r):
    expect(len(subs(r)) == (1 if case['dim'] == '1d' else 3), 'sub-results')
    for j, (nm, d) in enumerate(subs(r)):
        for k, v in p12.wanted(case, sol, j, nm).items():
            sim.close(f'{nm}.{k}', d[k], v, 1e-7)
        for a, b in (('de_ri_s', sol.de_ri_s), ('de_ri_p', sol.de_ri_p), ('de_ti_s', sol.de_ti_s), ('de_ti_p', sol.de_ti_p)):
            sim.close(f'{nm}.{a}', d[a], b[j], 1e-8)
        sim.close(f'{nm}.de_ri', d['de_ri'], d['de_ri_s'] + d['de_ri_p'], 1e-10)
        sim.close(f'{nm}.de_ti', d['de_ti'], d['de_ti_s'] + d['de_ti_p'], 1e-10)


def conserve(case):
    check_gap(case)
    r = sim.run_kw(kwargs(case))
    solve(case)
    lossless = all(c[1] == 0 for L in case['aniso'] for p in L['pal'] for c in p) and gen.cnum(case['n_bot']).imag == 0
    for nm, d in subs(r):
        tot = d['de_ri'].sum() + d['de_ti'].sum()
        if lossless:
            expect(abs(tot - 1) < 1e-8, f'{nm}: total {tot!r} of a lossless structure')
        expect(tot < 1 + 1e-8 and min(d['de_ri'].min(), d['de_ti'].min()) > -1e-8, f'{nm}: total {tot!r} is not passive')
    return {'nontrivial': differs(case), 'labels': labels(case) + ['lossless' if lossless else 'lossy']}


def relate(case):
    """equal indices are the isotropic structure; exchanging the roles of x and y exchanges nx with ny; a component the
    light has none of does not matter"""
    check_gap(case)
    solve(case)
    r = sim.run_kw(kwargs(case))
    lab = []
    u = cell4(case, 'complex')
    # (a) n, n, n
    iso = np.repeat(u[..., case['which']][..., None], 3, axis=3)
    a = sim.run_kw(kwargs(case, ucell=iso))
    b = sim.run_kw(kwargs(case, ucell=iso[..., 0].copy()))
    sol = sim.reference(case, psis=(0.,), layers=[x for x in layers(dict(case, aniso=[
        {'pal': [[p[case['which']]] * 3 for p in L['pal']], 'pat': L['pat']} for L in case['aniso']]))])
    compare_subs('three equal indices against one', a, b, keys=EFF + p12.AMP, tol=1e-7)
    # (b) a component without light
    if case['dim'] == '1d':
        v = u.copy()
        dead = (0, 2) if case['pol'][1] == 0 else (1,)
        for c in dead:
            v[..., c] = v[..., c] * 1.3 + 0.2
        compare_subs(f'changing index {dead}, which this polarisation does not feel', sim.run_kw(kwargs(case, ucell=v)),
                     r, keys=EFF + p12.AMP, tol=1e-9)
        lab.append('unfelt component')
    # (c) real and complex storage, numpy and tensor
    import torch
    compare_subs('complex storage', sim.run_kw(kwargs(case, ucell=torch.tensor(u))), r, keys=EFF + p12.AMP, tol=1e-9)
    # (d) setting the cell afterwards
    m = sim.meent().call_mee(**kwargs(case, ucell=iso[..., 0].copy()))
    m.ucell = cell4(case)
    compare_subs('cell assigned later', sim.unpack(m.conv_solve()), r, keys=EFF + p12.AMP, tol=1e-9)
    return {'nontrivial': differs(case), 'labels': labels(case) + lab}


# ------------------------------------------------------------------ drawn
@st.composite
def vector(draw, lossy=True):
    c = draw(gen.vector_structure(backends=(2,), lossy=lossy, lossy_bot=lossy, max_layers=2, max_objs=3,
                                  kinds=('rectangle', 'rectangle0')))
    for L in c['vec']:
        for o in [L] + L['objs']:
            if draw(st.integers(0, 2)):
                o['three'] = draw(triple(lossy))
            o['how'] = draw(st.sampled_from(['tuple', 'list', 'tensor', 'mixed']))
    return c


def comps(o, key):
    return [complex(*v) for v in o.get('three') or [o[key]] * 3]


def as_given(o, key):
    import torch
    if 'three' not in o:
        return sim.number(o[key])
    v = [sim.number(x) for x in o['three']]
    if o['how'] == 'tuple':
        return tuple(v)
    if o['how'] == 'list':
        return v
    if o['how'] == 'tensor':
        return torch.tensor(v, dtype=torch.complex128)
    return [torch.tensor(v[0], dtype=torch.complex128), v[1], torch.tensor([v[2]], dtype=torch.complex128)]


def drawn(case):
    instr, ls = [], []
    for L, d in zip(case['vec'], case['thickness']):
        objs, boxes = [], []
        for o in L['objs']:
            objs.append([o['kind'], o['cx'], o['cy'], o['lx'], o['ly'], as_given(o, 'n'), o['angle'], o['a'], o['b']])
            lx, ly = (o['ly'], o['lx']) if abs(np.cos(o['angle'])) < 0.5 else (o['lx'], o['ly'])
            boxes.append((o['cy'] - ly / 2, o['cx'] - lx / 2, o['cy'] + ly / 2, o['cx'] + lx / 2, o))
        instr.append([as_given(L, 'base'), objs])
        mats = []
        for c in range(3):
            n, xs, ys = sim.paint(comps(L, 'base')[c], [b[:4] + (comps(b[4], 'n')[c],) for b in boxes], case['period'])
            mats.append(ref.layer_grid(n ** 2, xs, ys, *case['fto']))
        ls.append((mats[0][0], mats[1][1], mats[2][2], d))
    sol = sim.reference(case, layers=ls)
    r = sim.run_kw(sim.vector_kwargs(case, ucell=instr))
    for j, (nm, d) in enumerate(subs(r)):
        for k, v in p12.wanted(case, sol, j, nm).items():
            sim.close(f'{nm}.{k}', d[k], v, 2e-6)
    three = sum('three' in o for L in case['vec'] for o in [L] + L['objs'])
    return {'nontrivial': three > 0 and any(L['objs'] for L in case['vec']),
            'labels': sim.label(dict(case, ft=1)) + ['three' if three else 'plain'] +
            (['mixed layer'] if any(0 < sum('three' in o for o in [L] + L['objs']) < 1 + len(L['objs']) for L in case['vec']) else [])}


# ------------------------------------------------------------------ gradients
@st.composite
def gradient_case(draw):
    c = draw(structure(max_layers=2, fto1=SMALL1, fto2=SMALL2, max_theta=1.))
    if c['dim'] != '1d' and not c['phi']:
        c['phi'] = 0.4          # known finding F3
    return c


def gradient(case):
    check_gap(case, 0.05)
    sol = sim.reference(case, layers=layers(case), min_gap=0.05, min_q=0.02,
                        psis=(0.,) if case['dim'] == '1d' else None)
    p13.check_eig(sol)
    import torch
    u = cell4(case, 'complex' if case['cplx'] else None)
    w = p13.weights(case, shape_of(case))

    def value(v, grad=False):
        t = torch.tensor(v, requires_grad=grad)
        k = kwargs(case, ucell=t)
        return t, p13.functional(case, sim.meent().call_mee(**k).conv_solve(), w)
    t, y = value(u, True)
    y.backward()
    expect(t.grad is not None, 'no gradient reaches the cell')
    g = np.conj(sim.arr(t.grad))
    expect(g.shape == u.shape and np.all(np.isfinite(g)), f'gradient {g.shape}')
    rs = np.random.RandomState(case['seed'] + 1)
    typical = np.sqrt(np.sum(np.abs(g) ** 2))
    done = 0
    # one component everywhere, one pixel, and everything
    comp = case['which']
    for kind in ('component', 'pixel', 'all'):
        d = rs.uniform(-1, 1, u.shape)
        if np.iscomplexobj(u):
            d = d + 1j * rs.uniform(-1, 1, u.shape)
        if kind != 'all':
            keep = np.zeros(u.shape)
            if kind == 'component':
                keep[..., comp] = 1
            else:
                keep[tuple(rs.randint(s) for s in u.shape[:3]) + (comp,)] = 1
            d = d * keep
        if case['dim'] != '1d':
            # known finding F3: a single index of a uniform layer with three equal ones
            for l, L in enumerate(case['aniso']):
                used = {json.dumps(L['pal'][v]) for row in L['pat'] for v in row}
                if len(used) == 1 and len({json.dumps(c) for c in json.loads(next(iter(used)))}) == 1:
                    d[l] = d[l].sum(axis=-1, keepdims=True)
        ad = float(np.sum(g * d).real)
        est = [(float(value(u + h * d)[1]) - float(value(u - h * d)[1])) / (2 * h) for h in (2e-4, 1e-4, 5e-5)]
        r1, r2 = (4 * est[1] - est[0]) / 3, (4 * est[2] - est[1]) / 3
        err = abs(r1 - r2) * 5
        scale = 1. + abs(r2) + typical
        if err > 1e-2 * scale:
            continue
        done += 1
        expect(abs(ad - r2) <= 2e-5 * scale + err,
               f'derivative along {kind} (index {comp}): automatic {ad!r}, numerical {r2!r} (numerical error {err:.1g})')
    if not done:
        raise Skip('too sharp for finite differences')
    return {'nontrivial': typical > 1e-3, 'labels': labels(case)}


def refuse(case):
    """a cell that is neither layers x rows x columns nor that with three indices is refused"""
    u = cell4(case)
    bad = {'two': u[..., :2], 'four': np.concatenate([u, u[..., :1]], axis=3), 'one': u[..., :1], 'flat': u[0, ..., 0],
           'five': u[None]}[case['bad']].copy()
    for how in ('new', 'set'):
        try:
            if how == 'new':
                sim.meent().call_mee(**kwargs(case, ucell=bad))
            else:
                sim.meent().call_mee(**kwargs(case)).ucell = bad
        except ValueError:
            continue
        except Exception as e:
            raise Violation(f'cell of shape {bad.shape} ({how}): {type(e).__name__} instead of ValueError')
        raise Violation(f'cell of shape {bad.shape} ({how}) was accepted')
    return {'nontrivial': True, 'labels': [case['bad']]}


def f3_probe():
    """F3 as recorded: the derivative along nx alone is wrong where nx = ny = nz all over a layer, and right next to it."""
    import torch
    k = dict(backend=2, n_top=1., n_bot=1.5, theta=0.3, phi=0.5, psi=0.7, period=[1.3, 1.2], wavelength=1., fto=[1, 1],
             thickness=[0.4], fourier_type=0)

    def both(nx):
        u = np.full((1, 2, 2, 3), 1.8)
        u[..., 0] = nx

        def value(v, grad=False):
            t = torch.tensor(v, requires_grad=grad)
            return t, sim.meent().call_mee(ucell=t, **k).conv_solve().res.de_ri_p[1, 1]
        t, y = value(u, True)
        y.backward()
        d = np.zeros_like(u)
        d[..., 0] = 1e-4
        return float(t.grad[..., 0].sum()), float(value(u + d)[1] - value(u - d)[1]) / 2e-4
    a, n = both(1.8)
    b, m = both(1.9)
    return abs(a - n) > 1e-3 * abs(n) and abs(b - m) < 1e-4 * abs(m)


KNOWN = [('F3 gradient: where a layer is uniform and nx = ny = nz, the derivative along one of them alone is wrong (torch; '
          'the two polarisations\' modes coincide), e.g. nx of a 2x2-pixel cell of 1.8, theta=0.3, phi=0.5', f3_probe)]
WHICH = {'which': st.integers(0, 2)}
RES = {'res': st.tuples(st.integers(1, 4), st.integers(1, 4), st.integers(1, 4)).map(list)}
SMALL1 = [[1, 0], [2, 0], [3, 0]]
SMALL2 = [[1, 1], [1, 0], [0, 1], [2, 1]]
RULE = 'at least one pixel has unequal indices'
RELATIONS = [
    Relation('reference', lambda s: with_extra(structure(), **RES), reference, 900, 20000, shards=4, weight=1., rule=RULE),
    Relation('conserve', lambda s: structure(lossy=s % 2 == 1), conserve, 500, 10000, shards=2, weight=1., rule=RULE),
    Relation('relate', lambda s: with_extra(structure(), **WHICH), relate, 400, 8000, shards=3, weight=1., rule=RULE),
    Relation('drawn', lambda s: vector(), drawn, 400, 8000, shards=3, weight=1., rule='drawn objects with unequal indices'),
    Relation('gradient', lambda s: with_extra(gradient_case(), **WHICH,
             seed=st.integers(0, 10 ** 6), cplx=st.booleans()), gradient, 160, 3000, shards=4, weight=1.,
             rule='the gradient is not negligible and the numerical derivative is trustworthy'),
    Relation('refuse', lambda s: with_extra(structure(max_layers=2), bad=st.sampled_from(['two', 'four', 'one', 'flat', 'five'])),
             refuse, 60, 500, shards=1, weight=1., rule='always'),
]
ASSUMPTIONS = ['orders or layer modes at cutoff are left out', 'only torch has anisotropic cells',
               'derivatives of almost equal eigenvalues (gap between 1e-8 and 1e-2) are left out']
