"""P22 special points: coincidences of angle, period, index and thickness are ordinary inputs."""
from . import p11
from .common import *

PI = np.pi


def place(case):
    """move the generated structure onto the drawn coincidence(s), or a little (off) to the side"""
    c = dict(case)
    lab = []
    for i, w in enumerate(case['at']):
        off = case['off'] if (case['mask'] >> i) & 1 else 0.
        if w == 'normal':
            c['theta'] = off
        elif w == 'azimuth' and c['dim'] != '1d':
            c['phi'] = [0., PI / 2, PI, -PI / 2, -PI, PI / 4, 2 * PI, 3 * PI / 2][case['k'] % 8] + off
        elif w == 'littrow':
            # order -m goes straight back (or straight up): its in-plane wavevector vanishes or mirrors the incident one
            m = 1 + case['k'] % 2
            half = 2 if case['k'] % 4 < 2 else 1
            kx = c['n_top'] * np.sin(c['theta']) * np.cos(c['phi'] or 0.)
            if abs(kx) < 0.05:
                continue
            c['period'] = [abs(m * c['wl'] / (half * kx)) * (1 + off), c['period'][1]]
        elif w == 'index':
            # a palette entry equal to the surroundings
            L = c['cell'][case['k'] % len(c['cell'])]
            pal = list(L['pal'])
            n = [c['n_top'], 0.] if case['k'] % 2 else list(c['n_bot'])
            pal[case['k'] % len(pal)] = [n[0] + off, n[1]]
            c['cell'] = [dict(l, pal=pal) if l is L else l for l in c['cell']]
        elif w == 'vacuum':
            c['n_top'] = 1.
            c['n_bot'] = [1., 0.]
        elif w == 'matched':
            c['n_bot'] = [c['n_top'] + off, 0.]
        elif w == 'square':
            c['period'] = [c['period'][0], c['period'][0] * (1 + off)]
        elif w == 'thin':
            c['thickness'] = [abs(off) * c['wl'] if i == case['k'] % len(c['thickness']) else t for i, t in enumerate(c['thickness'])]
        elif w == 'quarter':
            # films a quarter or half a wavelength thick
            L = case['k'] % len(c['cell'])
            n = complex(*c['cell'][L]['pal'][0]).real
            c['thickness'] = [c['wl'] / n / (4 if case['k'] % 2 else 2) if i == L else t for i, t in enumerate(c['thickness'])]
        elif w == 'grazing':
            c['theta'] = np.sign(c['theta'] or 1.) * (PI / 2 - [0.1, 0.03, 0.01, 0.003, 0.001][case['k'] % 5])
        elif w == 'pure':
            if c['dim'] == '1d':
                continue
            if off and case['k'] % 3 == 0:
                c['pol'] = ['pol', off if off > 0 else 1 + off]
            elif off and case['k'] % 3 == 1:
                c['pol'] = ['pol', case['k'] % 2]
            else:
                c['pol'] = ['psi', [0., PI / 2, PI, -PI / 2, 3 * PI / 2, PI / 4][case['k'] % 6] + off]
        else:
            continue
        lab.append(w if not off else 'near-' + w)
    if c['dim'] == '1dc' and c['fto'][1] == 0 and c['pol'] in (['pol', 0], ['pol', 1]) and c['phi'] in (None, 0.):
        c['dim'] = '1d'
        c['phi'] = None
    planar = c['phi'] is None or (c['phi'] == 0. and c['b'] == 2)        # torch takes the azimuth 0 as planar incidence
    if c['dim'] == '1dc' and c['fto'][1] == 0 and planar and sim.psi_of(c) in (0., PI / 2):
        c['phi'] = None
        c['dim'] = '1d'
        c['pol'] = ['pol', 0 if sim.psi_of(c) else 1]
    return c, lab


def reference(case):
    c, lab = place(case)
    psis = (PI / 2 if c['pol'][1] == 0 else 0.,) if c['dim'] == '1d' else None
    sol = sim.reference(c, psis=psis)
    m = sim.build(c)
    r = sim.unpack(m.conv_solve())
    shape = shape_of(c)
    kt = np.hypot(sol.KX, sol.KY).reshape(shape)
    clear = kt > 1e-6
    for j, (nm, d) in enumerate(subs(r)):
        for a in ('de_ri', 'de_ti'):
            sim.close(f'{nm}.{a}', d[a], getattr(sol, a)[j], 1e-7)
        for a in ('de_ri_s', 'de_ri_p', 'de_ti_s', 'de_ti_p'):
            want = getattr(sol, a)[j]
            sim.close(f'{nm}.{a}', np.where(clear, d[a], 0.), np.where(clear, want, 0.), 1e-7)
            expect(np.all(np.isfinite(d[a])), f'{nm}.{a} is not finite')
        for a in ('R_s', 'R_p', 'T_s', 'T_p'):
            expect(np.all(np.isfinite(d[a])), f'{nm}.{a} is not finite')
        # s and p parts add up to the whole also where the split is a matter of convention
        sim.close(f'{nm}.de_ri split', d['de_ri_s'] + d['de_ri_p'], d['de_ri'], 1e-9)
        sim.close(f'{nm}.de_ti split', d['de_ti_s'] + d['de_ti_p'], d['de_ti'], 1e-9)
    if case['field']:
        sel = (True, True, True)
        rx, ry, rz = (3, 2, 3) if c['dim'] != '1d' else (3, 1, 3)
        f = p11.physical(c, m.calculate_field(res_x=rx, res_y=ry, res_z=rz, set_field_input=sel), sel)
        xs, ys, zs = p11.grid(c, (rx, ry, rz))
        for i in range(len(f)):
            want = ref.field(sol, xs, ys, zs, j=i)
            sim.close(f'field for input {i}', f[i], want, 1e-6, scale=max(1., np.abs(want).max()))
        lab = lab + ['field']
    return {'nontrivial': bool(lab) and interesting(c, r), 'labels': sim.label(c) + lab}


def at_cutoff(case, delta):
    """the period along x for which the drawn order grazes the top, the bottom or the last layer with kz = delta
    (travelling) or i delta (decaying)"""
    c = dict(case)
    if c['at'] == 'film':
        n = c['film']
        ny, nx = len(c['cell'][0]['pat']), len(c['cell'][0]['pat'][0])
        c['cell'] = c['cell'] + [{'pal': [[n, 0.]], 'pat': [[0] * nx for _ in range(ny)]}]
        c['thickness'] = c['thickness'] + [c['wl'] * 0.21]
    else:
        n = c['n_top'] if c['at'] == 'top' else c['n_bot'][0]
    phi = c['phi'] or 0.
    kx, ky = (c['n_top'] * np.sin(c['theta']) * f(phi) for f in (np.cos, np.sin))
    ky = ky + (c['wl'] / c['period'][1] * c['row'] if abs(c['row']) <= c['fto'][1] else 0.)
    k2 = n ** 2 - ky ** 2 + (-delta ** 2 if c['travel'] else delta ** 2)
    if k2 < 0.01:
        raise Skip('that order never grazes')
    g = (np.sqrt(k2) - kx) / c['order']
    if not 0.3 < g < 3:
        raise Skip('period out of range')
    c['period'] = [c['wl'] / g, c['period'][1]]
    return c


def others_clear(case, c):
    """only the drawn order is special"""
    _, _, KX, KY = ref.kvectors(c['n_top'], c['theta'], c['phi'] or 0., c['period'], c['wl'], c['fto'])
    kt2 = KX ** 2 + KY ** 2
    near = sum(int((np.abs(n ** 2 - kt2) < 4e-4).sum()) for n in {c['n_top'], c['n_bot'][0]})
    for L in c['cell']:
        used = {v for row in L['pat'] for v in row}
        if len(used) == 1:
            near += int((np.abs(complex(*L['pal'][used.pop()]) ** 2 - kt2) < 4e-4).sum())
    if near > 1:
        raise Skip('two things graze at once')


def cutoff(case):
    """an order that grazes the surface, or a film: the limit from either side"""
    delta = [0., 1e-13, 1e-10, 1e-8, 1e-6, 1e-5, 1e-4, 1e-3, 5e-3][case['k'] % 9]
    film = case['at'] == 'film'
    c = at_cutoff(case, delta)
    others_clear(case, c)
    psis = (PI / 2 if c['pol'][1] == 0 else 0.,) if c['dim'] == '1d' else None

    def want(d):
        s = sim.reference(at_cutoff(case, d), psis=psis, min_gap=0., min_q=0.)
        return s
    if film and c['dim'] == '1dc' and abs(c['n_top'] * np.sin(c['theta']) * np.sin(c['phi'] or 0.)) < 0.01:
        raise Skip('known finding F4')
    r = sim.run(c)
    lossless = all(p[1] == 0 for L in c['cell'] for p in L['pal'])
    exact = delta >= 1e-3
    a = want(delta if exact else 1e-3)
    b = None if exact else want(2e-3)
    for j, (nm, d) in enumerate(subs(r)):
        for k, v in d.items():
            expect(np.all(np.isfinite(v)), f'{nm}.{k} is not finite')
        tot = d['de_ri'].sum() + d['de_ti'].sum()
        if lossless:
            expect(abs(tot - 1) < 1e-6, f'{nm}: total {tot!r} of a lossless structure with a grazing order')
        for k in ('de_ri', 'de_ti'):
            va = getattr(a, k)[j]
            tol = 1e-6 if exact else 3 * np.abs(getattr(b, k)[j] - va).max() + 1e-4
            sim.close(f'{nm}.{k}', d[k], va, tol, scale=1.)
    return {'nontrivial': interesting(c, r), 'labels': sim.label(c) + [case['at'], 'travelling' if case['travel'] else 'decaying',
            f'{delta:g}']}


def steep(case):
    """incidence close to grazing: still an ordinary angle"""
    c = dict(case, theta=float(np.copysign(PI / 2 - 10. ** -case['g'], case['theta'] or 1.)))
    args = (c['n_top'], gen.cnum(c['n_bot']), c['theta'], c['phi'] or 0., c['period'], c['wl'], c['fto'])
    _, _, KX, KY = ref.kvectors(c['n_top'], c['theta'], c['phi'] or 0., c['period'], c['wl'], c['fto'])
    kt2 = (KX ** 2 + KY ** 2).ravel()
    rest = np.delete(kt2, len(kt2) // 2)
    if rest.size and np.min(np.abs(c['n_top'] ** 2 - rest)) < 0.02 or np.min(np.abs(gen.cnum(c['n_bot']) ** 2 - kt2)) < 0.02:
        raise Skip('another order is close to cutoff')
    psis = (PI / 2 if c['pol'][1] == 0 else 0.,) if c['dim'] == '1d' else None
    sol = sim.reference(c, psis=psis, min_gap=0.)
    r = sim.run(c)
    for j, (nm, d) in enumerate(subs(r)):
        for a in ('de_ri', 'de_ti', 'de_ri_s', 'de_ri_p', 'de_ti_s', 'de_ti_p'):
            sim.close(f'{nm}.{a}', d[a], getattr(sol, a)[j], 1e-6)
    return {'nontrivial': interesting(c, r), 'labels': sim.label(c) + [f"1e-{int(case['g'])}"]}


def f4_probe():
    """F4 as recorded: an air gap under a pattern, period equal to the wavelength, normal incidence"""
    u = np.array([[[1., 2., 3.], [1, 1, 2], [2, 1, 3]], [[1.] * 3] * 3])
    try:
        r = sim.run_kw(dict(backend=0, n_top=1., n_bot=1.5, theta=0., phi=0., psi=0.7, period=[1., 1.], wavelength=1.,
                            fto=[2, 2], ucell=u, thickness=[0.4, 0.3]))['res']
    except np.linalg.LinAlgError:
        return True
    return not abs(r['de_ri'].sum() + r['de_ti'].sum() - 1) < 1e-6


KNOWN = [('F4 a uniform layer with an order exactly at its own cutoff (air gap, period = wavelength, normal incidence) fails or '
          'gives garbage on the 2D solver', f4_probe)]
AT = ['normal', 'azimuth', 'littrow', 'index', 'vacuum', 'matched', 'square', 'thin', 'quarter', 'pure', 'grazing']
EXTRA = {'at': st.lists(st.sampled_from(AT), min_size=1, max_size=4, unique=True), 'k': st.integers(0, 47), 'field': st.booleans(),
         'mask': st.integers(0, 15), 'off': st.one_of(st.just(0.), st.builds(lambda e, s: s * 10. ** -e, gen.num(1.7, 5.), st.sampled_from([1., -1.])))}
RULE = 'on a coincidence, patterned, and at least two orders carry power'
RELATIONS = pair('reference', reference, 1200, 30000, 60, 1500, RULE, extra=EXTRA, lossy=True, with_metal=True,
                 lossy_bot=True, max_layers=4)
CUT = {'k': st.integers(0, 8), 'order': st.sampled_from([1, 1, -1]), 'row': st.sampled_from([0, 0, 1, -1]),
       'travel': st.booleans(), 'film': gen.num(1.05, 2.)}
RELATIONS += pair('cutoff', cutoff, 700, 15000, 0, 0, RULE, extra=dict(CUT, at=st.sampled_from(['top', 'bot'])), lossy=True,
                  max_layers=3, max_theta=1.)
RELATIONS += pair('cutoff', cutoff, 0, 0, 30, 600, RULE, extra=dict(CUT, at=st.sampled_from(['top', 'bot'])), lossy=True,
                  max_layers=2, jshards=2, max_theta=1.)
RELATIONS += pair('film', cutoff, 400, 8000, 0, 0, RULE, extra=dict(CUT, at=st.just('film')), dims=('1d', '1dc'), lossy=True,
                  max_layers=3, max_theta=1.)
RELATIONS += pair('film', cutoff, 0, 0, 20, 400, RULE, extra=dict(CUT, at=st.just('film')), dims=('1d', '1dc'), lossy=True,
                  max_layers=2, jshards=2, max_theta=1.)
RELATIONS += pair('steep', steep, 400, 8000, 20, 300, RULE, extra={'g': gen.num(0.7, 4.)}, lossy=True, with_metal=True,
                  lossy_bot=True, max_layers=3, jshards=1)
ASSUMPTIONS = ['orders or uniform-layer modes at cutoff are left out']
