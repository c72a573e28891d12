"""P19 dispersion models: oscillator models and graphene equal the physical integrals they stand for."""
from .common import *
from .p18 import lookup, shipped, tabulated, mod

EV = 1e2 * 8065.54429                    # 1/m per eV, the value of the published routines
Q, KB, HBAR, EPS0, VF, C = 1.6021773349e-19, 1.38064852e-23, 1.0545718e-34, 8.85418781762039e-12, 1e6, 299792458
GX, GW = np.polynomial.legendre.leggauss(40)


def panels(f, edges):
    edges = np.array(sorted(set(edges)))
    a, b = edges[:-1, None], edges[1:, None]
    return np.sum(f((a + b) / 2 + (b - a) / 2 * GX) * GW * (b - a) / 2)


def smeared_lorentz(strength, gamma, centre, sigma, omega):
    """Lorentz oscillator whose frequency is spread by a Gaussian, by direct quadrature"""
    def f(x):
        return np.exp(-0.5 * ((x - centre) / sigma) ** 2) / (np.sqrt(2 * np.pi) * sigma) * strength / (x * x - omega ** 2 - 1j * omega * gamma)
    lo, hi = centre - 12 * sigma, centre + 12 * sigma
    edges = [lo, hi] + [centre + k * sigma for k in range(-11, 12)]
    for p in (omega, -omega):
        for s in np.geomspace(gamma * 0.02, max(hi - lo, omega), 40):
            edges += [q for q in (p - s, p + s) if lo < q < hi]
        if lo < p < hi:
            edges.append(p)
    return panels(f, edges)


def oscillator(kind, c, wl):
    """n - ik of the Drude + smeared Lorentz model"""
    if kind == 'brendel-bormann-ev':
        om = 1 / wl / EV
        wp, f0, g0 = c[:3]
        eps = 1 - f0 * wp ** 2 / (om * (om + 1j * g0))
        for f, g, w0, s in zip(*[c[3 + i::4] for i in range(4)]):
            eps += smeared_lorentz(f * wp ** 2, g, w0, s, om)
    else:
        om = 1e-2 / wl
        eps = c[0]
        for f, g, s, w0 in zip(*[c[1 + i::4] for i in range(4)]):
            eps += smeared_lorentz(f, g, w0, s, om)
    return np.conj(np.sqrt(eps + 0j))


def graphene(EF, mob, T, d, wl):
    t = KB * T / Q
    E = HBAR * 2 * np.pi * C / wl / Q
    g = HBAR * VF ** 2 / (mob * 1e-4 * Q * EF)

    def H(z):
        """occupation of -z minus that of z"""
        return 0.5 * (np.tanh((z + EF) / (2 * t)) + np.tanh((z - EF) / (2 * t)))
    h = H(E / 2)
    top = 1000.
    edges = [0, top, E / 2]
    for cen in (EF, E / 2, 0.):
        for s in np.concatenate([np.arange(1, 20) * t, np.geomspace(1e-7, top, 200)]):
            edges += [q for q in (cen - s, cen + s) if 0 < q < top]
    inter = panels(lambda z: (H(z) - h) / ((E - 2 * z) * (E + 2 * z)), edges)
    x = EF / (2 * t)
    sig = 2j * Q ** 2 * t / (np.pi * HBAR * (E + 1j * g)) * (x + np.log1p(np.exp(-2 * x))) + Q ** 2 / (4 * HBAR) * (h + 4j * E / np.pi * inter)
    return np.conj(np.sqrt(1 + 1j * sig / (2 * np.pi * C / wl * d * EPS0)))


def each(f, wl):
    return np.array([f(w) for w in np.ravel(wl)]).reshape(np.shape(wl))


def wavelengths(case):
    wl = np.array(case['wl'])
    return float(wl[0]) if case['how'] == 0 else wl if case['how'] == 1 else wl.reshape(-1, 1)


def check(case, name, spec, f, tol, labels):
    wl = wavelengths(case)
    got, _ = lookup(case['b'], spec, {}, wl)
    want = each(f, wl)
    sim.close(f'{sim.BACK[case["b"]]} {name} at {wl}', got / np.abs(want), want / np.abs(want), tol)
    if np.any(got.imag > 1e-12):
        raise Violation(f'{name} amplifies at {wl}: {got}')
    return {'nontrivial': bool(np.any(np.abs(want - 1) > 1e-2)), 'labels': [sim.BACK[case['b']]] + labels}


def models(case):
    k, c = case['kind'], case['c']
    return check(case, k, {'formula': k, 'coefficients': c, 'wavelength_range': (0., 1.)}, lambda w: oscillator(k, c, w), 1e-7, [k])


_t = {}


def shipped_models(case):
    b = case['b']
    if b not in _t:
        _t[b] = mod(b).read_material_table()
    names = sorted(k for k, v in shipped().items() if v['type'].startswith('model'))
    v = shipped()[names[case['i'] % len(names)]]
    lo, hi = v['range']
    wl = np.array([lo * (hi / lo) ** f for f in case['f']])
    k = v['type'].split(None, 1)[1].strip()
    got, warned = lookup(b, names[case['i'] % len(names)], _t[b], wl)
    want = each(lambda w: oscillator(k, v['coefficients'], w), wl)
    sim.close(f'{sim.BACK[b]} {names[case["i"] % len(names)]} at {wl}', got / np.abs(want), want / np.abs(want), 1e-7)
    if warned:
        raise Violation(f'warned inside {lo} - {hi}')
    return {'nontrivial': True, 'labels': [sim.BACK[b], k]}


def falkovsky(case):
    g = case['g']
    spec = sim.meent().graphene_falkovsky(*g) if case['kw'] else sim.meent().graphene_falkovsky(
        g[0], mobility=g[1], temperature=g[2], thickness=g[3])
    r = check(case, f'graphene {g}', spec, lambda w: graphene(*g, w), 1e-6, ['cold' if g[2] < 50 else 'warm'])
    if case['kw']:
        # defaults
        dflt, _ = lookup(case['b'], sim.meent().graphene_falkovsky(g[0]), {}, case['wl'][0])
        want = graphene(g[0], 10000., 300., 0.34e-9, case['wl'][0])
        sim.close('graphene with default conditions', dflt / abs(want), want / abs(want), 1e-6)
    return r


def sampled(case):
    """the shipped graphene tables are this model, sampled"""
    ef = [200, 400, 600][case['i'] % 3]
    rows = shipped()[f'optprop_Gr_Falkovsky-ef{ef}meV']['rows']
    j = int(case['f'] * (len(rows) - 1))
    got, _ = lookup(case['b'], sim.meent().graphene_falkovsky(ef / 1000), {}, rows[j, 0])
    want = complex(rows[j, 1], -rows[j, 2])
    sim.close(f'graphene at {rows[j, 0]}', got / abs(want), want / abs(want), 1e-4)
    return {'nontrivial': True, 'labels': [str(ef)]}


BAD = [0., -1., float('nan'), float('inf'), -float('inf'), 'x', None, 1j]


def refuse(case):
    g = list(case['g'])
    v = BAD[case['i']]
    g[case['at']] = v
    try:
        s = sim.meent().graphene_falkovsky(*g)
    except (TypeError, ValueError):
        pass
    else:
        raise Violation(f'graphene conditions {g} were accepted: {s}')
    spec = sim.meent().graphene_falkovsky(*case['g'])
    for w in (0., -1e-6, float('nan'), np.array([1e-6, -1e-6])):
        try:
            r = mod(case['b']).find_nk_index(spec, {}, w)
        except ValueError:
            continue
        raise Violation(f'graphene at wavelength {w} gave {r}')
    return {'nontrivial': True, 'labels': [repr(v)]}


@st.composite
def osc(draw, bs):
    kind = draw(st.sampled_from(['brendel-bormann-ev', 'brendel-bormann-cm']))
    n = draw(st.integers(0, 3))
    if kind.endswith('ev'):
        wl = [float(1 / (EV * draw(gen.num(0.1, 6.)))) for _ in range(3)]
        c = [draw(gen.num(3., 12.)), draw(gen.num(0.1, 0.9)), draw(gen.num(0.02, 0.3))]
        for _ in range(n):
            c += [draw(gen.num(0.02, 1.)), draw(gen.num(0.02, 1.)), draw(gen.num(0.3, 5.)), draw(gen.num(0.05, 1.))]
    else:
        wl = [float(1e-2 / draw(gen.num(100., 3000.))) for _ in range(3)]
        c = [draw(gen.num(1.2, 4.))]
        for _ in range(max(n, 1)):
            w0 = draw(gen.num(150., 1500.))
            c += [w0 ** 2 * draw(gen.num(0.01, 2.)), draw(gen.num(2., 60.)), draw(gen.num(3., 80.)), w0]
    return {'b': draw(st.sampled_from(bs)), 'kind': kind, 'c': c, 'wl': wl, 'how': draw(st.integers(0, 2))}


def logs(lo, hi):
    return gen.num(np.log(lo), np.log(hi)).map(lambda v: float(np.exp(v)))


COND = st.tuples(logs(0.01, 1.5), logs(100., 1e5), logs(2., 1000.), logs(1e-10, 3e-9)).map(list)


def gra(bs):
    return st.fixed_dictionaries({'b': st.sampled_from(bs), 'g': COND, 'wl': st.lists(logs(2e-7, 3e-4), min_size=2, max_size=2),
                                  'how': st.integers(0, 2), 'kw': st.booleans()})


def shp(bs):
    return st.fixed_dictionaries({'b': st.sampled_from(bs), 'i': st.integers(0, 8), 'f': st.lists(gen.num(0.02, 0.98), min_size=1, max_size=4)})


NT = 'index differs from 1 by more than 0.01'
RELATIONS = [
    Relation('oscillators', lambda s: osc([0, 2]), models, 1800, 10000, shards=3, rule=NT),
    Relation('oscillators-jax', lambda s: osc([1]), models, 60, 600, shards=1, weight=8, rule=NT),
    Relation('shipped', lambda s: shp([0, 2]), shipped_models, 400, 3000, shards=1, weight=2, rule='always'),
    Relation('shipped-jax', lambda s: shp([1]), shipped_models, 30, 300, shards=1, weight=8, rule='always'),
    Relation('graphene', lambda s: gra([0, 2]), falkovsky, 1800, 10000, shards=3, weight=2, rule=NT),
    Relation('graphene-jax', lambda s: gra([1]), falkovsky, 60, 500, shards=1, weight=8, rule=NT),
    Relation('sampled', lambda s: st.fixed_dictionaries({'b': st.sampled_from([0, 2]), 'i': st.integers(0, 2), 'f': gen.num(0., 1.)}),
             sampled, 500, 3000, shards=1, rule='always'),
    Relation('refuse', lambda s: st.fixed_dictionaries({'b': st.sampled_from([0, 2]), 'g': COND, 'i': st.integers(0, len(BAD) - 1),
                                                        'at': st.integers(0, 3)}), refuse, 200, 1000, shards=1, rule='always'),
]
ASSUMPTIONS = ['graphene from 2 K to 1000 K and 10 meV to 1.5 eV; oscillator widths and damping not below 0.02 eV or 2 / cm']
