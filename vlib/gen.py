"""Generators.  Every case is a JSON-able dict describing one simulation; see `kwargs`."""
import numpy as np
from hypothesis import strategies as st

PI = np.pi


def num(lo, hi, n=4999):
    """a number strictly inside (lo, hi) on an irrational-offset grid, so that coincidences that make
    the physics degenerate (an order exactly at cutoff, two equal indices) are never drawn by
    accident.  Shrinks towards lo."""
    return st.integers(0, n - 1).map(lambda k: round(lo + (hi - lo) * (k + 0.381966) / n, 9))


def signed(lo, hi):
    return st.tuples(num(lo, hi), st.booleans()).map(lambda t: -t[0] if t[1] else t[0])


@st.composite
def index(draw, lossy=False, lo=1.0, hi=3.2, kmax=1.5):
    n = draw(num(lo, hi))
    if lossy and draw(st.booleans()):
        weak = draw(st.integers(0, 7)) == 7
        return [n, -10. ** -draw(num(2., 7.)) if weak else -draw(num(0.001, kmax))]
    return [n, 0.]


@st.composite
def metal(draw):
    return [draw(num(0.05, 1.5)), -draw(num(1.5, 5.))]


def cnum(v):
    return complex(*v) if isinstance(v, (list, tuple)) else v


@st.composite
def angles(draw, max_theta=1.25, with_phi=True):
    theta = draw(st.one_of(num(0.02, max_theta), num(0.02, 0.4)))
    how = draw(st.integers(0, 19))
    if how < 2:
        theta = -theta
    elif how == 19:
        theta = 10. ** -draw(num(1.5, 4.5))          # almost, but not quite, normal
    phi = draw(num(-PI, PI)) if with_phi else None
    if with_phi and draw(st.integers(0, 14)) == 14:
        phi = draw(st.sampled_from([0, 0, 0, 1, -1, 2, -2])) * PI / 2 + 10. ** -draw(num(1.5, 4.5))
    return theta, phi


@st.composite
def polarization(draw, mixed=True):
    """('pol', value) or ('psi', value)"""
    kind = draw(st.integers(0, 3)) if mixed else draw(st.integers(0, 1))
    if kind == 0:
        return ['pol', 0]
    if kind == 1:
        return ['pol', 1]
    if kind == 2:
        return ['psi', draw(num(-PI, PI))]
    if draw(st.integers(0, 5)) == 5:
        d = 10. ** -draw(num(1.5, 4.5))
        return ['pol', draw(st.sampled_from([d, 1. - d]))]
    return ['pol', draw(num(0., 1.))]


@st.composite
def raster(draw, layers, ny, nx, lossy=False, with_metal=False, uniform_some=True, hi=3.2, real_only=False,
           near=True, far=False):
    """list (layers) of [ny][nx] palette indices plus palettes; JSON-able"""
    out = []
    for _ in range(layers):
        again = draw(st.integers(0, 11)) if out and nx > 1 else 0
        if again >= 9:
            # a layer met before: the same, turned round, or with its media exchanged
            L = out[draw(st.integers(0, len(out) - 1))]
            pat = [list(row) for row in L['pat']]
            pal = [list(v) for v in L['pal']]
            if again == 10:
                pat = [row[::-1] for row in pat[::-1]]
            elif again == 11:
                pal = pal[::-1]
            out.append({'pal': pal, 'pat': pat})
            continue
        k = draw(st.integers(1 if uniform_some else 2, 3))
        pal = [draw(index(lossy=lossy, hi=hi)) for _ in range(k)]
        if with_metal and draw(st.integers(0, 3)) == 0:
            pal[-1] = draw(metal())
        if far and draw(st.integers(0, 5)) == 0:
            # optically thin or dense media, good metals
            what = draw(st.integers(0, 2 if with_metal else 1))
            pal[0] = [draw(num(*[(0.15, 0.95), (3.2, 6.5), (0.02, 3.)][what])), -draw(num(4., 12.)) if what == 2 else 0.]
        if k > 1 and near and draw(st.integers(0, 7)) == 0:
            # almost, but not quite, the same medium
            pal[1] = [pal[0][0] + 10. ** -draw(num(1.5, 6.)), pal[0][1]]
        if k == 1:
            pat = [[0] * nx for _ in range(ny)]
        else:
            pat = draw(st.lists(st.lists(st.integers(0, k - 1), min_size=nx, max_size=nx),
                                min_size=ny, max_size=ny))
        out.append({'pal': pal, 'pat': pat})
    return out


def ucell_array(layers, dtype=None):
    a = np.array([[[complex(*L['pal'][v]) for v in row] for row in L['pat']] for L in layers])
    if dtype == 'complex':
        return a
    if np.all(a.imag == 0):
        return a.real.copy()
    return a


def is_patterned(case):
    return any(len({tuple(L['pal'][v]) for row in L['pat'] for v in row}) > 1 for L in case['cell'])


FTO1 = [[1, 0], [2, 0], [3, 0], [4, 0], [6, 0], [9, 0], [0, 0], [5, 0]]
FTO2 = [[1, 1], [2, 1], [1, 2], [0, 1], [1, 0], [2, 0], [0, 2], [2, 2], [0, 0], [3, 1], [1, 3], [3, 2]]
FTO1C = FTO1 + [[1, 1], [2, 1], [3, 2], [0, 1]]


@st.composite
def structure(draw, backends=(0, 2), dims=('1d', '1dc', '2d'), lossy=False, lossy_bot=False, with_metal=False,
              max_layers=4, mixed=True, fts=(0, 1), jax_shape=None, max_theta=1.25, phi_none_ok=True,
              zero_thickness=False, tc=(0,), hi=3.2, thick=(0.02, 1.2), max_n=8, scale=True, far=False):
    """One simulation.  Lengths are drawn relative to the wavelength and multiplied by a unit, since
    only ratios matter to the physics.  jax_shape pins array shapes (jax compiles per shape)."""
    b = draw(st.sampled_from(backends)) if len(backends) > 1 else backends[0]
    dim = draw(st.sampled_from(dims)) if len(dims) > 1 else dims[0]
    layers = draw(st.sampled_from([1, 1, 2, 2, 3, 3, 4, 5, 6][:{1: 2, 2: 4, 3: 6, 4: 7, 5: 8, 6: 9}[max_layers]]))
    if jax_shape is not None:
        fto, ny, nx = jax_shape[dim]
    elif dim == '2d':
        fto = draw(st.sampled_from(FTO2))
        ny, nx = draw(st.integers(2, max_n - 1)), draw(st.integers(1, max_n - 1))
    else:
        fto = draw(st.sampled_from(FTO1C if dim == '1dc' else FTO1))
        ny, nx = 1, draw(st.integers(1, max_n))
    unit = draw(st.sampled_from([1., 633., 1.55e-6, 1000.])) if scale else 1.
    wl = unit * draw(num(0.7, 1.4))
    theta, phi = draw(angles(max_theta=max_theta))
    if dim == '1d':
        phi = None
        pol = draw(polarization(mixed=False))
    else:
        pol = draw(polarization(mixed=mixed))
        pure_1d = dim == '1dc' and fto[1] == 0 and pol in (['pol', 0], ['pol', 1])
        if phi_none_ok and not pure_1d and draw(st.integers(0, 9)) == 0:
            phi = draw(st.sampled_from([0., None]))
    n_bot = draw(index(lossy=lossy_bot))
    if lossy_bot and draw(st.integers(0, 3)) == 0:
        n_bot = draw(metal())
    n_top = draw(num(1., 2.2))
    if draw(st.integers(0, 3)) == 0:
        n_top = 1.0
    thickness = [wl * draw(num(*thick)) for _ in range(layers)]
    if draw(st.integers(0, 9)) == 9:
        thickness[draw(st.integers(0, layers - 1))] = wl * 10. ** -draw(num(1.7, 4.))
    if zero_thickness and draw(st.integers(0, 3)) == 0:
        thickness[draw(st.integers(0, layers - 1))] = 0.
    ft = draw(st.sampled_from(fts)) if len(fts) > 1 else fts[0]
    return {
        'b': b, 'dim': dim, 'n_top': n_top, 'n_bot': n_bot, 'theta': theta, 'phi': phi, 'pol': pol,
        'period': [wl * draw(num(0.35, 2.3)), wl * draw(num(0.35, 2.3))], 'wl': wl, 'fto': fto,
        'cell': draw(raster(layers, ny, nx, lossy=lossy, with_metal=with_metal, hi=hi, far=far)),
        'thickness': thickness,
        'ft': ft, 'edfs': draw(st.booleans()) if ft == 0 else True,
        'tc': draw(st.sampled_from(tc)) if len(tc) > 1 else tc[0], 'pinv': False,
    }


JAX_SHAPES = [
    {'1d': ([3, 0], 1, 6), '1dc': ([2, 0], 1, 5), '2d': ([1, 1], 3, 4)},
    {'1d': ([2, 0], 1, 4), '1dc': ([1, 1], 1, 4), '2d': ([2, 1], 2, 3)},
    {'1d': ([4, 0], 1, 7), '1dc': ([3, 0], 1, 3), '2d': ([1, 2], 4, 3)},
]


def mode_of(case):
    return 'cfs' if case['ft'] == 1 else ('edfs' if case['edfs'] else 'dfs')


# ------------------------------------------------------------------ vector modelling
@st.composite
def vector_object(draw, period, lossy=False, kinds=('rectangle', 'rotated', 'ellipse'), grid=False, strip=None):
    """an object that lies inside the cell.  grid: unrotated rectangle with edges on k/8 of the cell, so
    that edges of several objects coincide and may touch the border.  strip: it reaches across the cell along x or y."""
    px, py = period
    kind = draw(st.sampled_from(kinds)) if len(kinds) > 1 else kinds[0]
    n = draw(index(lossy=lossy))
    if grid:
        x0, x1 = sorted(draw(st.lists(st.integers(0, 8), min_size=2, max_size=2, unique=True)))
        y0, y1 = sorted(draw(st.lists(st.integers(0, 8), min_size=2, max_size=2, unique=True)))
        if strip == 'x':
            x0, x1 = 0, 8
        elif strip == 'y':
            y0, y1 = 0, 8
        return {'kind': 'rectangle', 'cx': (x0 + x1) / 16 * px, 'cy': (y0 + y1) / 16 * py, 'lx': (x1 - x0) / 8 * px,
                'ly': (y1 - y0) / 8 * py, 'n': n, 'angle': 0., 'a': 2, 'b': 2}
    if kind in ('rectangle', 'rectangle0'):
        lx, ly = px * draw(num(0.05, 0.9)), py * draw(num(0.05, 0.9))
        cx = lx / 2 + (px - lx) * draw(num(0.01, 0.99))
        cy = ly / 2 + (py - ly) * draw(num(0.01, 0.99))
        angle = 0. if kind == 'rectangle0' else draw(st.sampled_from([0., 0., PI / 2, PI, 3 * PI / 2, -PI / 2]))
        if angle in (PI / 2, 3 * PI / 2, -PI / 2):
            # the drawn shape has its sides swapped; keep it inside
            s = min(px, py)
            lx, ly = s * draw(num(0.05, 0.5)), s * draw(num(0.05, 0.5))
            cx, cy = px * draw(num(0.3, 0.7)), py * draw(num(0.3, 0.7))
        return {'kind': 'rectangle', 'cx': cx, 'cy': cy, 'lx': lx, 'ly': ly, 'n': n, 'angle': angle, 'a': 2, 'b': 2}
    s = min(px, py)
    lx, ly = s * draw(num(0.05, 0.4)), s * draw(num(0.05, 0.4))
    cx, cy = px * draw(num(0.3, 0.7)), py * draw(num(0.3, 0.7))
    angle = draw(num(-2 * PI, 2 * PI))
    if kind == 'rotated':
        a, b = draw(st.integers(1, 5)), draw(st.integers(1, 5))
        return {'kind': 'rectangle', 'cx': cx, 'cy': cy, 'lx': lx, 'ly': ly, 'n': n, 'angle': angle, 'a': a, 'b': b}
    if draw(st.integers(0, 2)) == 0:
        angle = draw(st.sampled_from([0., PI / 2, PI, PI / 4]))
    a = draw(st.integers(4, 14))
    return {'kind': 'ellipse', 'cx': cx, 'cy': cy, 'lx': lx, 'ly': ly, 'n': n, 'angle': angle, 'a': a, 'b': a}


@st.composite
def vector_structure(draw, backends=(0, 2), lossy=False, lossy_bot=False, max_layers=2, max_objs=3,
                     kinds=('rectangle', 'rotated', 'ellipse'), jax=False, jax_fto=(1, 1), mixed=True):
    base = draw(structure(backends=backends, dims=('2d',), max_layers=1, mixed=mixed, fts=(1,), lossy_bot=lossy_bot,
                          jax_shape={'2d': (list(jax_fto), 2, 2)} if jax else None))
    layers = draw(st.integers(1, max_layers))
    if not jax:
        base['fto'] = draw(st.sampled_from([[1, 1], [2, 1], [1, 2], [2, 2], [3, 1], [2, 0], [0, 2]]))
    wl = base['wl']
    vec = []
    for _ in range(layers):
        grid = draw(st.integers(0, 2)) == 0
        strip = draw(st.sampled_from([None, None, 'x', 'y'])) if grid else None
        objs = draw(st.lists(vector_object(base['period'], lossy, kinds, grid, strip), min_size=0 if not jax else 1,
                             max_size=1 if jax and not grid else max_objs))
        vec.append({'base': draw(index(lossy=lossy)), 'objs': objs})
    base.pop('cell')
    base['vec'] = vec
    base['thickness'] = [wl * draw(num(0.02, 1.)) for _ in range(layers)]
    return base
