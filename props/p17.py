"""P17 drawn shapes: rectangles and ellipses cover the region they describe, later objects over earlier ones."""
from .common import *


def maker(b, period):
    return sim.meent().call_mee(backend=b, period=list(period), wavelength=0.9, fto=[1, 1], thickness=[0.3])


def boxes(parts):
    """[(y0, x0, y1, x1)] of a list of drawn parts"""
    out = []
    for a, b, _ in parts:
        v = [sim.arr(t).ravel() for t in (*a, *b)]
        for t in v:
            if t.size != 1 or abs(complex(t[0]).imag) > 0:
                raise Violation(f'a corner of a part is {t}')
        out.append([float(np.real(t[0])) for t in v])
    return np.array(out).reshape(-1, 4)


def tidy(bx, s):
    """drop slivers, order the rest: two drawings of the same region in the same slabs become equal arrays"""
    bx = bx[(bx[:, 2] - bx[:, 0] > 1e-9 * s) & (bx[:, 3] - bx[:, 1] > 1e-9 * s)]
    return bx[np.argsort(bx[:, 0], kind='stable')]


def draw_obj(m, o, **over):
    o = dict(o, **over)
    return getattr(m, o['kind'])(o['cx'], o['cy'], o['lx'], o['ly'], sim.number(o['n']), o['angle'], o['a'], o['b'])


def covered(bx, P):
    c = np.zeros(len(P), int)
    for y0, x0, y1, x1 in bx:
        c += (P[:, 0] > x0) & (P[:, 0] < x1) & (P[:, 1] > y0) & (P[:, 1] < y1)
    return c


def local(o, P):
    c, s = np.cos(o['angle']), np.sin(o['angle'])
    d = P - [o['cx'], o['cy']]
    return np.stack([(d[:, 0] * c + d[:, 1] * s) / (o['lx'] / 2), (-d[:, 0] * s + d[:, 1] * c) / (o['ly'] / 2)], 1)


def sample(o, seed, n=600):
    """points around the object, many of them near its outline"""
    rs = np.random.RandomState(seed)
    u = rs.uniform(-1.6, 1.6, (n, 2))
    k = n // 2
    if o['kind'] == 'ellipse':
        t = rs.uniform(0, 2 * np.pi, k)
        u[:k] = np.stack([np.cos(t), np.sin(t)], 1) * rs.uniform(0.5, 1.5, (k, 1))
    else:
        side = rs.randint(0, 2, k)
        u[np.arange(k), side] = rs.choice([-1, 1], k) * rs.uniform(0.8, 1.2, k)
    c, s = np.cos(o['angle']), np.sin(o['angle'])
    x, y = u[:, 0] * o['lx'] / 2, u[:, 1] * o['ly'] / 2
    return np.stack([o['cx'] + x * c - y * s, o['cy'] + x * s + y * c], 1)


def shape_check(o, bx, seed, what):
    P = sample(o, seed)
    scale = max(o['lx'], o['ly'])
    area = np.sum((bx[:, 2] - bx[:, 0]) * (bx[:, 3] - bx[:, 1]))
    if np.any(bx[:, 2] < bx[:, 0] - 1e-9 * scale) or np.any(bx[:, 3] < bx[:, 1] - 1e-9 * scale):
        raise Violation(f'{what}: a part is turned inside out')
    cov = covered(bx, P)
    if np.any(cov > 1):
        raise Violation(f'{what}: parts overlap')
    if o['kind'] == 'rectangle':
        sim.close(f'{what}: area', area, o['lx'] * o['ly'], 1e-4 if quarter(o['angle']) == 'near' else 1e-9, scale=o['lx'] * o['ly'])
        if quarter(o['angle']):
            delta = 1e-4 * scale
        else:
            delta = scale / (2 * min(o['a'], o['b'])) * (1 + 1e-6) + 1e-9 * scale

        def inside(Q):
            return np.max(np.abs(local(o, Q)), axis=1) < 1

        # the outline may be off by delta along x: inside throughout the window -> covered, outside throughout -> not
        steps = np.linspace(-delta, delta, 9)[:, None] * [[1., 0.]]
        win = np.array([inside(P + d) for d in steps])
        if quarter(o['angle']):
            win = np.concatenate([win] + [np.array([inside(P + d[::-1]) for d in steps])])
        bad = np.flatnonzero((win.all(0) & (cov == 0)))
        if bad.size:
            raise Violation(f'{what}: the point {P[bad[0]].tolist()} lies inside but is not covered')
        # for the outside test use the exact x interval of the rectangle at that y
        lo, hi = span(o, P[:, 1])
        out = (P[:, 0] < lo - delta) | (P[:, 0] > hi + delta) | ~(hi > lo)
        if quarter(o['angle']):
            out = np.max(np.abs(local(o, P)), axis=1) > 1 + 2 * delta / min(o['lx'], o['ly'])
        bad = np.flatnonzero(out & (cov > 0))
        if bad.size:
            raise Violation(f'{what}: the point {P[bad[0]].tolist()} lies outside but is covered')
        return bool(np.any(win.all(0)))
    rho = np.hypot(*local(o, P).T)
    aspect = max(o['lx'], o['ly']) / min(o['lx'], o['ly'])
    tol = (2 + 3.4 * aspect) / o['a']
    bad = np.flatnonzero((rho < 1 - tol) & (cov == 0))
    if bad.size:
        raise Violation(f'{what}: the point {P[bad[0]].tolist()} lies inside (rho={rho[bad[0]]:.3f}) but is not covered')
    bad = np.flatnonzero((rho > 1 + tol) & (cov > 0))
    if bad.size:
        raise Violation(f'{what}: the point {P[bad[0]].tolist()} lies outside (rho={rho[bad[0]]:.3f}) but is covered')
    if o['a'] >= 12:
        ratio = area / (np.pi / 4 * o['lx'] * o['ly'])
        if abs(ratio - 1) > (0.6 + 1.9 * aspect) / o['a']:
            raise Violation(f'{what}: area is {ratio:.4f} of the ellipse with {o["a"]} splits')
    return bool(np.any(rho < 1 - tol))


def span(o, y):
    """x interval of the rotated rectangle at height y"""
    c, s = np.cos(o['angle']), np.sin(o['angle'])
    a, b = o['lx'] / 2, o['ly'] / 2
    d = y - o['cy']
    lo, hi = np.full(y.shape, -np.inf), np.full(y.shape, np.inf)
    for p, q, w in ((c, s * d, a), (-s, c * d, b)):       # |p x + q| < w
        if abs(p) < 1e-12:
            hi = np.where(np.abs(q) < w, hi, -np.inf)
        else:
            e1, e2 = (-w - q) / p, (w - q) / p
            lo, hi = np.maximum(lo, np.minimum(e1, e2)), np.minimum(hi, np.maximum(e1, e2))
    return lo + o['cx'], hi + o['cx']


def quarter(angle):
    """within the margin of a multiple of a quarter turn the rectangle is drawn unrotated"""
    r = abs((angle + np.pi / 4) % (np.pi / 2) - np.pi / 4)
    return None if r > 2e-5 else ('exact' if r < 1e-9 else 'near')


def shape(case):
    o, period = case['o'], case['period']
    s = max(o['lx'], o['ly'])
    first = None
    for b in case['bs']:
        m = maker(b, period)
        bx = boxes(draw_obj(m, o))
        ok = shape_check(o, bx, case['seed'], f'{sim.BACK[b]} {o["kind"]}')
        if first is None:
            first = bx
        elif not case['tie']:
            sim.close(f'parts on {sim.BACK[b]} against {sim.BACK[case["bs"][0]]}', tidy(bx, s), tidy(first, s), 1e-9, scale=max(period))
    return {'nontrivial': ok and (o['kind'] == 'ellipse' or quarter(o['angle']) is None),
            'labels': [o['kind'], 'quarter' if quarter(o['angle']) else 'rotated']}


def moves(case):
    """moving, scaling and turning by full turns move the drawing and change nothing else"""
    o, period, b = case['o'], case['period'], case['bs'][0]
    m = maker(b, period)
    s = max(o['lx'], o['ly'])
    ref_ = tidy(boxes(draw_obj(m, o)), s)
    dx, dy, f = case['dx'] * period[0], case['dy'] * period[1], case['f']
    sh = np.array([dy, dx, dy, dx])

    def same(what, got, want, sc):
        sim.close(f'{sim.BACK[b]} {o["kind"]} {what}', tidy(got, sc), want, 1e-9, scale=max(period) * max(1., sc / s))

    if case['tie'] and o['kind'] == 'ellipse':
        raise Skip('rounding decides between equally good drawings')
    same('moved', boxes(draw_obj(m, o, cx=o['cx'] + dx, cy=o['cy'] + dy)), ref_ + sh, s)
    same('scaled', boxes(draw_obj(maker(b, [p * f for p in period]), o, cx=o['cx'] * f, cy=o['cy'] * f, lx=o['lx'] * f, ly=o['ly'] * f)),
         ref_ * f, s * f)
    if not case['tie']:
        same('turned by full turns', boxes(draw_obj(m, o, angle=o['angle'] + 2 * np.pi * case['k'])), ref_, s)
    if o['kind'] == 'rectangle':
        if quarter(o['angle']) != 'near':
            same('turned by half a turn', boxes(draw_obj(m, o, angle=o['angle'] + np.pi)), ref_, s)
            same('sides swapped and a quarter turn', boxes(draw_obj(m, o, angle=o['angle'] + np.pi / 2, lx=o['ly'], ly=o['lx'])), ref_, s)
            r2 = boxes(draw_obj(m, o, angle=-o['angle']))
            mir = r2.copy()
            mir[:, 1], mir[:, 3] = 2 * o['cx'] - r2[:, 3], 2 * o['cx'] - r2[:, 1]
            same('mirrored in x', mir, ref_, s)
    return {'nontrivial': len(ref_) > 1, 'labels': [sim.BACK[b], o['kind']]}


def painted(case):
    """the drawn layer has at every point the index of the last part covering it"""
    period = case['period']
    rs = np.random.RandomState(case['seed'])
    lab = []
    for b in case['bs']:
        m = maker(b, period)
        instr = [[sim.number(L['base']), [[o['kind'], o['cx'], o['cy'], o['lx'], o['ly'], sim.number(o['n']), o['angle'], o['a'], o['b']]
                                          for o in L['objs']]] for L in case['vec']]
        infos = m.modeling_vector_instruction(instr)
        if len(infos) != len(case['vec']):
            raise Violation(f'{len(infos)} layers drawn where {len(case["vec"])} were described')
        for L, (cell, xs, ys) in zip(case['vec'], infos):
            cell, xs, ys = sim.arr(cell), sim.arr(xs).ravel().real, sim.arr(ys).ravel().real
            if cell.shape != (len(ys), len(xs)):
                raise Violation(f'drawn layer of shape {cell.shape} with {len(xs)} columns and {len(ys)} rows')
            for v, p, nm in ((xs, period[0], 'x'), (ys, period[1], 'y')):
                if np.any(np.diff(v) < -1e-6 * p) or v[0] < -1e-9 * p or abs(v[-1] - p) > 1e-9 * p:
                    raise Violation(f'grid lines along {nm} are {v.tolist()} for a period of {p}')
            P = rs.uniform(0, 1, (300, 2)) * period
            want = np.full(len(P), gen.cnum(L['base']), complex)
            near = np.zeros(len(P), bool)
            for o in L['objs']:
                bx = boxes(draw_obj(m, o))
                Q = np.concatenate([P[:0], sample(o, case['seed'], 80)])
                Q = Q[(Q > 0).all(1) & (Q < period).all(1)]
                P = np.concatenate([P, Q])
            want = np.full(len(P), gen.cnum(L['base']), complex)
            near = np.zeros(len(P), bool)
            for o in L['objs']:
                for y0, x0, y1, x1 in boxes(draw_obj(m, o)):
                    want[(P[:, 0] > x0) & (P[:, 0] < x1) & (P[:, 1] > y0) & (P[:, 1] < y1)] = gen.cnum(o['n'])
                    near |= (np.abs(P[:, :1] - [x0, x1]) < 1e-6 * period[0]).any(1) | (np.abs(P[:, 1:] - [y0, y1]) < 1e-6 * period[1]).any(1)
            got = cell[np.minimum(np.searchsorted(ys, P[:, 1]), len(ys) - 1), np.minimum(np.searchsorted(xs, P[:, 0]), len(xs) - 1)]
            bad = np.flatnonzero((np.abs(got - want) > 1e-9) & ~near)
            if bad.size:
                raise Violation(f'{sim.BACK[b]}: index {got[bad[0]]} drawn at {P[bad[0]].tolist()} where {want[bad[0]]} was described')
            lab.append(min(3, len(L['objs'])))
    return {'nontrivial': max(lab) >= 2, 'labels': [f'{k} objects' for k in sorted(set(lab))]}


@st.composite
def one(draw, bs):
    u = draw(st.sampled_from([1., 1000., 1e-6]))
    period = [u * draw(gen.num(0.5, 2.)), u * draw(gen.num(0.5, 2.))]
    kind = draw(st.sampled_from(['rectangle', 'ellipse']))
    s = min(period)
    lx, ly = s * draw(gen.num(0.02, 0.45)), s * draw(gen.num(0.02, 0.45))
    if draw(st.integers(0, 7)) == 0:
        ly = lx
    how = draw(st.integers(0, 3))
    tie = lx == ly
    if how == 0:
        angle = draw(st.integers(-4, 4)) * np.pi / 2
        tie = True
    elif how == 1:
        angle = draw(st.integers(-4, 4)) * np.pi / 2 + draw(st.sampled_from([1e-6, -1e-6, 1e-4, -1e-4, 1e-3, -1e-3, 0.02, -0.02]))
        tie = True
    else:
        angle = draw(gen.num(-7., 7.))
    o = {'kind': kind, 'cx': period[0] * draw(gen.num(0.35, 0.65)), 'cy': period[1] * draw(gen.num(0.35, 0.65)), 'lx': lx, 'ly': ly,
         'n': draw(gen.index(lossy=True)), 'angle': angle}
    if kind == 'rectangle':
        o['a'], o['b'] = draw(st.integers(1, 8)), draw(st.integers(1, 8))
    else:
        o['a'] = o['b'] = draw(st.one_of(st.integers(8, 40), st.integers(16, 90)))
        o['ly'] = min(max(o['ly'], o['lx'] / 6), o['lx'] * 6)
    return {'o': o, 'period': period, 'bs': bs, 'seed': draw(st.integers(0, 9999)), 'tie': tie, 'dx': draw(gen.num(-0.1, 0.1)),
            'dy': draw(gen.num(-0.1, 0.1)), 'f': draw(gen.num(0.2, 5.)), 'k': draw(st.sampled_from([1, -1, 3]))}


@st.composite
def several(draw, bs):
    u = draw(st.sampled_from([1., 1000., 1e-6]))
    period = [u * draw(gen.num(0.5, 2.)), u * draw(gen.num(0.5, 2.))]
    vec = []
    for _ in range(draw(st.integers(1, 2))):
        grid = draw(st.integers(0, 2)) == 0
        vec.append({'base': draw(gen.index(lossy=True)), 'objs': draw(st.lists(gen.vector_object(
            period, True, grid=grid, strip=draw(st.sampled_from([None, None, 'x', 'y'])) if grid else None), max_size=4))})
    return {'period': period, 'bs': bs, 'seed': draw(st.integers(0, 9999)), 'vec': vec}


RELATIONS = [
    Relation('shape', lambda s: one([0, 2]), shape, 1500, 30000, shards=4, rule='rotated or an ellipse, with points deep inside'),
    Relation('shape-jax', lambda s: one([0, 1]), shape, 24, 500, shards=1, weight=40, rule='rotated or an ellipse, with points deep inside'),
    Relation('moves', lambda s: st.sampled_from([[0], [2]]).flatmap(one), moves, 1000, 20000, shards=3, rule='more than one part'),
    Relation('moves-jax', lambda s: one([1]), moves, 12, 300, shards=1, weight=60, rule='more than one part'),
    Relation('painted', lambda s: several([0, 2]), painted, 600, 12000, shards=3, rule='a layer with at least two objects'),
    Relation('painted-jax', lambda s: several([1]), painted, 16, 300, shards=1, weight=40, rule='a layer with at least two objects'),
]
ASSUMPTIONS = ['objects lie inside the cell; ellipses have equal splits in both directions',
               'ellipses are approximate: deviations of the outline up to (2 + 3.4 x aspect ratio) / n_split of the radius are accepted']
