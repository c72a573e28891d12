"""Adapter: run a generated case through meent, and through the reference."""
import numpy as np

from . import gen, ref
from .core import Skip, Violation

BACK = {0: 'numpy', 1: 'jax', 2: 'torch'}


def meent():
    import meent
    return meent


def kwargs(case, **over):
    k = dict(backend=case['b'], n_top=case['n_top'], n_bot=number(case['n_bot']), theta=case['theta'],
             phi=case['phi'], period=list(case['period']), wavelength=case['wl'], fto=list(case['fto']),
             ucell=gen.ucell_array(case['cell']), thickness=list(case['thickness']),
             fourier_type=case['ft'], enhanced_dfs=case['edfs'], type_complex=case['tc'], use_pinv=case['pinv'])
    k[case['pol'][0]] = case['pol'][1]
    k.update(over)
    return k


def number(v):
    """JSON number -> what a user would pass: a float, or a complex when it absorbs."""
    if isinstance(v, (list, tuple)):
        return float(v[0]) if v[1] == 0 else complex(*v)
    return v


def build(case, **over):
    return meent().call_mee(**kwargs(case, **over))


def arr(x):
    if x is None:
        return None
    if hasattr(x, 'detach'):
        x = x.detach().cpu().resolve_conj().resolve_neg().numpy()
    return np.asarray(x)


SUB = ('R_s', 'R_p', 'T_s', 'T_p', 'de_ri', 'de_ri_s', 'de_ri_p', 'de_ti', 'de_ti_s', 'de_ti_p')


def unpack(result):
    """{'res': {...}, 'te': {...} or None, 'tm': ...} of numpy arrays"""
    out = {}
    for name, attr in (('res', 'res'), ('te', 'res_te_inc'), ('tm', 'res_tm_inc')):
        sub = getattr(result, attr)
        out[name] = None if sub is None else {a: arr(getattr(sub, a)) for a in SUB}
    if out['res'] is not None:
        for a in ('de_ri', 'de_ti'):      # the shortcut every example reads
            if not np.array_equal(arr(getattr(result, a)), out['res'][a], equal_nan=True):
                raise Violation(f'result.{a} is not result.res.{a}')
    return out


def run(case, **over):
    return unpack(build(case, **over).conv_solve())


def run_kw(kw):
    return unpack(meent().call_mee(**kw).conv_solve())


def psi_of(case):
    kind, v = case['pol']
    return v if kind == 'psi' else np.pi / 2 * (1 - v)


# Raster rows: the discrete series reads row 0 as the lowest y, the continuous one as the highest
# (known finding F2).  Mixed polarisation: numpy and jax orient the p component opposite to the
# textbook definition torch follows (known finding F1).
ROWS_UP = {'cfs': False, 'dfs': True, 'edfs': True}
P_SIGN = {0: -1, 1: -1, 2: 1}


def rows_up(case):
    return ROWS_UP[gen.mode_of(case)]


def ref_layers(case):
    uc = gen.ucell_array(case['cell'], 'complex')
    mode = gen.mode_of(case)
    if uc.ndim == 3:
        return [ref.raster_layer(u, case['fto'][0], case['fto'][1], mode, rows_up(case)) + (d,)
                for u, d in zip(uc, case['thickness'])]


def reference(case, psis=None, layers=None, min_gap=0.02, min_q=2e-3):
    """Reference solution; psis default (mixed as this backend orients it, TE, TM)."""
    phi = case['phi'] or 0.
    n_bot = gen.cnum(case['n_bot'])
    args = (case['n_top'], n_bot, case['theta'], phi, case['period'], case['wl'], case['fto'])
    if ref.rayleigh_gap(*args) < min_gap:
        raise Skip('an order is too close to cutoff')
    if psis is None:
        psi = psi_of(case)
        if P_SIGN[case['b']] < 0:
            psi = np.pi - psi
        psis = (psi, np.pi / 2, 0.)
    sol = ref.solve(*args, layers if layers is not None else ref_layers(case), psis=psis)
    if sol.min_q < min_q:
        raise Skip('a layer mode is too close to cutoff')
    return sol


def branch(kx):
    return np.where(kx < 0, -1., 1.)


def close(name, got, want, tol, scale=None):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        raise Violation(f'{name}: shape {got.shape} where {want.shape} was expected')
    s = max(1., float(np.max(np.abs(want))) if want.size else 1.) if scale is None else scale
    err = np.abs(got - want)
    if not np.all(np.isfinite(err)) or np.any(err > tol * s):
        i = np.unravel_index(np.argmax(np.where(np.isfinite(err), err, np.inf)), err.shape) if err.shape else ()
        raise Violation(f'{name}: differs by {err[i]:.3g} at {tuple(int(v) for v in i)} '
                        f'(got {got[i]}, expected {want[i]}, tolerance {tol * s:.1g})')
    return float(np.max(err)) if err.size else 0.


def label(case):
    return [BACK[case['b']], case['dim'], gen.mode_of(case), case['pol'][0] + str(case['pol'][1])[:1]]


# ------------------------------------------------------------------ vector modelling
def vector_instruction(case):
    out = []
    for L in case['vec']:
        objs = [[o['kind'], o['cx'], o['cy'], o['lx'], o['ly'], number(o['n']), o['angle'], o['a'], o['b']]
                for o in L['objs']]
        out.append([number(L['base']), objs])
    return out


def vector_kwargs(case, **over):
    k = dict(backend=case['b'], n_top=case['n_top'], n_bot=number(case['n_bot']), theta=case['theta'],
             phi=case['phi'], period=list(case['period']), wavelength=case['wl'], fto=list(case['fto']),
             ucell=vector_instruction(case), thickness=list(case['thickness']), fourier_type=1,
             type_complex=case['tc'], use_pinv=case['pinv'])
    k[case['pol'][0]] = case['pol'][1]
    k.update(over)
    return k


def paint(layer, boxes, period):
    """reference painter: boxes [(y0, x0, y1, x1, n)] over a base, later ones on top ->
    (n[j, i] with j along y, x edges, y edges) in units of the period."""
    xs = sorted({0., 1.} | {min(max(v / period[0], 0.), 1.) for b in boxes for v in (b[1], b[3])})
    ys = sorted({0., 1.} | {min(max(v / period[1], 0.), 1.) for b in boxes for v in (b[0], b[2])})
    n = np.full((len(ys) - 1, len(xs) - 1), layer, dtype=complex)
    xc = (np.array(xs[1:]) + xs[:-1]) / 2 * period[0]
    yc = (np.array(ys[1:]) + ys[:-1]) / 2 * period[1]
    for y0, x0, y1, x1, v in boxes:
        n[np.ix_((yc > y0) & (yc < y1), (xc > x0) & (xc < x1))] = v
    return n, np.array(xs), np.array(ys)
