"""P21 numerical options: the pseudo-inverse and single precision give the same physics."""
import contextlib

from . import p11, p13, p23
from .common import *

AMP = ('R_s', 'R_p', 'T_s', 'T_p')


def make(case, **over):
    kw = sim.vector_kwargs(case, **over) if 'vec' in case else sim.kwargs(case, **over)
    return sim.meent().call_mee(**kw)


def clear(case, gap, q):
    psis = (0.,) if case['dim'] == '1d' else None
    ls = p13.vector_layers(case)[0] if 'vec' in case else None
    return sim.reference(case, psis=psis, layers=ls, min_gap=gap, min_q=q)


def field(case, m):
    rx, ry, rz = (3, 2, 3) if case['dim'] != '1d' else (3, 1, 3)
    return sim.arr(m.calculate_field(res_x=rx, res_y=ry, res_z=rz, set_field_input=(True, True, True)))


def lit(case, r):
    return int(np.sum(r['res']['de_ri'] > 1e-9) + np.sum(r['res']['de_ti'] > 1e-9)) >= 2


def pinv(case):
    """the pseudo-inverse of an invertible matrix is its inverse"""
    clear(case, 0.02, 2e-3)
    a, b = make(case), make(case, use_pinv=True)
    ra, rb = sim.unpack(a.conv_solve()), sim.unpack(b.conv_solve())
    compare_subs('with the pseudo-inverse', rb, ra, keys=EFF + AMP, tol=1e-8)
    if case['field']:
        fa, fb = field(case, a), field(case, b)
        sim.close('field with the pseudo-inverse', fb, fa, 1e-7, scale=max(1., np.abs(fa).max()))
    return {'nontrivial': lit(case, ra), 'labels': sim.label(case) + (['field'] if case['field'] else [])}


def pinv_large(case):
    """also where the matrices spread over many decades: many orders, deep sub-wavelength periods, thick layers"""
    check_gap(case, 0.02)
    check_modes(case)
    ra, rb = sim.run(case), sim.run(dict(case, pinv=True))
    compare_subs('with the pseudo-inverse', rb, ra, keys=EFF + AMP, tol=1e-6)
    return {'nontrivial': interesting(case, ra), 'labels': sim.label(case) + [case['what']]}


def single(case):
    """single precision agrees to single precision, times what the structure magnifies"""
    sol = clear(case, 0.1, 0.05)
    if case['dim'] != '1d':
        for m in sol.modes:
            q2 = m[2] ** 2
            if np.min(np.abs(q2[:, None] - q2[None, :]) + np.eye(len(q2))) < 3e-3:
                raise Skip('modes coincide to single precision (known finding F5)')
    a, b = make(case), make(case, type_complex=1)
    ra, raw = sim.unpack(a.conv_solve()), b.conv_solve()
    rb = sim.unpack(raw)
    compare_subs('in single precision', rb, ra, tol=2e-2)
    if case['b'] == 2:
        for sub in (raw.res, raw.res_te_inc, raw.res_tm_inc):
            if sub is not None:
                for k in EFF + AMP:
                    v = sim.arr(getattr(sub, k))
                    expect(v.dtype in (np.float32, np.complex64), f'single precision: {k} is {v.dtype}')
    if case['field']:
        fa, fb = field(case, a), field(case, b)
        expect(fb.dtype == np.complex64, f'single precision: the field is {fb.dtype}')
        sim.close('field in single precision', fb, fa, 5e-2, scale=max(1., np.abs(fa).max()))
    return {'nontrivial': lit(case, ra), 'labels': sim.label(case) + (['field'] if case['field'] else [])}


def pinv_gradient(case):
    """torch and jax: gradients through the pseudo-inverse are those through the inverse"""
    p13.check_eig(clear(case, 0.05, 0.02))
    p = p13.parameters(case)
    names = sorted(p)
    w = p13.weights(case, shape_of(case))
    a = p13.gradient(case, p, names, w)
    b = p13.gradient(dict(case, pinv=True), p, names, w)
    # a length in the unit it is given in: compare the effect of a relative step
    unit = {k: case['wl'] if k in p13.LENGTH else 1. for k in names}
    big = max(np.abs(v).max() * unit[k] for k, v in a.items())
    for k in names:
        sim.close(f'gradient of {k} through the pseudo-inverse', b[k] * unit[k], a[k] * unit[k], 1e-6, scale=max(1., big))
    return {'nontrivial': big > 1e-3, 'labels': sim.label(case)}


@contextlib.contextmanager
def failing_pinv(pattern):
    """fault injection: torch's own pseudo-inverse reports that it did not converge on the calls marked in the pattern"""
    import torch
    plain, n = torch.linalg.pinv, [0, 0]

    def pinv(x, *a, **k):
        n[0] += 1
        if pattern[(n[0] - 1) % len(pattern)]:
            n[1] += 1
            raise torch.linalg.LinAlgError('linalg.svd: (injected) the algorithm failed to converge')
        return plain(x, *a, **k)
    torch.linalg.pinv = pinv
    try:
        yield n
    finally:
        torch.linalg.pinv = plain


def pinv_fault(case):
    """torch: where the pseudo-inverse of the library does not converge another one takes over, with the same result and
    the same gradient"""
    p13.check_eig(clear(case, 0.05, 0.02))
    p = p13.parameters(case)
    names = sorted(p)
    w = p13.weights(case, shape_of(case))
    case = dict(case, pinv=True)
    plain = sim.run(case)
    a = p13.gradient(case, p, names, w)
    with failing_pinv(case['fail']) as n:
        faulty = sim.run(case)
        b = p13.gradient(case, p, names, w)
    compare_subs('with a pseudo-inverse that does not converge', faulty, plain, keys=EFF + AMP, tol=1e-8)
    unit = {k: case['wl'] if k in p13.LENGTH else 1. for k in names}
    big = max(np.abs(v).max() * unit[k] for k, v in a.items())
    for k in names:
        sim.close(f'gradient of {k} with a pseudo-inverse that does not converge', b[k] * unit[k], a[k] * unit[k], 1e-6,
                  scale=max(1., big))
    return {'nontrivial': n[1] > 0, 'labels': sim.label(case) + ['faults' if n[1] else 'no fault']}


def f5_probe():
    """F5 as recorded"""
    try:
        r = sim.run_kw(dict(backend=0, n_top=1.244460564, n_bot=1.873302726, theta=0.057001364, phi=-2.660981181,
                            psi=-0.647445902, period=[8.244149795736302e-07, 5.993737047604662e-07],
                            wavelength=1.11373263365e-06, fto=[1, 3], ucell=np.full((1, 4, 5), 1.873302726),
                            thickness=[1.228003784778452e-07], fourier_type=1, type_complex=1))
    except np.linalg.LinAlgError:
        return True
    return not abs(r['res']['de_ri'].sum() - 0.0406337785) < 5e-3


KNOWN = [('F5 numpy, single precision: a uniform layer on the 2D solver can fail with a singular matrix, e.g. a film of 1.8733 with '
          'fto=[1,3], theta=0.057, phi=-2.66', f5_probe)]
FIELD = {'field': st.booleans()}
KW = dict(lossy=True, with_metal=True, lossy_bot=True)
RULE = 'at least two orders carry power'
RELATIONS = (
    pair('pinv', pinv, 420, 12000, 15, 500, RULE, extra=FIELD, max_layers=4, jshards=2, **KW)
    + pair('single', single, 600, 15000, 15, 500, RULE, extra=FIELD, max_layers=3, thick=(0.02, 0.7), jshards=2, **KW)
    + [Relation('pinv-drawn', lambda s: with_extra(gen.vector_structure(lossy=True, lossy_bot=True), **FIELD), pinv, 150, 3000,
                shards=2, weight=1., rule=RULE),
       Relation('single-drawn', lambda s: with_extra(gen.vector_structure(lossy=True, lossy_bot=True), **FIELD), single, 150, 3000,
                shards=2, weight=1., rule=RULE),
       Relation('pinv-large', lambda s: p23.big(whats=('deep', 'deep', 'orders', 'thick', 'coarse')), pinv_large, 180, 6000, shards=3, weight=3.,
                rule='patterned, and at least two orders carry power'),
       Relation('pinv-gradient', lambda s: p13.raster(), pinv_gradient, 90, 3000, shards=3, weight=1.,
                rule='the gradient is not negligible'),
       Relation('pinv-fault', lambda s: with_extra(p13.raster(), fail=st.lists(st.integers(0, 1), min_size=1, max_size=5)),
                pinv_fault, 60, 2000, shards=2, weight=2., rule='at least one call failed'),
       Relation('single-drawn-jax', lambda s: with_extra(gen.vector_structure(backends=(1,), jax=True, lossy=True), **FIELD), single,
                6, 150, shards=1, weight=60., rule=RULE),
       Relation('pinv-gradient-jax', p13.jraster, pinv_gradient, 4, 100, shards=2, weight=100., rule='the gradient is not negligible')]
)
ASSUMPTIONS = ['single precision: layers with modes closer than 3e-3 are left out (known finding F5)',
               'orders or layer modes near cutoff are left out (within 0.1 for single precision)',
               'single precision is accepted within 2e-2 of the double-precision efficiency']
