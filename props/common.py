"""Shared pieces of the property modules."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref, sim
from vlib.core import Relation, Skip, Violation, expect

EFF = ('de_ri_s', 'de_ri_p', 'de_ti_s', 'de_ti_p', 'de_ri', 'de_ti')
TOL = 1e-8


def with_extra(strategy, **extra):
    """add independently drawn keys to a case"""
    if not extra:
        return strategy
    return st.builds(lambda s, e: dict(s, **e), strategy, st.fixed_dictionaries(extra))


def pair(name, check, quick, thorough, jquick, jthorough, rule, extra=None, backends=(0, 2), shards=5,
         jshards=3, jdims=None, shrinkable=True, **kw):
    """the same relation on numpy/torch (any shape) and on jax (shapes fixed per worker, since jax
    compiles per shape)."""
    extra = extra or {}
    out = []
    if quick:
        out.append(Relation(name, lambda s: with_extra(gen.structure(backends=backends, **kw), **extra), check,
                            quick, thorough, shards=shards, weight=1., rule=rule))
    if jquick:
        jkw = dict(kw)
        if jdims:
            jkw['dims'] = jdims

        def jstrategy(s):
            k = dict(jkw)
            dims = k.get('dims', ('1d', '1dc', '2d'))
            k['dims'] = dims
            k['max_layers'] = min(k.get('max_layers', 4), 3)
            return with_extra(gen.structure(backends=(1,), jax_shape=gen.JAX_SHAPES[s % len(gen.JAX_SHAPES)], **k),
                              **extra)
        out.append(Relation(name + '-jax', jstrategy, check, jquick, jthorough, shards=jshards, weight=40.,
                            rule=rule))
    return out


def subs(r):
    return [(k, r[k]) for k in ('res', 'te', 'tm') if r[k] is not None]


def shape_of(case):
    return 2 * case['fto'][1] + 1, 2 * case['fto'][0] + 1


def transverse2(case):
    kx, ky, KX, KY = ref.kvectors(case['n_top'], case['theta'], case['phi'] or 0., case['period'], case['wl'],
                                  case['fto'])
    return (KX ** 2 + KY ** 2).reshape(shape_of(case))


def check_gap(case, gap=0.02):
    n_bot = gen.cnum(case['n_bot'])
    if ref.rayleigh_gap(case['n_top'], n_bot, case['theta'], case['phi'] or 0., case['period'], case['wl'],
                        case['fto']) < gap:
        raise Skip('an order is too close to cutoff')


def check_modes(case, limit=2e-3):
    """skip structures with a layer mode at cutoff, where every formulation divides by ~zero"""
    uc = gen.ucell_array(case['cell'], 'complex')
    kt2 = transverse2(case).ravel()
    for u in uc:
        if np.ptp(u.real) == 0 and np.ptp(u.imag) == 0:
            if np.min(np.abs(u.flat[0] ** 2 - kt2)) < limit ** 2:
                raise Skip('a layer mode is too close to cutoff')


def interesting(case, r):
    """a patterned structure with light in more than one order, or coupling s and p"""
    d = r['res']
    lit = int(np.sum(d['de_ri'] > 1e-9) + np.sum(d['de_ti'] > 1e-9))
    return gen.is_patterned(case) and lit >= 2


def compare_subs(what, got, want, keys=EFF, tol=TOL, names=('res', 'te', 'tm')):
    for nm in names:
        if (got[nm] is None) != (want[nm] is None):
            raise Violation(f'{what}: sub-result {nm} present on one side only')
        if got[nm] is None:
            continue
        for a in keys:
            sim.close(f'{what}: {nm}.{a}', got[nm][a], want[nm][a], tol)
