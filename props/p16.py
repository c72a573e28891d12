"""P16 settings: equivalent spellings mean the same, invalid ones are refused."""
from .common import *


def cast(case, v, how):
    """the same numbers in another container"""
    if how == 0:
        return list(v)
    if how == 1:
        return tuple(v)
    if how == 2:
        return np.array(v)
    if case['b'] == 2:
        import torch
        return torch.tensor(np.array(v))
    if case['b'] == 1:
        import jax
        jax.config.update('jax_enable_x64', True)
        return jax.numpy.array(v)
    return np.array(v)


def spellings(case):
    """name -> list of (description, value) all meaning what the case says"""
    fx, fy = case['fto']
    out = {}
    f = [('pair', [fx, fy]), ('tuple', (fx, fy)), ('array', np.array([fx, fy])), ('floats', [float(fx), float(fy)]),
         ('backend array', cast(case, [fx, fy], 3))]
    if fy == 0:
        f += [('number', fx), ('float', float(fx)), ('one-element list', [fx]), ('one-element tuple', (fx,)),
              ('one-element array', np.array([fx])), ('zero-dimensional array', np.array(fx))]
    out['fto'] = f
    px, py = case['period']
    p = [(f'container {h}', cast(case, [px, py], h)) for h in range(4)]
    if px == py:
        p += [('number', px), ('one-element list', [px]), ('one-element tuple', (px,)), ('one-element array', np.array([px]))]
    out['period'] = p
    t = case['thickness']
    d = [(f'container {h}', cast(case, t, h)) for h in range(4)]
    if len(t) == 1:
        d += [('number', t[0])]
    out['thickness'] = d
    u = gen.ucell_array(case['cell'], 'complex')
    c = [('complex', u), ('Fortran order', np.asfortranarray(u)), ('read-only', readonly(u)), ('strided', np.repeat(u, 2, axis=2)[:, :, ::2])]
    if np.all(u.imag == 0):
        c += [('float', u.real.copy()), ('backend array of floats', cast(case, u.real, 3))]
        if np.all(u.real == np.round(u.real)):
            c += [('int64', u.real.astype(np.int64)), ('int32', u.real.astype(np.int32)), ('float32', u.real.astype(np.float32))]
    c += [('backend array', cast(case, u, 3))]
    out['ucell'] = c
    kind, v = case['pol']
    if case['dim'] != '1d':
        psi = sim.psi_of(case)
        if kind == 'pol':
            out['pol'] = [('pol', ('pol', v)), ('psi', ('psi', psi)), ('psi, overriding pol', ('both', psi))]
        else:
            out['pol'] = [('psi', ('psi', psi)), ('psi, overriding pol', ('both', psi))]
    else:
        out['pol'] = [('int', ('pol', int(v))), ('float', ('pol', float(v))), ('bool', ('pol', bool(v)))]
    import importlib
    tc = [('0', 0), ('numpy dtype', np.complex128)]
    if case['b'] == 1:
        tc.append(('jax dtype', importlib.import_module('jax').numpy.complex128))
    if case['b'] == 2:
        tc.append(('torch dtype', importlib.import_module('torch').complex128))
    out['type_complex'] = tc
    out['device'] = [('0', 0), ('cpu', 'cpu')]
    n = case['n_bot']
    if n[1] == 0:
        out['n_bot'] = [('float', n[0]), ('complex', complex(n[0])), ('numpy float', np.float64(n[0])), ('backend scalar', cast(case, n[0], 3))]
    for k in ('n_top', 'wavelength', 'theta', 'phi'):
        v = case['wl' if k == 'wavelength' else k]
        if v is None:
            continue
        out[k] = [('float', v), ('numpy float', np.float64(v)), ('zero-dimensional array', cast(case, v, 2 if k in ('theta', 'phi') else 3))]
        if k in ('theta', 'phi'):
            out[k] += [('complex', complex(v)), ('backend scalar', cast(case, v, 3))]
        if v == int(v):
            out[k] += [('int', int(v))]
    return out


# what a setting left out means
DEFAULTS = {'n_top': 1., 'n_bot': 1., 'theta': 0., 'phi': None, 'psi': None, 'pol': 0., 'period': (1., 1.), 'wavelength': 1., 'thickness': (0.,),
            'fto': (0, 0), 'connecting_algo': 'TMM', 'device': 'cpu', 'fourier_type': 0, 'enhanced_dfs': True, 'use_pinv': False,
            'ucell_materials': None}


def omitted(case):
    """leaving a setting out is giving its default"""
    kw = sim.kwargs(case)
    kw.pop('type_complex')
    keys = [k for i, k in enumerate(sorted(DEFAULTS)) if case['mix'] >> i & 1]
    if len(case['cell']) > 1 and 'thickness' in keys:
        keys.remove('thickness')
    if 'psi' in kw and 'psi' not in keys and 'pol' in keys:
        keys.remove('pol')                # psi decides
    given = dict(kw, **{k: DEFAULTS[k] for k in keys})
    left = {k: v for k, v in given.items() if k not in keys}
    if 'wavelength' in keys or 'period' in keys:
        # keep the ratio of wavelength to period ordinary
        r = 1 / case['wl'] if 'wavelength' in keys and 'period' not in keys else 1 / case['period'][0]
        for d in (given, left):
            for k in ('wavelength', 'period', 'thickness'):
                if k in d and k not in keys:
                    d[k] = [v * r for v in d[k]] if k != 'wavelength' else d[k] * r
    try:
        want = sim.run_kw(dict(given))
    except Exception as e:                                             # noqa: BLE001
        want = e
    try:
        got = sim.run_kw(dict(left))
    except Exception as e:                                             # noqa: BLE001
        if isinstance(want, Exception) and type(e) is type(want):
            raise Skip('the defaults make a singular case')
        raise Violation(f'with {keys} left out: {type(e).__name__}: {e}')
    if isinstance(want, Exception):
        raise Violation(f'with {keys} at their defaults: {type(want).__name__}: {want}')
    if not all(np.all(np.isfinite(v)) for v in want['res'].values()):
        raise Skip('cutoff')
    check_same(f'{keys} left out', got, want)
    return {'nontrivial': len(keys) > 2 and np.any(np.ptp(gen.ucell_array(case['cell']).reshape(len(case['cell']), -1).real, axis=1) > 0),
            'labels': [sim.BACK[case['b']]] + keys}


def readonly(u):
    v = u.copy()
    v.flags.writeable = False
    return v


def put(kw, name, v):
    if name == 'pol':
        kw.pop('pol', None)
        kw.pop('psi', None)
        if v[0] == 'both':
            kw['pol'], kw['psi'] = 0.37, v[1]
        else:
            kw[v[0]] = v[1]
    else:
        kw[name] = v


def same(case):
    check_gap(case)
    check_modes(case)
    base = sim.kwargs(case)
    want = sim.run_kw(dict(base))
    sp = spellings(case)
    names = sorted(sp)
    # one setting respelt at a time, all its spellings
    for name in [names[case['which'] % len(names)]] if case['which'] >= 0 else names:
        for what, v in sp[name]:
            late = name not in ('pol', 'type_complex', 'device') or (name == 'pol' and v[0] != 'both')
            if case['which'] >= 0 or not late:
                kw = dict(base)
                put(kw, name, v)
                check_same(f'{name} given as {what}', sim.run_kw(kw), want)
            if case['which'] >= 0 and late:
                # assigned afterwards instead
                m = sim.meent().call_mee(**dict(base))
                setattr(m, name if name != 'pol' else v[0], v if name != 'pol' else v[1])
                check_same(f'{name} assigned as {what}', sim.unpack(m.conv_solve()), want)
            if late:
                # given with the call, to an object holding something else
                k, x = (name, v) if name != 'pol' else v
                m = sim.meent().call_mee(**dict(base, **other(case, k)))
                check_same(f'{name} given to conv_solve as {what}', sim.unpack(m.conv_solve(**{k: x})), want)
    # everything respelt at once
    kw = dict(base)
    for i, nm in enumerate(names):
        put(kw, nm, sp[nm][(case['mix'] >> (2 * i)) % len(sp[nm])][1])
    check_same('everything respelt: ' + str({nm: sp[nm][(case['mix'] >> (2 * i)) % len(sp[nm])][0] for i, nm in enumerate(names)}),
               sim.run_kw(kw), want)
    # nothing in the constructor, everything assigned
    m = sim.meent().call_mee(backend=case['b'])
    keys = [k for k in base if k not in ('backend', 'type_complex')]
    order = np.random.RandomState(case['mix'] % 9973).permutation(len(keys))
    for i in order:
        setattr(m, keys[i], base[keys[i]])
    check_same(f'assigned in the order {[keys[i] for i in order]}', sim.unpack(m.conv_solve()), want)
    return {'nontrivial': interesting(case, want), 'labels': [sim.BACK[case['b']], case['dim'], name if case['which'] >= 0 else 'every setting']}


def other(case, k):
    """another valid value of the setting"""
    fx, fy = case['fto']
    return {k: {'fto': [fx + 1, fy], 'period': [v * 1.25 for v in case['period']], 'thickness': [v * .5 + 30. for v in case['thickness']],
                'ucell': np.full((len(case['cell']), 1, 1), 1.5) if case['dim'] != '2d' else np.full((len(case['cell']), 2, 2), 1.5),
                'pol': 1 if case['dim'] == '1d' and case['pol'][1] == 0 else 0 if case['dim'] == '1d' else .41, 'psi': .77, 'n_bot': 1.9,
                'n_top': 1.13, 'wavelength': case['wl'] * 1.1, 'theta': .123, 'phi': .321}[k]}


def check_same(what, got, want):
    compare_subs(what, got, want, tol=1e-9)
    compare_subs(what, got, want, keys=('R_s', 'R_p', 'T_s', 'T_p'), tol=1e-8)


BAD = {
    'backend': [3, -1, 'numpy', None],
    'pol': [1.5, -0.2, 2, -1, 1.0001, -0.0001],
    'fto': [[1, 2, 3], [], (1, 2, 3), 'a', None, np.array([1, 2, 3])],
    'period': ['a', None],
    'thickness': ['a', None],
    'type_complex': [2, -1, 'complex128', np.float64],
    'fourier_type': [2, -1, None],
    'ucell': [3., 'Si', (1, 2), {'a': 1}],
    'connecting_algo': ['XXX', None],
    'no ucell': [None],
}


def refuse(case):
    name = case['name']
    v = BAD[name][case['i'] % len(BAD[name])]
    if name == 'pol':
        v = (1 if v > 0 else 0) + (v - (1 if v > 0 else 0)) * case['f']
    c = case['c']
    kw = sim.kwargs(c)
    at = 'ucell' if name == 'no ucell' else name
    kw[at] = v
    try:
        r = sim.meent().call_mee(**kw).conv_solve()
    except ValueError:
        pass
    except Exception as e:                                             # noqa: BLE001
        raise Violation(f'{at}={v!r} raised {type(e).__name__} instead of ValueError')
    else:
        raise Violation(f'{at}={v!r} was accepted: {r}')
    if name not in ('backend', 'no ucell'):
        # the same by assignment, and the object stays usable with its old value
        m = sim.meent().call_mee(**sim.kwargs(c))
        want = sim.unpack(m.conv_solve())
        try:
            setattr(m, at, v)
            m.conv_solve()
        except ValueError:
            pass
        except Exception as e:                                         # noqa: BLE001
            raise Violation(f'assigning {at}={v!r} raised {type(e).__name__} instead of ValueError')
        else:
            raise Violation(f'assigning {at}={v!r} was accepted')
        k = 'psi' if at == 'pol' and c['pol'][0] == 'psi' else at
        setattr(m, k, sim.kwargs(c).get(k, 'TMM'))
        compare_subs(f'after a refused {at}', sim.unpack(m.conv_solve()), want, tol=1e-9)
    return {'nontrivial': True, 'labels': [sim.BACK[c['b']], name]}


def refuse_cases(backends, jax=False):
    return st.fixed_dictionaries({
        'name': st.sampled_from(sorted(BAD)), 'i': st.integers(0, 5), 'f': gen.num(0.2, 3.),
        'c': gen.structure(backends=backends, lossy=True, max_layers=2, max_n=4, jax_shape=gen.JAX_SHAPES[0] if jax else None)})


def bad_dtype(case):
    """numpy and jax refuse a cell whose pixels are not numbers of a supported type"""
    c = case['c']
    u = gen.ucell_array(c['cell']).real.astype(case['dtype'])
    try:
        sim.meent().call_mee(**sim.kwargs(c, ucell=u))
    except ValueError:
        return {'nontrivial': True, 'labels': [sim.BACK[c['b']], case['dtype']]}
    except Exception as e:                                             # noqa: BLE001
        raise Violation(f'a cell of {case["dtype"]} raised {type(e).__name__} instead of ValueError')
    raise Violation(f'a cell of {case["dtype"]} was accepted')


@st.composite
def spelled(draw, backends=(0, 2), jax_shape=None, dims=('1d', '1dc', '2d')):
    c = draw(gen.structure(backends=backends, dims=dims, lossy=True, lossy_bot=True, max_layers=2, max_n=5, jax_shape=jax_shape))
    if jax_shape is None:
        c['fto'] = draw(st.sampled_from([[1, 1], [2, 0], [1, 0], [1, 2], [0, 1]] if c['dim'] == '2d' else [[1, 0], [2, 0], [3, 0]]))
    if draw(st.booleans()):
        c['period'] = [c['period'][0]] * 2
    if draw(st.integers(0, 2)) == 0:
        for L in c['cell']:
            L['pal'] = [[float(max(1, round(p[0]))), 0.] for p in L['pal']]
    return dict(c, which=draw(st.integers(0, 12)), mix=draw(st.integers(0, 4 ** 14)))


RULE = 'patterned, and at least two orders carry power'
TINY = {'1d': ([1, 0], 1, 3), '1dc': ([1, 0], 1, 3), '2d': ([1, 1], 2, 2)}
RELATIONS = [
    Relation('spelling', lambda s: spelled(), same, 400, 8000, shards=5, weight=1, rule=RULE),
    Relation('spelling-jax', lambda s: spelled(backends=(1,), jax_shape=gen.JAX_SHAPES[0]), same, 8, 200, shards=2, weight=100, rule=RULE),
    Relation('spelling-every-jax', lambda s: with_extra(spelled(backends=(1,), dims=(['1dc', '2d', '1d'][s % 3],), jax_shape=TINY),
                                                        which=st.just(-1)),
             same, 2, 60, shards=2, weight=1000, rule=RULE),
    Relation('default', lambda s: spelled(), omitted, 200, 4000, shards=2, weight=1, rule='patterned, at least three settings left out'),
    Relation('default-jax', lambda s: spelled(backends=(1,), jax_shape=gen.JAX_SHAPES[0]), omitted, 8, 100, shards=1, weight=100, rule='patterned, at least three settings left out'),
    Relation('refuse', lambda s: refuse_cases((0, 2)), refuse, 250, 3000, shards=2, weight=1, rule='always'),
    Relation('refuse-jax', lambda s: refuse_cases((1,), True), refuse, 30, 400, shards=1, weight=20, rule='always'),
    Relation('dtype', lambda s: st.fixed_dictionaries({
        'c': gen.structure(backends=(0, 1), max_layers=1, max_n=3), 'dtype': st.sampled_from(['bool', 'float16', 'object', 'U8', 'S8', 'int8', 'uint8'])}),
        bad_dtype, 40, 200, shards=1, weight=5, rule='always'),
]
ASSUMPTIONS = ['orders or uniform-layer modes at cutoff are left out']
