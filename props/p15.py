"""P15 no memory: what a solve returns depends only on the current settings, not on what was done before; inputs are
not modified; results handed out earlier stay as they were."""
import copy

from . import p13
from .common import *

SCALARS = ('n_top', 'n_bot', 'theta', 'phi', 'wavelength', 'period', 'fto', 'pol', 'fourier_type', 'enhanced_dfs',
           'use_pinv')


def settings(c):
    """kwargs of one generated configuration (raster or drawn)"""
    kw = sim.vector_kwargs(c) if 'vec' in c else sim.kwargs(c)
    kw.setdefault('enhanced_dfs', True)
    kw.pop('type_complex')
    return kw


def polkey(kw):
    return 'psi' if 'psi' in kw else 'pol'


def freeze(v):
    if isinstance(v, np.ndarray):
        return ('a', v.dtype.str, v.shape, v.tobytes())
    if isinstance(v, (list, tuple)):
        return tuple(freeze(x) for x in v)
    if hasattr(v, 'detach'):
        return freeze(sim.arr(v))
    return repr(v)


def solve(m, field):
    if field is None:
        return sim.unpack(m.conv_solve()), None
    rx, ry, rz, sel, joint = field
    sel = tuple(sel)
    if joint:
        r, f = m.conv_solve_field(res_x=rx, res_y=ry, res_z=rz, set_field_input=sel)
    else:
        r = m.conv_solve()
        f = m.calculate_field(res_x=rx, res_y=ry, res_z=rz, set_field_input=sel)
    return sim.unpack(r), sim.arr(f)


def same(what, a, b, single=False):
    rt, at = (1e-3, 1e-3) if single else (1e-7, 1e-9)
    for nm in ('res', 'te', 'tm'):
        expect((a[0][nm] is None) == (b[0][nm] is None), f'{what}: {nm} present on one side only')
        if a[0][nm] is None:
            continue
        for k in sim.SUB:
            x, y = a[0][nm][k], b[0][nm][k]
            ok = x.shape == y.shape and np.allclose(x, y, rtol=rt, atol=at, equal_nan=True)
            if not ok:
                raise Violation(f'{what}: {nm}.{k} is {x.tolist()} but a new object gives {y.tolist()}')
    if a[1] is not None:
        expect(a[1].shape == b[1].shape and np.allclose(a[1], b[1], rtol=10 * rt, atol=10 * at * max(1., np.abs(b[1]).max()),
                                                        equal_nan=True), f'{what}: field differs from that of a new object')


def tweak(m, kw, op, b, inputs):
    """a small change of the stack: the same pixels elsewhere, one pixel, one thickness; assigned or written in place"""
    a, k = op['a'], op['k']
    inplace = a % 2 == 1 and b != 1
    if a % 4 < 2 or not isinstance(kw['ucell'], np.ndarray):
        t = list(kw['thickness'])
        how = (a // 4) % 3
        i = a % len(t)
        if how == 0:
            t = t[1:] + t[:1]
        elif how == 1:
            t[i] = t[i] * 1.37
        else:
            t[i] = t[i] * (1 + 1e-5)
        if inplace:
            for j, v in enumerate(t):
                m.thickness[j] = v
        else:
            inputs.append((t, freeze(t), 'thickness'))
            m.thickness = t
        kw['thickness'] = list(t)
        return
    u = kw['ucell'].copy()
    how = (a // 4) % 6
    L = k % len(u)
    i, j = (a * 7) % u.shape[1], (a * 5) % u.shape[2]
    if how == 0:
        u = np.roll(u, 1, axis=2)
    elif how == 1:
        u = u[:, ::-1].copy()
    elif how == 2:
        u = np.roll(u, 1, axis=0)
    elif how == 3:
        u[L, i, j] += 0.4
    elif how == 4:
        u[L, i, j] *= 1 + 1e-5
    else:
        u[L, i, 0], u[L, i, -1] = u[L, i, -1], u[L, i, 0]
    if inplace:
        for ix in np.ndindex(u.shape):
            m.ucell[ix] = u[ix].item()
        # torch keeps the caller's own array, so writing through the object is writing to it
        inputs[:] = [(v, freeze(v), at) if at == 'ucell' else (v, f, at) for v, f, at in inputs]
    else:
        inputs.append((u, freeze(u), 'ucell'))
        m.ucell = u
    kw['ucell'] = u.copy()


def check(case):
    mt = sim.meent()
    b = case['b']
    conf = [settings(c) for c in case['conf']]
    for kw in conf:
        kw['backend'] = b
    objs, model = [], []
    for i, k in enumerate(case['start']):
        kw = copy.deepcopy(conf[k % len(conf)])
        kw['type_complex'] = 1 if case['single'] == i else 0
        objs.append(mt.call_mee(**kw))
        model.append(kw)
    held = []                    # (result objects, snapshot)
    inputs = []                  # (the user's own object, frozen)
    solves = 0
    dirty = set()
    for op in case['ops']:
        o = op['o'] % len(objs)
        kw = conf[op['k'] % len(conf)]
        if op['op'] == 'set':
            at = SCALARS[op['a'] % len(SCALARS)]
            if at == 'pol':
                at = polkey(kw)
                model[o].pop('pol', None)
                model[o].pop('psi', None)
            v = copy.deepcopy(kw[at])
            inputs.append((v, freeze(v), at))
            model[o][at] = copy.deepcopy(v)
            setattr(objs[o], at, v)
            dirty.add(o)
        elif op['op'] == 'stack':
            names = ['ucell', 'thickness'] if op['a'] % 2 else ['thickness', 'ucell']
            for at in names:
                v = copy.deepcopy(kw[at])
                inputs.append((v, freeze(v), at))
                model[o][at] = copy.deepcopy(v)
                if op['a'] % 3 == 0 and b != 0:
                    continue
                setattr(objs[o], at, v)
            if op['a'] % 3 == 0 and b != 0:          # as keyword arguments of the solve
                if not consistent(model[o]):
                    raise Skip('drawn cell needs orders in both directions')
                try:
                    want = fresh(mt, model[o], None)
                except Exception:                                      # noqa: BLE001
                    raise Skip('settings that do not go together')
                r = objs[o].conv_solve(**{at: copy.deepcopy(model[o][at]) for at in names})
                same('conv_solve(**settings)', (sim.unpack(r), None), want, model[o]['type_complex'])
                solves += 1
            dirty.add(o)
        elif op['op'] == 'tweak':
            tweak(objs[o], model[o], op, b, inputs)
            dirty.add(o)
        else:
            if not consistent(model[o]):
                continue
            field = op['field'] if op['op'] == 'field' else None
            if field is not None and not any(field[3]):
                field = None
            got, early = None, op['a'] % 2 and not model[o]['type_complex']
            try:
                if early:
                    got = solve(objs[o], field)
                want = fresh(mt, model[o], field)
            except Exception:                                          # noqa: BLE001
                try:
                    fresh(mt, model[o], field)
                except Exception:                                      # noqa: BLE001
                    # settings that do not go together (a drawing larger than the cell now in force), known finding F5
                    continue
                raise
            if got is None:
                got = solve(objs[o], field)
            same(f'solve number {solves + 1}', got, want, model[o]['type_complex'])
            held.append((got, copy.deepcopy(got)))
            solves += 1
            if o in dirty:
                dirty.discard(o)
    for v, f, at in inputs:
        expect(freeze(v) == f, f'the value given for {at} was modified')
    for got, snap in held:
        for nm in ('res', 'te', 'tm'):
            if got[0][nm] is not None:
                for k in sim.SUB:
                    expect(np.array_equal(got[0][nm][k], snap[0][nm][k], equal_nan=True),
                           f'{nm}.{k} of an earlier result changed afterwards')
        if got[1] is not None:
            expect(np.array_equal(got[1], snap[1], equal_nan=True), 'a field handed out earlier changed afterwards')
    if solves == 0:
        raise Skip('nothing solved')
    return {'nontrivial': solves >= 2 and len(inputs) >= 1, 'labels': [sim.BACK[b], f'solves{min(solves, 4)}']}


def consistent(kw):
    """enough information to solve: layers and thicknesses of equal number"""
    return len(kw['ucell']) == len(kw['thickness'])


def fresh(mt, kw, field):
    return solve(mt.call_mee(**copy.deepcopy(kw)), field)


def shifted(case, key, i, size):
    """the same configuration with one number changed a little"""
    c = copy.deepcopy(case)

    def up(v):
        return [v[0] * (1 + size), v[1]] if isinstance(v, list) else v * (1 + size)
    if key in ('theta', 'wl', 'n_top', 'n_bot'):
        c[key] = up(c[key])
    elif key == 'phi':
        c['phi'] = up(c['phi']) if c['phi'] else c['phi']
    elif key in ('period', 'thickness'):
        i %= len(c[key])
        c[key][i] *= 1 + size
    elif key == 'pol':
        if c['pol'][0] == 'psi':
            c['pol'] = ['psi', c['pol'][1] + size]
    elif 'vec' in c:
        L = c['vec'][i % len(c['vec'])]
        if L['objs']:
            o = L['objs'][i % len(L['objs'])]
            o['n'] = up(o['n'])
        else:
            L['base'] = up(L['base'])
    else:
        L = c['cell'][i % len(c['cell'])]
        L['pal'][i % len(L['pal'])] = up(L['pal'][i % len(L['pal'])])
    return c


def nearby(case):
    """objects with almost the same settings, alive one after the other in one process: each has its own result, judged by
    the independent solver (a new object would share any process-wide memory)"""
    cases = [case]
    for key, i, size in case['steps']:
        cases.append(shifted(cases[-1], key, i, size))
    wants = [sim.reference(c, layers=p13.vector_layers(c)[0] if 'vec' in c else None) for c in cases]
    kws = [settings(c) for c in cases]
    mt = sim.meent()
    alive = [mt.call_mee(**copy.deepcopy(kw)) for kw in kws] if case['together'] else None
    # coinciding edges of a drawing are nudged apart, by a visible amount in metres
    tol = TOL if 'vec' not in case else 1e-5 if case['period'][0] < 1e-3 else 1e-7
    moved = 0.
    for n, (kw, sol) in enumerate(zip(kws, wants)):
        r = sim.unpack((alive[n] if alive else mt.call_mee(**copy.deepcopy(kw))).conv_solve())
        for j, nm in enumerate(('res', 'te', 'tm')):
            if r[nm] is None:
                continue
            for a in EFF:
                sim.close(f'object {n + 1}: {nm}.{a}', r[nm][a], getattr(sol, a)[j], tol)
        if n:
            moved = max(moved, np.abs(np.asarray(sol.de_ri[0]) - np.asarray(wants[n - 1].de_ri[0])).max())
    return {'nontrivial': moved > 10 * tol, 'labels': sim.label(case) + [k for k, _, _ in case['steps']]}


STEPS = st.lists(st.tuples(st.sampled_from(['theta', 'phi', 'wl', 'n_top', 'n_bot', 'period', 'thickness', 'pol', 'pal', 'pal']),
                           st.integers(0, 5), st.sampled_from([1e-2, 1e-3, 1e-4, 3e-5])).map(list), min_size=1, max_size=3)


FIELD = st.tuples(st.integers(1, 4), st.integers(1, 3), st.integers(1, 3),
                  st.lists(st.booleans(), min_size=3, max_size=3), st.booleans()).map(list)


@st.composite
def history(draw, backends=(0, 2), jax=False):
    b = draw(st.sampled_from(backends)) if len(backends) > 1 else backends[0]
    n = draw(st.integers(2, 3))
    conf = []
    js = gen.JAX_SHAPES[0]
    for i in range(n):
        if draw(st.integers(0, 3)) == 0 and not jax:
            c = draw(gen.vector_structure(backends=(b,), lossy=True, lossy_bot=True, max_layers=2, max_objs=2))
        else:
            c = draw(gen.structure(backends=(b,), lossy=True, lossy_bot=True, with_metal=True, max_layers=2, max_n=5,
                                   jax_shape=js if jax else None))
        if not jax:
            c['fto'] = draw(st.sampled_from([[1, 0], [2, 0], [1, 1], [0, 1], [2, 1], [0, 0]]))
        if 'vec' in c:
            c['fto'] = draw(st.sampled_from([[1, 1], [2, 1], [1, 2]]))
        c['pinv'] = draw(st.booleans())
        conf.append(c)
    op = st.fixed_dictionaries({
        'op': st.sampled_from(['set', 'set', 'set', 'stack', 'tweak', 'tweak', 'solve', 'solve', 'field']), 'o': st.integers(0, 1),
        'k': st.integers(0, n - 1), 'a': st.integers(0, 43), 'field': FIELD})
    ops = draw(st.lists(op, min_size=3, max_size=7 if jax else 16))
    ops.append({'op': 'solve', 'o': 0, 'k': 0, 'a': 0, 'field': [1, 1, 1, [True, False, False], False]})
    return {'b': b, 'conf': conf, 'single': draw(st.sampled_from([-1, -1, 0, 1])) if not jax else -1, 'start': draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=2)), 'ops': ops}


def near(backends=(0, 2), jax_shape=None):
    return gen.structure(backends=backends, lossy=True, with_metal=True, max_layers=2, max_n=6, jax_shape=jax_shape)


RULE = 'at least two solves with a setting changed in between'
RELATIONS = [
    Relation('history', lambda s: history(), check, 500, 12000, shards=6, weight=1, rule=RULE),
    Relation('nearby', lambda s: with_extra(st.one_of(near(), near(), gen.vector_structure(lossy=True, max_objs=2)), steps=STEPS,
                                            together=st.booleans()), nearby, 300, 8000, shards=3, weight=1,
             rule='a step changes the result by more than ten times the tolerance'),
    Relation('nearby-jax', lambda s: with_extra(near(backends=(1,), jax_shape=gen.JAX_SHAPES[s % 3]), steps=STEPS, together=st.booleans()),
             nearby, 10, 200, shards=2, weight=60, rule='a step changes the result by more than ten times the tolerance'),
    Relation('history-jax', lambda s: history(backends=(1,), jax=True), check, 12, 300, shards=2, weight=100, rule=RULE),
]
ASSUMPTIONS = ['a field is asked for only after a solve with the same settings', 'thickness and cell changed together']
