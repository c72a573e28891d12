"""P11 internal fields: the reported field is the field of the reported solution."""
from .common import *

SIGN = {0: np.array([1, 1, -1, -1, -1, 1]), 1: np.array([1, 1, -1, -1, -1, 1]), 2: np.array([-1, 1, 1, -1, 1, 1])}


def select(case):
    sel = tuple(bool(v) for v in case['sel'])
    if not any(sel):
        raise Skip('nothing selected')
    return sel


def physical(case, f, sel):
    """the backend's array -> physical (Ex, Ey, Ez, Hx, Hy, Hz), axis 0 the selected inputs (fixed conventions,
    DESIGN.md)."""
    f = sim.arr(f)
    if case['dim'] == '1d':
        if case['b'] == 2:
            expect(f.shape[-1] == 6, f'1D torch field has {f.shape[-1]} components')
            te = case['pol'][1] == 0
            keep = (1, 3, 5) if te else (4, 0, 2)
            rest = [i for i in range(6) if i not in keep]
            expect(np.abs(f[..., rest]).max() <= 1e-9 * max(1., np.abs(f).max()), 'a component that vanishes by symmetry does not')
            f = np.conj(f[..., keep])
        expect(f.shape[-1] == 3, f'1D field has {f.shape[-1]} components')
        te = case['pol'][1] == 0
        out = np.zeros(f.shape[:-1] + (6,), dtype=complex)
        s = np.array([1, -1, 1])
        if te:
            out[..., (1, 3, 5)] = f * s
        else:
            out[..., (4, 0, 2)] = f * s * case['n_top']
        return out[None]
    # both s and p are drawn for the azimuth taken modulo half a turn
    sg = sim.branch(np.cos(case['phi'] or 0.))
    if case['b'] == 2:
        return np.conj(f) * SIGN[2] * sg
    which = [i for i in range(3) if sel[i]]
    flip = np.array([-1. if i == 2 else 1. for i in which]).reshape(-1, 1, 1, 1, 1)
    return f * SIGN[case['b']] * sg * flip


def solved(case):
    m = sim.build(case)
    return m, sim.unpack(m.conv_solve())


def grid(case, res):
    rx, ry, rz = res
    if case['dim'] == '1d':
        ry = 1
    return (np.linspace(0, case['period'][0], rx), np.linspace(0, case['period'][1], ry)[::-1],
            [np.linspace(0, d, rz) for d in case['thickness']])


def wanted(case, res):
    xs, ys, zs = grid(case, res)
    if case['dim'] == '1d':
        sol = sim.reference(case, psis=(np.pi / 2 if case['pol'][1] == 0 else 0.,))
    else:
        sol = sim.reference(case)
    return sol, xs, ys, zs


def reference(case):
    """every component at every point against the independent solver"""
    sel = select(case)
    sol, xs, ys, zs = wanted(case, case['res'])
    m, r = solved(case)
    rx, ry, rz = case['res']
    f = physical(case, m.calculate_field(res_x=rx, res_y=ry, res_z=rz, set_field_input=sel), sel)
    which = [0] if case['dim'] == '1d' else [i for i in range(3) if sel[i]]
    for slot, i in enumerate(which):
        want = ref.field(sol, xs, ys, zs, j=0 if case['dim'] == '1d' else i)
        for c, name in enumerate(('Ex', 'Ey', 'Ez', 'Hx', 'Hy', 'Hz')):
            sim.close(f'{name} for input {i}', f[slot][..., c], want[..., c], 1e-7, scale=max(1., np.abs(want).max()))
    expect(len(f) == len(which), f'{len(f)} fields for {len(which)} inputs')
    return {'nontrivial': interesting(case, r), 'labels': sim.label(case)}


def physics(case):
    """independent of any convention: tangential components continue through interfaces, the field is a Bloch wave,
    and the power it carries is the power reported"""
    check_gap(case)
    check_modes(case)
    m, r = solved(case)
    fx, fy = case['fto']
    two = case['dim'] != '1d'
    nx = 4 * fx + 3
    ny = 4 * fy + 3 if two else 1
    sel = (True, True, True)
    f = physical(case, m.calculate_field(res_x=nx + 1, res_y=ny + 1 if two else 1, res_z=3, set_field_input=sel), sel)
    L = len(case['thickness'])
    big = max(1., np.abs(f).max())
    k0 = 2 * np.pi / case['wl']
    phi = case['phi'] or 0.
    k = case['n_top'] * np.sin(case['theta']) * np.array([np.cos(phi), np.sin(phi)])
    for l in range(L - 1):
        sim.close(f'tangential field across interface {l + 1}', f[:, 3 * (l + 1)][..., (0, 1, 3, 4)],
                  f[:, 3 * l + 2][..., (0, 1, 3, 4)], 1e-7, scale=big)
    ph = np.exp(-1j * k0 * k[0] * case['period'][0])
    sim.close('Bloch condition along x', f[..., -1, :], f[..., 0, :] * ph, 1e-7, scale=big)
    if two:
        ph = np.exp(-1j * k0 * k[1] * case['period'][1])       # row 0 is the highest y
        sim.close('Bloch condition along y', f[:, :, 0], f[:, :, -1] * ph, 1e-7, scale=big)
    g = f[:, :, 1:, :-1] if two else f[:, :, :, :-1]
    flux = (g[..., 0] * g[..., 4].conj() - g[..., 1] * g[..., 3].conj()).real.mean(axis=(2, 3))
    names = ['res', 'te', 'tm'] if two else ['res']
    for i, nm in enumerate(names):
        # incident power per area: n_top cos(theta) for a unit E amplitude
        inc = case['n_top'] * np.cos(case['theta'])
        sim.close(f'{nm}: power through the bottom plane', flux[i][-1] / inc, r[nm]['de_ti'].sum(), 1e-7)
        sim.close(f'{nm}: power through the top plane', flux[i][0] / inc, 1 - r[nm]['de_ri'].sum(), 1e-7)
        drop = -np.diff(flux[i])
        expect(drop.min() > -1e-7 * big ** 2, f'{nm}: power grows with depth')
        for l in range(L):
            if all(p[1] == 0 for p in case['cell'][l]['pal']):
                # a lossless layer absorbs nothing
                expect(np.abs(drop[3 * l:3 * l + 2]).max() < 1e-7 * max(1., inc), f'{nm}: power is lost inside lossless layer {l}')
    return {'nontrivial': interesting(case, r), 'labels': sim.label(case)}


def api(case):
    """what is asked for is what is returned: selection, sampling, combined call, repeated call"""
    check_gap(case)
    check_modes(case)
    sel = select(case)
    m, r = solved(case)
    rx, ry, rz = case['res']
    one = case['dim'] == '1d'
    kw = dict(res_x=rx, res_y=ry, res_z=rz)
    full = sim.arr(m.calculate_field(set_field_input=(True, True, True), **kw))
    part = sim.arr(m.calculate_field(set_field_input=sel, **kw))
    L = len(case['thickness'])
    if one:
        expect(full.shape[:3] == (rz * L, 1, rx), f'field shape {full.shape}')
        want = full
    else:
        expect(full.shape == (3, rz * L, ry, rx, 6), f'field shape {full.shape}')
        want = full[[i for i in range(3) if sel[i]]]
    big = max(1., np.abs(full).max())
    sim.close('selected inputs', part, want, 1e-10, scale=big)
    default = sim.arr(m.calculate_field(**kw))
    sim.close('default selection', default, full if one else full[:1], 1e-10, scale=big)
    if sum(case['res']) % 4 == 0:
        # left out, each resolution is 20
        for k in ('res_x', 'res_y', 'res_z'):
            left = {a: v for a, v in kw.items() if a != k}
            sim.close(f'{k} left out', sim.arr(m.calculate_field(set_field_input=sel, **left)),
                      sim.arr(m.calculate_field(set_field_input=sel, **dict(kw, **{k: 20}))), 1e-10, scale=big)
    # a finer grid contains the coarse one
    if rx > 1 and ry > 1 and rz > 1:
        fine = sim.arr(m.calculate_field(res_x=2 * rx - 1, res_y=2 * ry - 1, res_z=2 * rz - 1, set_field_input=(True, True, True)))
        fine = fine.reshape(fine.shape[:-4] + (L, 2 * rz - 1) + fine.shape[-3:])
        step = fine[..., ::2, ::(1 if one else 2), ::2, :]
        sim.close('coarse grid inside the fine grid', step.reshape(full.shape), full, 1e-7, scale=big)
    m2 = sim.build(case)
    out = m2.conv_solve_field(set_field_input=sel, **kw)
    expect(isinstance(out, tuple) and len(out) == 2, 'conv_solve_field returns result and field')
    compare_subs('conv_solve_field', sim.unpack(out[0]), r, keys=EFF + ('R_s', 'R_p', 'T_s', 'T_p'), tol=1e-10)
    sim.close('field from conv_solve_field', sim.arr(out[1]), part, 1e-10, scale=big)
    if case['b'] == 1:
        out = sim.build(case).conv_solve_field_no_jit(set_field_input=sel, **kw)
        compare_subs('conv_solve_field_no_jit', sim.unpack(out[0]), r, keys=EFF + ('R_s', 'R_p', 'T_s', 'T_p'), tol=1e-10)
        sim.close('field from conv_solve_field_no_jit', sim.arr(out[1]), part, 1e-10, scale=big)
    again = sim.unpack(m.conv_solve())
    compare_subs('solving again after the field', again, r, keys=EFF + ('R_s', 'R_p', 'T_s', 'T_p'), tol=1e-10)
    return {'nontrivial': interesting(case, r), 'labels': sim.label(case)}


RULE = 'patterned, and at least two orders carry power'
SEL = st.tuples(st.integers(0, 1), st.integers(0, 1), st.integers(0, 1)).map(list)
EXTRA = {'res': st.tuples(st.integers(1, 5), st.integers(1, 5), st.integers(1, 5)).map(list), 'sel': SEL}
JEXTRA = {'res': st.sampled_from([[3, 2, 4], [4, 3, 2]]), 'sel': SEL}
KW = dict(lossy=True, with_metal=True, lossy_bot=True, zero_thickness=True, far=True)
RELATIONS = (
    pair('reference', reference, 700, 15000, 0, 0, RULE, extra=EXTRA, max_layers=4, **KW)
    + pair('reference', reference, 0, 0, 30, 600, RULE, extra=JEXTRA, max_layers=2, jshards=2, **KW)
    + pair('physics', physics, 500, 10000, 24, 400, RULE, max_layers=4, max_n=6, jshards=2, **KW)
    + pair('api', api, 400, 8000, 0, 0, RULE, extra=EXTRA, max_layers=3, **KW)
    + pair('api', api, 0, 0, 20, 400, RULE, extra=JEXTRA, max_layers=2, jshards=2, **KW)
)
ASSUMPTIONS = ['orders or uniform-layer modes at cutoff are left out',
               'fields are compared on each backend\'s fixed sign, phase and normalisation convention']
