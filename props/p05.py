"""P05 the three backends compute the same physics."""
from .common import *


def same_psi(case, b):
    """the polarisation argument that selects the same physical wave on backend b as case['pol'] does on
    torch (finding F1: numpy and jax reverse the p component)."""
    kind, v = case['pol']
    if sim.P_SIGN[b] > 0 or (kind == 'pol' and v in (0, 1)):
        return {kind: v}
    return {'psi': np.pi - sim.psi_of(case)}


def on(case, b):
    k = sim.kwargs(case, backend=b)
    k.pop('pol', None), k.pop('psi', None)
    k.update(same_psi(case, b))
    return sim.meent().call_mee(**k)


def torch_from_numpy(case, d, nm):
    """numpy amplitudes carried to torch's convention"""
    kx = ref.kvectors(case['n_top'], case['theta'], case['phi'] or 0., case['period'], case['wl'], case['fto'])[0]
    sg = sim.branch(kx) * sim.branch(kx[case['fto'][0]])
    n_top, n_bot = case['n_top'], gen.cnum(case['n_bot'])
    if case['dim'] == '1d':
        return {k: np.conj(sg * d[k]) for k in ('R_s', 'R_p', 'T_s', 'T_p')}
    # res: numpy was run at pi - psi, which is the same wave; tm: numpy has the opposite overall sign
    flip = -1 if nm == 'tm' or (nm == 'res' and case['pol'] in (['pol', 1],)) else 1
    return {'R_s': np.conj(flip * sg * d['R_s']), 'T_s': np.conj(flip * sg * d['T_s']),
            'R_p': np.conj(flip * sg * 1j * d['R_p'] / n_top), 'T_p': np.conj(flip * sg * 1j * d['T_p'] / n_bot)}


def check(case):
    check_gap(case)
    check_modes(case)
    b = case['b']
    other = sim.unpack(on(case, b).conv_solve())
    base = sim.unpack(on(case, 0).conv_solve())
    compare_subs(f'{sim.BACK[b]} against numpy', other, base)
    for nm, d in subs(base):
        want = torch_from_numpy(case, d, nm) if b == 2 else {k: d[k] for k in ('R_s', 'R_p', 'T_s', 'T_p')}
        for k, v in want.items():
            sim.close(f'{sim.BACK[b]} against numpy: {nm}.{k}', other[nm][k], v, 1e-7)
    return {'nontrivial': interesting(case, base), 'labels': sim.label(case)}


FIELD_SIGN_2 = np.array([-1, 1, 1, -1, 1, 1])       # torch, conjugated (see DESIGN.md, conventions)
FIELD_SIGN_0 = np.array([1, 1, -1, -1, -1, 1])


def fields(case):
    check_gap(case)
    check_modes(case)
    b = case['b']
    m1, m0 = on(case, b), on(case, 0)
    r0 = sim.unpack(m0.conv_solve())
    m1.conv_solve()
    rx, ry, rz = case['res']
    if case['dim'] == '1d':
        ry = 1
    sel = tuple(bool(v) for v in case['sel'])
    if not any(sel):
        raise Skip('nothing selected')
    f1 = sim.arr(m1.calculate_field(res_x=rx, res_y=ry, res_z=rz, set_field_input=sel))
    f0 = sim.arr(m0.calculate_field(res_x=rx, res_y=ry, res_z=rz, set_field_input=sel))
    if case['dim'] == '1d' and b == 2:
        f1 = one_d_torch(case, f1)
        sim.close('torch against numpy: field', f1, f0, 1e-7)
    elif b == 2:
        f1 = np.conj(f1) * FIELD_SIGN_2
        g0 = f0 * FIELD_SIGN_0
        # numpy's TM incidence carries an overall -1
        which = [i for i in range(3) if sel[i]]
        for slot, i in enumerate(which):
            flip = -1 if i == 2 or (i == 0 and case['pol'] == ['pol', 1]) else 1
            sim.close(f'torch against numpy: field for input {i}', f1[slot], flip * g0[slot], 1e-7)
    else:
        sim.close('jax against numpy: field', f1, f0, 1e-7)
    return {'nontrivial': interesting(case, r0), 'labels': sim.label(case)}


def one_d_torch(case, f):
    """torch gives all six components in 1D, numpy the three that do not vanish"""
    te = sim.psi_of(case) > 1e-6
    keep = (1, 3, 5) if te else (4, 0, 2)
    rest = [i for i in range(6) if i not in keep]
    if f.shape[-1] != 6:
        raise Violation(f'1D field has {f.shape[-1]} components')
    if np.abs(f[..., rest]).max() > 1e-9 * max(1., np.abs(f).max()):
        raise Violation('a field component that vanishes by symmetry does not')
    return np.conj(f[..., keep])


def f1_probe():
    """F1 as recorded: the same mixed polarisation gives different efficiencies on numpy and torch, and
    exactly those torch gives for pi - psi."""
    k = dict(n_top=1.1, n_bot=1.5, theta=0.5, phi=0.7, period=[1000., 800.], wavelength=900., fto=[2, 1],
             ucell=np.array([[[1., 2., 3.], [1., 1., 2.]]]), thickness=[300.])
    a = sim.run_kw(dict(k, backend=0, psi=0.6))['res']['de_ri']
    b = sim.run_kw(dict(k, backend=2, psi=0.6))['res']['de_ri']
    c = sim.run_kw(dict(k, backend=2, psi=np.pi - 0.6))['res']['de_ri']
    return np.abs(a - c).max() < 1e-10 and np.abs(a - b).max() > 1e-6


KNOWN = [('F1 mixed polarisation: numpy and jax take psi where torch takes pi - psi, e.g. psi=0.6 on a 2x3-pixel '
          'cell at theta=0.5, phi=0.7', f1_probe)]
RULE = 'patterned, and at least two orders carry power'
EXTRA = {'res': st.tuples(st.integers(1, 5), st.integers(1, 5), st.integers(1, 5)).map(list),
         'sel': st.tuples(st.integers(0, 1), st.integers(0, 1), st.integers(0, 1)).map(list)}
JEXTRA = {'res': st.sampled_from([[3, 2, 4], [4, 3, 2]]), 'sel': EXTRA['sel']}
RELATIONS = (
    pair('efficiency', check, 1200, 30000, 90, 2500, RULE, backends=(2,), lossy=True, with_metal=True, lossy_bot=True, zero_thickness=True, far=True)
    + pair('field', fields, 500, 10000, 0, 0, RULE, backends=(2,), lossy=True, extra=EXTRA, max_layers=3, zero_thickness=True)
    + pair('field', fields, 0, 0, 40, 1000, RULE, lossy=True, extra=JEXTRA, max_layers=2)
)
ASSUMPTIONS = ['orders or uniform-layer modes at cutoff are left out']
