"""Independent reference RCWA solver used as the oracle.

Written from Maxwell's equations, not from meent's code.  Time convention exp(+i w t): a wave
travels as exp(-i k0 (kx x + ky y + kz z)), z pointing down into the stack, lengths in units of
1/k0, and an absorbing medium has n = n' - i k'.  H is scaled by the vacuum impedance.

    curl E = -i H,   curl H = +i eps E

Tangential fields of a layer obey   dE/dz = -i A H,   dH/dz = -i B E  with

    A = [[ Kx ez^-1 Ky,      I - Kx ez^-1 Kx ],
         [ Ky ez^-1 Ky - I,  -Ky ez^-1 Kx    ]]
    B = [[ -Kx Ky,           Kx Kx - epy     ],
         [ epx - Ky Ky,      Ky Kx           ]]

The whole stack is one linear system in (R, all modal amplitudes, T); every exponential in it
decays, so there is no recursion to be unstable.
"""
import numpy as np


# ------------------------------------------------------------------ permittivity Fourier series
def coef_exact(edges, vals, modes):
    """c_m = int_0^1 f(u) exp(-2 pi i m u) du, f piecewise constant, f = vals[j] on
    (edges[j], edges[j+1]); vals may carry trailing axes."""
    vals = np.asarray(vals, dtype=complex)
    out = []
    for m in modes:
        a, b = edges[:-1], edges[1:]
        if m == 0:
            w = (b - a).astype(complex)
        else:
            w = (np.exp(-2j * np.pi * m * b) - np.exp(-2j * np.pi * m * a)) / (-2j * np.pi * m)
        out.append(np.tensordot(w, vals, axes=(0, 0)))
    return dict(zip(modes, out))


def coef_sampled(vals, modes):
    """Discrete Fourier series of equally spaced samples f(j/N)."""
    vals = np.asarray(vals, dtype=complex)
    n = vals.shape[0]
    j = np.arange(n)
    out = []
    for m in modes:
        w = np.exp(-2j * np.pi * m * j / n) / n
        out.append(np.tensordot(w, vals, axes=(0, 0)))
    return dict(zip(modes, out))


def toeplitz(c, fto):
    # waves exp(-i k x): eps_conv[r, s] multiplies harmonic s into harmonic r
    ff = 2 * fto + 1
    return np.array([[c[s - r] for s in range(ff)] for r in range(ff)])


def li_matrices(eps, coefx, coefy, fto_x, fto_y):
    """eps[x index, y index] -> (epx, epy, epz) convolution matrices, harmonics flattened y-major.

    coefx / coefy map (values along that axis, modes) to a dict of Fourier coefficients.
    epx: inverse rule along x, direct along y.  epy: the other way round.  epz: direct both.
    """
    ffx, ffy = 2 * fto_x + 1, 2 * fto_y + 1
    mx = range(-2 * fto_x, 2 * fto_x + 1)
    my = range(-2 * fto_y, 2 * fto_y + 1)

    def expand_x(per_col):
        c = coefx(per_col, mx)                      # mode -> (ffy, ffy)
        big = np.zeros((ffy * ffx, ffy * ffx), dtype=complex)
        for rx in range(ffx):
            for sx in range(ffx):
                big[rx::ffx, sx::ffx] = c[sx - rx]
        return big

    direct, inverse = [], []
    for col in eps:
        direct.append(toeplitz(coefy(col, my), fto_y))
        inverse.append(toeplitz(coefy(1 / col, my), fto_y))
    direct, inverse = np.array(direct), np.array(inverse)

    epz = expand_x(direct)
    epx = np.linalg.inv(expand_x(np.linalg.inv(direct)))
    epy = expand_x(np.linalg.inv(inverse))
    return epx, epy, epz


def layer_grid(eps_rows_up, x_edges, y_edges, fto_x, fto_y):
    """Exact (continuous) series.  eps_rows_up[j, i]: y interval j (upwards), x interval i."""
    x_edges, y_edges = np.asarray(x_edges, float), np.asarray(y_edges, float)
    eps = np.asarray(eps_rows_up, dtype=complex).T
    return li_matrices(eps, lambda v, m: coef_exact(x_edges, v, m),
                       lambda v, m: coef_exact(y_edges, v, m), fto_x, fto_y)


def layer_sampled(eps_rows_up, fto_x, fto_y):
    eps = np.asarray(eps_rows_up, dtype=complex).T
    return li_matrices(eps, coef_sampled, coef_sampled, fto_x, fto_y)


def raster_layer(n_cell, fto_x, fto_y, mode, rows_up):
    """n_cell[row, col] pixels -> matrices.  mode: 'cfs', 'dfs', 'edfs'.  rows_up: True when row 0
    is the lowest y."""
    n_cell = np.asarray(n_cell, dtype=complex)
    if not rows_up:
        n_cell = n_cell[::-1]
    eps = n_cell ** 2
    ny, nx = eps.shape
    if mode == 'cfs':
        return layer_grid(eps, np.arange(nx + 1) / nx, np.arange(ny + 1) / ny, fto_x, fto_y)
    if mode == 'edfs':
        min_y, min_x = (4 * fto_y + 1) * ny, (4 * fto_x + 1) * nx
    else:
        min_y, min_x = 4 * fto_y + 1, 4 * fto_x + 1
    if ny < min_y:
        eps = np.repeat(eps, min_y // ny + 1, axis=0)
    if nx < min_x:
        eps = np.repeat(eps, min_x // nx + 1, axis=1)
    return layer_sampled(eps, fto_x, fto_y)


# ------------------------------------------------------------------ solver
def _down(q2):
    """square root describing a wave that travels or decays towards +z under exp(-i q z)."""
    q = np.sqrt(np.asarray(q2, dtype=complex))
    tiny = 1e-9 * np.maximum(1, np.abs(q))
    flip = np.where(np.abs(q.imag) > tiny, q.imag > 0, q.real < 0)
    return np.where(flip, -q, q)


def kvectors(n_top, theta, phi, period, wl, fto):
    mx = np.arange(-fto[0], fto[0] + 1)
    my = np.arange(-fto[1], fto[1] + 1)
    s = n_top * np.sin(theta)
    kx = s * np.cos(phi) + mx * wl / period[0]
    ky = s * np.sin(phi) + my * wl / period[1]
    KX, KY = np.meshgrid(kx, ky)          # (ffy, ffx)
    return kx, ky, KX.ravel(), KY.ravel()


def rayleigh_gap(n_top, n_bot, theta, phi, period, wl, fto):
    """distance of the closest order to its cutoff, in |kz|."""
    _, _, KX, KY = kvectors(n_top, theta, phi, period, wl, fto)
    kt2 = KX ** 2 + KY ** 2
    return min(np.abs(_down(n_top ** 2 - kt2)).min(), np.abs(_down(n_bot ** 2 - kt2)).min())


class Solution:
    pass


def solve(n_top, n_bot, theta, phi, period, wl, fto, layers, psis=(np.pi / 2, 0.)):
    """layers: list of (epx, epy, epz, thickness).  Returns a Solution whose per-order arrays have
    shape (len(psis), ffy, ffx).  Incident field sin(psi) s + cos(psi) p with
    s = (-sin phi, cos phi, 0), p = (cos th cos phi, cos th sin phi, -sin th)."""
    k0 = 2 * np.pi / wl
    ffx, ffy = 2 * fto[0] + 1, 2 * fto[1] + 1
    N = ffx * ffy
    kx1, ky1, KX, KY = kvectors(n_top, theta, phi, period, wl, fto)
    kx, ky = np.diag(KX).astype(complex), np.diag(KY).astype(complex)
    I = np.eye(N)

    def ab(epx, epy, epz):
        zi = np.linalg.inv(epz)
        A = np.block([[kx @ zi @ ky, I - kx @ zi @ kx], [ky @ zi @ ky - I, -ky @ zi @ kx]])
        B = np.block([[-kx @ ky, kx @ kx - epy], [epx - ky @ ky, ky @ kx]])
        return A, B

    def halfspace(n):
        eps = n ** 2 * I
        _, B = ab(eps, eps, eps)
        q = _down(n ** 2 - KX ** 2 - KY ** 2)
        q2 = np.concatenate([q, q])
        return q, B / q2[None, :]                 # W = identity, V = B W q^-1

    q_top, V_top = halfspace(n_top)
    q_bot, V_bot = halfspace(n_bot)

    modes = []
    for epx, epy, epz, d in layers:
        A, B = ab(epx, epy, epz)
        q2, W = np.linalg.eig(A @ B)
        q = _down(q2)
        V = B @ W / q[None, :]
        modes.append((W, V, q, np.exp(-1j * q * k0 * d), d, np.linalg.inv(epz)))

    M = 2 * N
    L = len(layers)
    size = 2 * M * (L + 1)
    S = np.zeros((size, size), dtype=complex)
    rhs = np.zeros((size, len(psis)), dtype=complex)
    c0 = N // 2
    s_hat = np.array([-np.sin(phi), np.cos(phi)])
    p_hat = np.cos(theta) * np.array([np.cos(phi), np.sin(phi)])
    inc = np.zeros((M, len(psis)), dtype=complex)
    for j, psi in enumerate(psis):
        e = np.sin(psi) * s_hat + np.cos(psi) * p_hat
        inc[c0, j], inc[N + c0, j] = e[0], e[1]

    # unknowns: R (M) | c+_1 (M) c-_1 (M) | ... | T (M)
    def col(i):
        return slice(i * M, (i + 1) * M)

    up = [(col(0), np.eye(M), -V_top)]            # fields above interface 0: inc + R
    row = 0
    rhs_e, rhs_h = -inc, -V_top @ inc
    for l, (W, V, q, X, d, _) in enumerate(modes):
        cp, cm = col(1 + 2 * l), col(2 + 2 * l)
        S_e, S_h = slice(row, row + M), slice(row + M, row + 2 * M)
        for c, E, H in up:
            S[S_e, c] += E
            S[S_h, c] += H
        S[S_e, cp] -= W
        S[S_e, cm] -= W * X[None, :]
        S[S_h, cp] -= V
        S[S_h, cm] += V * X[None, :]
        if l == 0:
            rhs[S_e], rhs[S_h] = rhs_e, rhs_h
        up = [(cp, W * X[None, :], V * X[None, :]), (cm, W, -V)]
        row += 2 * M
    S_e, S_h = slice(row, row + M), slice(row + M, row + 2 * M)
    for c, E, H in up:
        S[S_e, c] += E
        S[S_h, c] += H
    ct = col(2 * L + 1)
    S[S_e, ct] -= np.eye(M)
    S[S_h, ct] -= V_bot
    if L == 0:
        rhs[S_e], rhs[S_h] = rhs_e, rhs_h
    sol = np.linalg.solve(S, rhs)

    R, T = sol[col(0)], sol[ct]
    out = Solution()
    out.kx, out.ky, out.KX, out.KY = kx1, ky1, KX, KY
    out.q_top, out.q_bot = q_top, q_bot
    out.min_q = min([np.abs(m[2]).min() for m in modes], default=1.)
    out.inc, out.R, out.T = inc, R, T
    out.modes, out.sol, out.col, out.N, out.k0 = modes, sol, col, N, k0
    out.period, out.wl = period, wl

    kt = np.hypot(KX, KY)
    safe = np.where(kt > 1e-12, kt, 1)
    cx = np.where(kt > 1e-12, KX / safe, np.cos(phi))
    cy = np.where(kt > 1e-12, KY / safe, np.sin(phi))

    def flux_parts(amp, V, sign):
        H = V @ amp
        ex, ey, hx, hy = amp[:N], amp[N:], sign * H[:N], sign * H[N:]
        cxx, cyy = cx[:, None], cy[:, None]
        es, ep = -cyy * ex + cxx * ey, cxx * ex + cyy * ey      # tangential s, p parts
        hs, hp = -cyy * hx + cxx * hy, cxx * hx + cyy * hy
        # S_z = Re(Ex Hy* - Ey Hx*) = Re(ep hs* - es hp*)
        return es, ep, hs, (-(es * hp.conj())).real, (ep * hs.conj()).real

    inc_flux = (n_top * np.cos(theta)).real
    def per_order(x):
        return np.moveaxis(x, -1, 0).reshape(-1, ffy, ffx)

    rs, rp_t, rh, fs, fp = flux_parts(R, V_top, -1)
    out.de_ri_s, out.de_ri_p = per_order(-fs / inc_flux), per_order(-fp / inc_flux)
    out.R_s, out.R_h = per_order(rs), per_order(rh)
    ts, tp_t, th, fs, fp = flux_parts(T, V_bot, 1)
    out.de_ti_s, out.de_ti_p = per_order(fs / inc_flux), per_order(fp / inc_flux)
    out.T_s, out.T_h = per_order(ts), per_order(th)
    out.de_ri = out.de_ri_s + out.de_ri_p
    out.de_ti = out.de_ti_s + out.de_ti_p
    out.inc_flux = inc_flux
    return out


def harmonics(sol, layer, z, j=0):
    """all six field components' harmonics at depth z inside the layer, for incidence j."""
    W, V, q, X, d, zi = sol.modes[layer]
    cp, cm = sol.sol[sol.col(1 + 2 * layer)][:, j], sol.sol[sol.col(2 + 2 * layer)][:, j]
    a = np.exp(-1j * q * sol.k0 * z) * cp
    b = np.exp(-1j * q * sol.k0 * (d - z)) * cm
    E, H = W @ (a + b), V @ (a - b)
    N = sol.N
    ex, ey, hx, hy = E[:N], E[N:], H[:N], H[N:]
    # curl H = i eps E  ->  -i(Kx Hy - Ky Hx) = i eps_z Ez ; curl E = -i H -> Kx Ey - Ky Ex = Hz
    ez = -zi @ (sol.KX * hy - sol.KY * hx)
    hz = sol.KX * ey - sol.KY * ex
    return np.array([ex, ey, ez, hx, hy, hz])


def field(sol, xs, ys, zs_per_layer, j=0):
    """field[z over layers, y, x, 6]."""
    ph = np.exp(-1j * sol.k0 * (np.multiply.outer(xs, sol.KX)[None, :, :]
                                + np.multiply.outer(ys, sol.KY)[:, None, :]))
    out = []
    for l, zs in enumerate(zs_per_layer):
        for z in zs:
            h = harmonics(sol, l, z, j)
            out.append(np.einsum('yxn,cn->yxc', ph, h))
    return np.array(out)
