"""Plane-wave optics of a stack of uniform films, one polarisation at a time (Abeles / Airy).

exp(+i w t), absorbing index n - ik.  Independent of both meent and vlib.ref."""
import numpy as np


def kz(n, kt):
    q = np.sqrt(complex(n) ** 2 - kt ** 2 + 0j)
    if q.imag > 1e-12 or (abs(q.imag) <= 1e-12 and q.real < 0):
        q = -q
    return q


def stack(n_top, n_bot, films, kt, wl):
    """films: [(n, d)].  Returns {'s': (r, t), 'p': (r_h, t_h)}: for s the tangential E amplitude, for p
    the tangential H amplitude, of reflected and transmitted wave per unit incident amplitude."""
    k0 = 2 * np.pi / wl
    ns = [complex(n_top)] + [complex(n) for n, _ in films] + [complex(n_bot)]
    ds = [d for _, d in films]
    out = {}
    for pol in 'sp':
        y = [kz(n, kt) if pol == 's' else kz(n, kt) / n ** 2 for n in ns]
        # recursion from the substrate upwards; r, t are seen from just above interface j
        j = len(ns) - 2
        r = (y[j] - y[j + 1]) / (y[j] + y[j + 1])
        t = 2 * y[j] / (y[j] + y[j + 1])
        for j in range(len(ns) - 3, -1, -1):
            ph = np.exp(-1j * k0 * kz(ns[j + 1], kt) * ds[j])
            rf = (y[j] - y[j + 1]) / (y[j] + y[j + 1])
            tf = 2 * y[j] / (y[j] + y[j + 1])
            den = 1 + rf * r * ph ** 2
            r, t = (rf + r * ph ** 2) / den, tf * t * ph / den
        out[pol] = (r, t)
    return out


def power(n_top, n_bot, films, kt, wl):
    """{'s': (R, T), 'p': (R, T)}"""
    q0, q1 = kz(n_top, kt), kz(n_bot, kt)
    amp = stack(n_top, n_bot, films, kt, wl)
    rs, ts = amp['s']
    rp, tp = amp['p']
    e0, e1 = complex(n_top) ** 2, complex(n_bot) ** 2
    return {'s': (abs(rs) ** 2, abs(ts) ** 2 * q1.real / q0.real),
            'p': (abs(rp) ** 2, abs(tp) ** 2 * (q1 / e1).real / (q0 / e0).real)}
