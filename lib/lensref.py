"""Reference roots of the image polynomial, found without the code under test.

The specification does not trust them: it checks that they reproduce the
elimination polynomial (Images!Certified)."""
import numpy as np

CL = np.clongdouble


def lenses(g):
    """Positions and mass fractions in the user (centre-of-mass of lenses 1, 2) frame."""
    if g["n"] == 1:
        return np.array([0j]), np.array([1.0])
    s, q = g["s"], g["q"]
    xc = 0.5 * s * (1 - q) / (1 + q)
    if g["n"] == 2:
        return np.array([xc - s / 2, xc + s / 2], dtype=complex), np.array([1.0, q]) / (1 + q)
    M = 1 + q + g["q3"]
    return (np.array([xc - s / 2, xc + s / 2, xc + g["r3"] * np.exp(1j * g["psi"])], dtype=complex),
            np.array([1.0, q, g["q3"]]) / M)


def xcm(g):
    return 0.0 if g["n"] == 1 else 0.5 * g["s"] * (1 - g["q"]) / (1 + g["q"])


def _elim(zl, m, w, t):
    n = len(zl)
    d = [t - z for z in zl]

    def pe(seq, i):
        r = 1.0
        for k in range(n):
            if k != i:
                r = r * seq[k]
        return r
    P = pe(d, -1)
    Q = sum(m[j] * pe(d, j) for j in range(n))
    D = [np.conj(w - zl[i]) * P + Q for i in range(n)]
    return (t - w) * pe(D, -1) - sum(m[i] * P * pe(D, i) for i in range(n))


def roots(g, w):
    zl, m = lenses(g)
    zl, m, w = zl.astype(CL), m.astype(np.longdouble), CL(w)
    n = len(zl)
    deg = 2 if n == 1 else n * n + 1
    lead = np.prod(np.conj(w - zl))
    # coefficients by interpolation on a circle, only as a starting point
    R = 1.5
    th = 2 * np.pi * np.arange(deg + 1) / (deg + 1)
    t = (R * np.exp(1j * th)).astype(CL)
    v = np.array([_elim(zl, m, w, x) for x in t]).astype(complex)
    c = np.fft.fft(v) / (deg + 1) / R ** np.arange(deg + 1)  # ascending
    c[-1] = complex(lead)
    r = np.roots(c[::-1]).astype(CL)
    if len(r) != deg:
        return None
    for _ in range(60):
        dif = r[:, None] - r[None, :]
        np.fill_diagonal(dif, 1.0)
        step = _elim(zl, m, w, r) / (lead * np.prod(dif, axis=1))
        r = r - step
        if np.all(np.abs(step) < 1e-17 * (1 + np.abs(r))):
            break
    return r.astype(complex)


def lensmap(g, z):
    zl, m = lenses(g)
    z = np.asarray(z, dtype=complex)
    return z - sum(m[i] / np.conj(z - zl[i]) for i in range(len(zl)))


def detj(g, z):
    zl, m = lenses(g)
    z = np.asarray(z, dtype=complex)
    return 1 - np.abs(sum(m[i] / (z - zl[i]) ** 2 for i in range(len(zl)))) ** 2


def pointmag(g, w):
    r = roots(g, w)
    k = np.abs(lensmap(g, r) - w) < 1e-6
    return np.sum(1 / np.abs(detj(g, r[k]))), int(k.sum()), r


def encode(g):
    return {k: (v if k == "n" else repr(float(v))) for k, v in g.items()}


def midparams(g):
    """The mid-point-frame parameters the low-level solvers expect."""
    if g["n"] == 1:
        return {}
    if g["n"] == 2:
        return dict(a=0.5 * g["s"], e1=g["q"] / (1 + g["q"]))
    M = 1 + g["q"] + g["q3"]
    return dict(a=0.5 * g["s"], r3=g["r3"], psi=g["psi"], e1=g["q"] / M, e2=1 / M)


def userparams(g):
    return {k: v for k, v in g.items() if k != "n"}


def random_g(rng, n, regime=0):
    """Lens configurations; for triples the third lens keeps clear of the others."""
    if n == 1:
        return dict(n=1)
    s = float(np.exp(rng.uniform(np.log(0.3), np.log(3.0))))
    if n == 2:
        lq = rng.uniform(-3, 0) if regime == 0 else rng.uniform(-0.3, 3)
        return dict(n=2, s=s, q=float(10 ** lq))
    while True:
        q = float(10 ** rng.uniform(-1, 0.4))
        q3 = float(10 ** rng.uniform(-1, 0.4))
        r3 = float(rng.uniform(0.1, 2.0))
        psi = float(rng.uniform(-np.pi, np.pi))
        z3 = r3 * np.exp(1j * psi)
        if abs(z3 - s / 2) > 0.25 and abs(z3 + s / 2) > 0.25:
            return dict(n=3, s=s, q=q, q3=q3, r3=r3, psi=psi)


def caustic_points(g, nphi=64):
    """Points of the caustic and the unit normal there (numpy only)."""
    zl, m = lenses(g)
    out = []
    for phi in np.linspace(0, 2 * np.pi, nphi, endpoint=False):
        # sum m_j/(z-z_j)^2 = e^{i phi}
        num = np.zeros(1)
        P2 = np.poly1d([1.0 + 0j])
        for z in zl:
            P2 = P2 * np.poly1d([1, -2 * z, z * z])
        S = np.poly1d([0j])
        for i in range(len(zl)):
            t = np.poly1d([m[i] + 0j])
            for k in range(len(zl)):
                if k != i:
                    t = t * np.poly1d([1, -2 * zl[k], zl[k] ** 2])
            S = S + t
        for z in (P2 * complex(np.exp(1j * phi)) - S).roots:
            w = complex(lensmap(g, z))
            # the caustic's tangent is the image of any critical tangent: w' = v + conj(kappa') ...
            a = np.exp(1j * phi)  # shear at z; map dw = dz + conj(a) conj(dz): range is the direction e^{-i phi/2}
            out.append((w, complex(np.exp(-0.5j * phi)), complex(z)))
    return out
