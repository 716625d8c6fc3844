"""Integration plans for the area of the images of a disk (spec/RayArea.tla).

Finds where the specification should cut the turn around the origin and supplies
the candidate edges of the images along each ray.  The specification certifies the
edges and does the integral itself; nothing of the code under test is used here."""
import numpy as np
import lensref as R

GLX, GLW = np.polynomial.legendre.leggauss(12)
GLX, GLW = (GLX + 1) / 2, GLW / 2
KX, KW = np.polynomial.legendre.leggauss(8)
KX, KW = (KX + 1) / 2, KW / 2


def _pmul(a, b):
    """Batched polynomial product, descending coefficients."""
    out = np.zeros(a.shape[:-1] + (a.shape[-1] + b.shape[-1] - 1,), dtype=complex)
    for i in range(a.shape[-1]):
        out[..., i:i + b.shape[-1]] += a[..., i:i + 1] * b
    return out


def raypoly(g, w0, rho, th):
    zl, m = R.lenses(g)
    e = np.exp(1j * np.asarray(th, dtype=float))
    n = len(zl)
    lin = [np.stack([np.conj(e), -np.conj(z) * np.ones_like(e)], -1) for z in zl]
    one = np.ones(e.shape + (1,), dtype=complex)
    P = one
    for f in lin:
        P = _pmul(P, f)
    N = _pmul(np.stack([e, -w0 * np.ones_like(e)], -1), P)
    for i in range(n):
        t = m[i] * one
        for k in range(n):
            if k != i:
                t = _pmul(t, lin[k])
        N[..., -t.shape[-1]:] -= t
    F = _pmul(N, np.conj(N))
    PP = _pmul(P, np.conj(P))
    F[..., -PP.shape[-1]:] -= rho ** 2 * PP
    return F.real


def edges(g, w0, rho, th):
    """All roots (complex) of the ray polynomial, one row per angle."""
    F = raypoly(g, w0, rho, th)
    d = F.shape[-1] - 1
    M = np.zeros(F.shape[:-1] + (d, d))
    M[..., 0, :] = -F[..., 1:] / F[..., :1]
    for i in range(1, d):
        M[..., i, i - 1] = 1.0
    r = np.linalg.eigvals(M)
    # two Newton steps in extended precision
    c = F.astype(np.longdouble)
    z = r.astype(np.clongdouble)
    for _ in range(3):
        v = np.zeros_like(z)
        dv = np.zeros_like(z)
        for k in range(d + 1):
            dv = dv * z + v
            v = v * z + c[..., k:k + 1]
        dif = z[..., :, None] - z[..., None, :]
        dif[..., np.arange(d), np.arange(d)] = 1
        den = c[..., :1] * np.prod(dif, axis=-1)
        step = np.where(np.abs(den) > 0, v / np.where(den == 0, 1, den), 0)
        step = np.where(np.abs(step) < 1e-4, step, 0)
        z = z - step
    return z.astype(complex)


def _real(r):
    return np.where((np.abs(r.imag) < 1e-8) & (r.real > 0), r.real, np.nan)


def _count(r):
    return np.sum(~np.isnan(_real(r)), axis=-1)


def rays(g, w0, rho, th, ld=True):
    """Half the enclosed r^2 (and the sqrt(1-u^2)-weighted one) along each ray."""
    r = edges(g, w0, rho, th)
    A = np.zeros(len(th))
    B = np.zeros(len(th))
    for k in range(len(th)):
        x = np.sort(_real(r[k]))
        x = np.concatenate([[0.0], x[~np.isnan(x)]])
        e = np.exp(1j * th[k])
        mid = 0.5 * (x[1:] + x[:-1])
        ins = np.abs(R.lensmap(g, mid * e) - w0) < rho
        for a, b, i in zip(x[:-1], x[1:], ins):
            if i:
                A[k] += 0.5 * (b * b - a * a)
                if ld:
                    t = a + (b - a) * np.sin(np.pi * KX / 2) ** 2
                    u2 = np.abs(R.lensmap(g, t * e) - w0) ** 2 / rho ** 2
                    B[k] += np.sum(KW * (b - a) * np.pi / 2 * np.sin(np.pi * KX) * t * np.sqrt(np.maximum(0, 1 - u2)))
    return A, B, r


def nodes(a, b):
    return a + (b - a) * np.sin(np.pi * GLX / 2) ** 2, GLW * (b - a) * np.pi / 2 * np.sin(np.pi * GLX)


def plan(g, w0, rho, tol=2e-5, nscan=12000, maxpieces=60):
    """Cut points of [0, 2 pi) such that the rule of the specification is accurate; None if it is not."""
    th = [np.linspace(0, 2 * np.pi, nscan, endpoint=False)]
    for w in [w0] + [w0 + rho * np.exp(2j * np.pi * k / 24) for k in range(24)]:
        rt = R.roots(g, w)
        if rt is None:
            continue
        z = rt[np.abs(R.lensmap(g, rt) - w) < 1e-5]
        th.append(np.angle(z) % (2 * np.pi))
    th = np.unique(np.concatenate(th))
    cnt = _count(edges(g, w0, rho, th))
    j = np.nonzero(cnt != np.roll(cnt, -1))[0]
    lo, hi = th[j].copy(), np.where(j == len(th) - 1, th[0] + 2 * np.pi, th[(j + 1) % len(th)])
    cl = cnt[j]
    for _ in range(46):
        if not len(lo):
            break
        mid = 0.5 * (lo + hi)
        same = _count(edges(g, w0, rho, mid)) == cl
        lo, hi = np.where(same, mid, lo), np.where(same, hi, mid)
    br = np.unique(np.concatenate([[0.0], (0.5 * (lo + hi)) % (2 * np.pi), [2 * np.pi]]))
    out = []

    def integ(a, b):
        t, w = nodes(a, b)
        A, B, r = rays(g, w0, rho, t)
        return float(np.sum(w * A)), float(np.sum(w * B)), r
    floor = np.pi * rho ** 2
    stack = [(a, b, 0) for a, b in zip(br[:-1], br[1:])][::-1]
    tot = 0.0
    totB = 0.0
    while stack:
        a, b, dep = stack.pop()
        A, B, r = integ(a, b)
        m = 0.5 * (a + b)
        if A == 0 and dep == 0 and _count(edges(g, w0, rho, np.array([m])))[0] == 0 and np.all(_count(r) == 0):
            out.append((a, b, r))
            continue
        A1, B1, _ = integ(a, m)
        A2, B2, _ = integ(m, b)
        if abs(A - A1 - A2) + abs(B - B1 - B2) > tol * max(floor, 0.3 * (abs(tot) + A)) and dep < 7:
            stack.append((m, b, dep + 1))
            stack.append((a, m, dep + 1))
            continue
        if abs(A - A1 - A2) > 30 * tol * max(floor, abs(tot) + A):
            return None
        out.append((a, b, r))
        tot += A
        totB += B
        if len(out) > maxpieces:
            return None
    return dict(pieces=out, area=tot, ld=totB, A=tot / floor)


def mag(p, rho, u1=0.0):
    return ((1 - u1) * p["area"] + u1 * p["ld"]) / (np.pi * rho ** 2 * (1 - u1 / 3))


def resolved(p, g, w0, rho, Nlimb, bins=120):
    """Whether sampling the source limb at Nlimb points can show the code where the images are.

    Two limits of a polar grid seeded by limb samples are excluded here: an image that
    starts at the origin and reaches far out (no rectangle in (r, theta) fits it), and a
    stretched image on which neighbouring limb samples leave a whole angular bin empty."""
    z = []
    for k in range(Nlimb):
        w = w0 + rho * np.exp(2j * np.pi * k / (Nlimb - 1))
        rt = R.roots(g, w)
        if rt is not None:
            z.append(rt[np.abs(R.lensmap(g, rt) - w) < 1e-5])
    z = np.concatenate(z)
    th = np.angle(z) % (2 * np.pi)
    b = np.floor(th * bins / (2 * np.pi)).astype(int) % bins
    rz = np.abs(z)
    for a, c, roots in p["pieces"]:
        t, _ = nodes(a, c)
        for tt, r in zip(t, roots):
            x = _real(r)
            x = np.sort(x[~np.isnan(x)])
            if not len(x):
                continue
            if len(x) % 2 == 0:
                if len(x) > 1 and x[0] < 2 * rho and x[1] > 50 * rho and np.abs(R.lensmap(g, np.array([0.5 * (x[0] + x[1]) * np.exp(1j * tt)]))[0] - w0) < rho:
                    return False
            k = int(tt * bins / (2 * np.pi)) % bins
            m = b == k
            for xx in x:
                if xx > rho * 0.1 and not np.any(m & (np.abs(rz - xx) < max(0.15 * xx, 0.5 * rho))):
                    return False
        # the whole span of the piece must be sampled as well
        if c - a > 2 * np.pi / bins and all(np.isfinite(_real(r)).any() for r in roots):
            for k in range(int(np.ceil(a * bins / (2 * np.pi))), int(np.floor(c * bins / (2 * np.pi)))):
                if not np.any(b == k % bins):
                    return False
    return True


def perimeter(g, w0, rho, npts=400):
    """Total length of the outlines of the images (clipped at folds)."""
    zl, m = R.lenses(g)
    tot = 0.0
    for k in range(npts):
        t = 2 * np.pi * (k + 0.5) / npts
        w = w0 + rho * np.exp(1j * t)
        rt = R.roots(g, w)
        if rt is None:
            continue
        z = rt[np.abs(R.lensmap(g, rt) - w) < 1e-7].astype(complex)
        kap = np.sum(m[:, None] / np.conj(z[None, :] - zl[:, None]) ** 2, axis=0)
        dw = 1j * rho * np.exp(1j * t) * 2 * np.pi / npts
        dz = (dw - kap * np.conj(dw)) / (1 - np.abs(kap) ** 2)
        tot += np.sum(np.minimum(np.abs(dz), 0.3))
    return float(tot)
