"""Source configurations for the finite-source drivers."""
import numpy as np
import lensref as R


def pick_g(rng, n):
    if n == 1:
        return dict(n=1)
    if n == 3:
        return R.random_g(rng, 3)
    return dict(n=2, s=float(np.exp(rng.uniform(np.log(.3), np.log(3)))), q=float(10 ** rng.uniform(-3, 1)))


def pick_source(rng, g, k):
    """rho and position: caustic crossings, near misses, cusps, far away, wrapping, symmetric."""
    rho = float(10 ** rng.uniform(-2, -0.7)) if k % 4 != 3 else float(10 ** rng.uniform(-0.7, 0.2))
    if k % 8 == 6 and k % 10 != 9:
        rho = float(10 ** rng.uniform(-2.6, -2))
    kind = k % 10
    if g["n"] == 1:  # across the lens, near it, beyond the multipole switch, far
        w0 = rho * (0.3, 0.8, 1.3, 1.9, 2.02, 2.2, 3.0, 5.0, 20.0, 0.05)[kind] * rng.uniform(0.95, 1.05) * np.exp(2j * np.pi * rng.random())
        return complex(w0), rho
    cp = R.caustic_points(g, 24)
    if kind < 4:
        w, _, _ = cp[rng.integers(len(cp))]
        f = (0.6, 1.3, 2.5, 6.0)[kind]
        w0 = w + rho * f * np.sqrt(rng.random()) * np.exp(2j * np.pi * rng.random())
    elif kind == 4:
        w0 = complex(rng.uniform(-1.5, 1.5), rng.uniform(-1.5, 1.5))
    elif kind == 5:
        w0 = complex(rng.uniform(-1.5, 1.5), 0.0)
    elif kind == 6:  # an image at or near the origin of the polar grid
        w0 = R.lensmap(g, np.array([0j]))[0] + rho * rng.uniform(0, 1.3) * np.exp(2j * np.pi * rng.random())
    elif kind == 7:  # images crossing the direction theta = 0
        z = complex(rng.uniform(0.05, 2), 0)
        w0 = R.lensmap(g, np.array([z]))[0] + rho * rng.uniform(0, 1.3) * np.exp(2j * np.pi * rng.random())
    elif kind == 9:  # the whole disk inside a caustic: the largest number of separate images
        pts = np.array([z for z, _, _ in R.caustic_points(g, 120)])
        best = None
        for _ in range(60):
            a, b = pts[rng.integers(len(pts), size=2)]
            w = a + (b - a) * rng.uniform(0.3, 0.7)
            nim, d = R.pointmag(g, w)[1], np.abs(pts - w).min()
            if nim > g["n"] + 1 and d > 0.008 and (best is None or (nim, d) > best[:2]):
                best = (nim, d, w)
        if best is None:
            w0 = complex(rng.uniform(-1, 1), rng.uniform(-1, 1))
        else:
            w0, rho = best[2], min(rho, best[1] * rng.uniform(0.2, 0.7))
    else:
        w0 = complex(rng.uniform(-4, 4), rng.uniform(-4, 4))
    if abs(w0) > 4:
        w0 *= 4 / abs(w0)
    return complex(w0), rho
