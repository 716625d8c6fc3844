"""C17: automatic derivatives of the magnification functions."""
import numpy as np
import lensref as R
import diskev
import rayref as Y
from diskgen import pick_g, pick_source
from vdrive import Ctx, cx, cxs, num, nums, jaxsetup

c = Ctx()
jax = jaxsetup()
import jax.numpy as jnp
from microjax.point_source import mag_point_source
from microjax.inverse_ray.extended_source import mag_limb_dark, mag_uniform
from microjax.inverse_ray.lightcurve import mag_binary, mag_triple
from microjax.caustics.extended_source import mag_extended_source
from microjax.fastlens import mag_fft_jax
from microjax.trajectory.parallax import set_parallax, compute_parallax

NAMES = {1: [], 2: ["s", "q"], 3: ["s", "q", "q3", "r3", "psi"]}


def both(F):
    """(value, jvp) and vjp along a displacement"""
    return jax.jit(lambda x, d: jax.jvp(F, (x,), (d,))), jax.jit(lambda x, d: jnp.vdot(jax.grad(F)(x), d))


def pack(g, w, rho, u1):
    return np.array([w.real, w.imag, rho, u1] + [g[k] for k in NAMES[g["n"]]])


def unpack(n, x):
    return dict(n=n, **{k: float(v) for k, v in zip(NAMES[n], x[4:])}), complex(x[0], x[1]), float(x[2]), float(x[3])


def encd(n, d):
    return dict(w=[num(d[0]), num(d[1])], rho=num(d[2]), u1=num(d[3]), **{k: num(v) for k, v in zip(NAMES[n], d[4:])})


def displacement(rng, n, x, rho):
    sc = [rho, rho, rho, 0.3]
    for k, v in zip(NAMES[n], x[4:]):
        sc.append(rho * min(1.0, v) ** 0.5 if k in ("q", "q3") else rho)
    d = rng.normal(size=len(x)) * np.array(sc)
    if rng.random() < 0.5:  # one parameter at a time
        d *= np.arange(len(x)) == rng.integers(len(x))
    return d


def disk_units():
    H = 2.5e-4
    lens = lambda n, x: {k: x[4 + i] for i, k in enumerate(NAMES[n])}
    iw = lambda x: x[0] + 1j * x[1]
    uni = lambda n: lambda x: mag_uniform(iw(x), x[2], nlenses=n, **lens(n, x))
    limb = lambda n: lambda x: mag_limb_dark(iw(x), x[2], u1=x[3], nlenses=n, **lens(n, x))
    cont = lambda n, ld: lambda x: mag_extended_source(iw(x), x[2], nlenses=n, npts_limb=400, limb_darkening=ld, u1=x[3] if ld else 0.0, **lens(n, x))
    hyb = lambda u1: lambda x: mag_binary(jnp.stack([iw(x), iw(x)]), x[2], u1=u1, r_resolution=500, th_resolution=500, MAX_FULL_CALLS=2, chunk_size=2, **lens(2, x))[0]
    rev = {"uniform": True}
    for j, (fn, n, F, m) in enumerate([("uniform", 2, uni(2), 10), ("uniform", 3, uni(3), 8), ("limb", 2, limb(2), 14), ("limb", 3, limb(3), 10),
                                       ("contour", 2, cont(2, False), 10), ("contour_ld", 2, cont(2, True), 8), ("hybrid", 2, hyb(0.0), 8),
                                       ("uniform", 2, uni(2), 10)]):
        if not c.mine():
            continue
        rng = c.rng(170, j)
        fwd, back = both(F)
        ld = fn in ("limb", "contour_ld")
        for k in range(m if c.quick else 10 * m):
            def run():
                for attempt in range(12):
                    g = pick_g(rng, n)
                    w0, rho = pick_source(rng, g, int(rng.integers(10)) if fn != "hybrid" else int(rng.integers(4)))
                    rho = min(rho, 0.3)
                    if ld and k == 0:  # on the lens axis: contour points share a coordinate with the centroid
                        w0 = complex(w0.real)
                    x = pack(g, w0, rho, float(rng.uniform(0.1, 0.9)) if ld else 0.0)
                    d = displacement(rng, n, x, rho)
                    if not ld:
                        d[3] = 0.0
                    M = lambda h: (lambda y: Y.mag(Y.plan(unpack(n, y)[0], unpack(n, y)[1], y[2]), y[2], y[3]))(x + h * d)
                    # two in three have a derivative that stands out; positions where the
                    # magnification is not smooth on the scale of the step are left out
                    want = 0 if k % 3 == 0 or attempt > 9 else 0.3 if attempt < 6 else 0.05
                    try:
                        v1, v3 = M(-H), M(H)
                        d1 = (v3 - v1) / 2 / H
                        if abs(d1) < want * v1 or abs(d[2]) * H > 0.3 * rho:
                            continue
                        d2 = (M(2 * H) - M(-2 * H)) / 4 / H
                    except Exception:  # no plan there
                        continue
                    if abs(d1 - d2) < 3e-4 * v1:
                        break
                else:
                    return
                p0 = Y.plan(g, w0, rho)
                ok = Y.resolved(p0, g, w0, rho, 500) if fn not in ("contour", "contour_ld") else Y.perimeter(g, w0, rho) < 0.03 * 400
                near = min(abs(z - w0) for z, _, _ in R.caustic_points(g, 1440)) / rho < 1.5
                name = fn + ("_edge" if near else "")
                id = "grad-%s-%d-%d" % (fn, j, k)
                mag, jvp = fwd(jnp.asarray(x), jnp.asarray(d))
                vjp = float(back(jnp.asarray(x), jnp.asarray(d))) if (fn, j) == ("uniform", 0) else float(jvp)
                for side, s in (("minus", -1), ("plus", 1)):
                    gg, ww, rr, _ = unpack(n, x + s * H * d)
                    if diskev.configure(c, id + ("-" if s < 0 else "+"), gg, ww, rr, ld, side=side) is None:
                        return
                c.emit("deriv", id, cfg=id, fn=name, ok=bool(ok), h=num(H), d=encd(n, d), u1=num(x[3]), mag=num(mag), jvp=num(jvp), vjp=num(vjp), seen=num(d1))
            c.unit("grad-%s-%d-%d" % (fn, j, k), run)


def point_units():
    for n in (1, 2, 3):
        for i in range(2):
            if not c.mine():
                continue
            rng = c.rng(171, n, i)
            F = lambda x: mag_point_source(x[0] + 1j * x[1], nlenses=n, **{k: x[4 + a] for a, k in enumerate(NAMES[n])})
            fwd, back = both(F)
            for k in range((12 if n == 1 else 40) if c.quick else 300):
                def run():
                    g = R.random_g(rng, n, regime=k % 2)
                    w = complex(*rng.normal(size=2) * (0.5, 2.0)[k % 3 == 0])
                    if k % 5 == 0:
                        w = complex(w.real)
                    if n > 1 and k % 5 == 1:
                        z, t, _ = R.caustic_points(g, 12)[int(rng.integers(12))]
                        w = z + 1j * t * float(10 ** rng.uniform(-3, -1)) * rng.choice([-1, 1])
                    x = pack(g, w, 0.0, 0.0)
                    d = rng.normal(size=len(x))
                    d[2:4] = 0
                    if k % 2:
                        d *= np.arange(len(x)) == rng.choice([0, 1] + list(range(4, len(x))))
                    r = R.roots(g, w)
                    if r is None:
                        return
                    _, jvp = fwd(jnp.asarray(x), jnp.asarray(d))
                    vjp = back(jnp.asarray(x), jnp.asarray(d))
                    c.emit("point", "point-%d-%d-%d" % (n, i, k), g=R.encode(g), w=cx(w), roots=cxs(r), d=encd(n, d), jvp=num(jvp), vjp=num(vjp))
                c.unit("point-%d-%d-%d" % (n, i, k), run)


def stencil(id, fn, fwd, back, f, x, d, h):
    v = [num(f(jnp.asarray(x + s * h * d))) for s in (-3, -2, -1, 1, 2, 3)]
    _, jvp = fwd(jnp.asarray(x), jnp.asarray(d))
    vjp = back(jnp.asarray(x), jnp.asarray(d))
    c.emit("smooth", id, fn=fn, h=num(h), v=v, jvp=num(jvp), vjp=num(vjp))


def smooth_units():
    lens = lambda n, x: {k: x[4 + i] for i, k in enumerate(NAMES[n])}
    for n, drive in ((2, mag_binary), (3, mag_triple)):
        if not c.mine():
            continue
        for u1 in (0.0, 0.6):
            rng = c.rng(172, n, int(10 * u1))
            F = lambda x: drive(jnp.stack([x[0] + 1j * x[1], 0.3 - x[1] + 1j * x[0]]), x[2], u1=u1, MAX_FULL_CALLS=0, **lens(n, x)).sum()
            fwd, back = both(F)
            f = jax.jit(F)
            for k in range(15 if c.quick else 150):
                def run():
                    g = R.random_g(rng, n)
                    w, rho = complex(*rng.normal(size=2)), float(10 ** rng.uniform(-3, -1))
                    x = pack(g, w, rho, 0.0)
                    d = rng.normal(size=len(x))
                    d[2] *= rho
                    if k % 2:
                        d *= np.arange(len(x)) == rng.choice([0, 1, 2] + list(range(4, len(x))))
                    stencil("multi-%d-%g-%d" % (n, u1, k), "multipole", fwd, back, f, x, d, 1e-4)
                c.unit("multi-%d-%g-%d" % (n, u1, k), run)
    kinds = [("disk", lambda: mag_fft_jax.mag_disk(), True), ("limb", lambda: mag_fft_jax.mag_limb(), True), ("magdisk", lambda: mag_fft_jax.magnification_disk(), False),
             ("maglimb1", lambda: mag_fft_jax.magnification_limb1(), False), ("maglimb2", lambda: mag_fft_jax.magnification_limb2(), False)]
    for i, (name, mk, a1) in enumerate(kinds):
        if not c.mine():
            continue
        rng = c.rng(173, i)

        def run():
            A = mk().A
            F = lambda x: A(jnp.stack([x[0], 2.0 * x[0]]), x[1], *([x[2]] if a1 else [])).sum()
            fwd, back = both(F)
            f = jax.jit(F)
            for k in range(12 if c.quick else 100):
                rho = float(10 ** rng.uniform(-2.5, -0.3))
                u = rho * float(rng.uniform(0.1, 6))
                d = rng.normal(size=3) * np.array([rho, rho, 0.3])
                stencil("fast-%s-%d" % (name, k), "fastlens", fwd, back, f, np.array([u, rho, 0.4]), d, 1e-5)
        c.unit("fast-" + name, run)
    if c.mine():
        rng = c.rng(174)

        def run():
            def F(x):
                par = set_parallax(x[3], 6662.1, 6737.3, x[4], x[5])
                dtn, dum = compute_parallax(jnp.stack([x[2], x[2] + 100.0]), x[0], x[1], par)
                return (0.3 * dtn + 0.7 * dum).sum()
            fwd, back = both(F)
            f = jax.jit(F)
            for k in range(12 if c.quick else 200):
                x = np.array([rng.normal(), rng.normal(), 6700.0 + rng.uniform(-400, 400), 6700.0 + rng.uniform(-300, 300), rng.uniform(0, 360), rng.uniform(-80, 80)])
                stencil("parallax-%d" % k, "parallax", fwd, back, f, x, rng.normal(size=6) * [1, 1, 10, 10, 10, 10], 1e-3)
        c.unit("parallax", run)


disk_units()
point_units()
smooth_units()
c.done()
