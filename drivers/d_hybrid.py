"""C20: light curves that choose between the multipole and the full solver, against the area of the images.

The positions are chosen where the choice matters: near caustics, but mostly with the disk
outside, where the multipole value is wrong by more than the accuracy promised, and where it is just right."""
import numpy as np
import lensref as R
import diskev
import rayref as Y
from diskgen import pick_g
from vdrive import Ctx, cx, num, nums, jaxsetup

c = Ctx()
jax = jaxsetup()
import jax.numpy as jnp
from microjax.inverse_ray.lightcurve import mag_binary, mag_triple
from microjax.caustics.lightcurve import magnifications
from microjax.point_source import mag_point_source

K = np.arange(160) + 0.5
DISK = np.sqrt(K / 160) * np.exp(2j * np.pi * K * 0.6180339887498949)  # points filling the unit disk
NPOS = 6


def pick_lens(rng, k):
    if k % 3 == 0:  # planetary
        return dict(n=2, s=float(rng.choice([rng.uniform(0.5, 0.95), rng.uniform(1.05, 2.2), np.exp(rng.uniform(np.log(.4), np.log(3)))])), q=float(10 ** rng.uniform(-5, -2)))
    return pick_g(rng, 2)


def candidates(rng, g, rho, m=70):
    cp = [w for w, _, _ in R.caustic_points(g, 60)]
    out = [cp[rng.integers(len(cp))] + rho * rng.uniform(0.9, 5) ** rng.choice([1, 1.6]) * np.exp(2j * np.pi * rng.random()) for _ in range(m - 14)]
    x = R.xcm(g)
    if g["n"] == 2:  # around the planetary caustic and the axis through it
        wp = x + g["s"] / 2 - 1 / g["s"]
        size = 3 * np.sqrt(min(1, g["q"])) / g["s"] + rho
        out += [wp + size * rng.uniform(0, 1.6) * np.exp(2j * np.pi * rng.random()) for _ in range(14)]
    return np.array(out)


def choose(rng, g, rho, f_multi, f_point):
    w = candidates(rng, g, rho)
    ring = f_point((w[:, None] + rho * DISK[None, :]).ravel()).reshape(len(w), -1).mean(axis=1)
    mu = f_multi(w)
    err = np.abs(mu / ring - 1)
    cp = np.array([z for z, _, _ in R.caustic_points(g, 720)])
    dist = np.abs(w[:, None] - cp[None, :]).min(axis=1) / rho
    out = dist > 1.0
    pools = [np.nonzero(out & (err > 0.02))[0], np.nonzero(out & (err > 0.02))[0], np.nonzero(out & (err > 0.02) & (err < 0.2))[0],
             np.nonzero(out & (err < 5e-3))[0], np.nonzero(~out)[0], np.nonzero(out)[0]]
    got = []
    for j, p in enumerate(pools):
        p = [i for i in p if i not in got]
        if j == 3 and p:  # the hardest of the easy ones
            p = sorted(p, key=lambda i: dist[i])[:5]
        got.append(int(rng.choice(p)) if len(p) else int(rng.integers(len(w))))
    return w[got]


UNITS = [("mag_binary", 2, 0.0), ("mag_binary", 2, 0.0), ("mag_binary", 2, 0.6), ("mag_triple", 3, 0.0), ("magnifications", 2, 0.0), ("magnifications", 2, 0.7)]
NCONF = dict(mag_binary=5, mag_triple=2, magnifications=3) if c.quick else dict(mag_binary=40, mag_triple=15, magnifications=25)
for j, (fn, n, u1) in enumerate(UNITS):
    for h in range(2):
        if not c.mine():
            continue
        rng = c.rng(200, j, h)
        if fn == "magnifications":
            f = jax.jit(lambda w, rho, p: magnifications(w, rho, nlenses=2, npts_limb=300, limb_darkening=u1 > 0, u1=u1, **p))
            full = f
        else:
            drive = mag_binary if n == 2 else mag_triple
            full = jax.jit(lambda w, rho, p: drive(w, rho, r_resolution=500, th_resolution=500, u1=u1, MAX_FULL_CALLS=NPOS, chunk_size=3, **p))
        point = jax.jit(lambda w, p: mag_point_source(w, nlenses=n, **p))
        for k in range(NCONF[fn]):
            def run():
                g = pick_lens(rng, k + j + h) if n == 2 else pick_g(rng, 3)
                rho = float(10 ** rng.uniform(-2.5, -0.5))
                up = R.userparams(g)
                fp = lambda w: np.asarray(point(jnp.asarray(w), up))
                if n == 2:
                    # reference for the choice of positions only: centre and two rings to second and fourth order
                    def fm(w):
                        a = fp(w)
                        e = np.exp(1j * np.pi / 4 * np.arange(8))
                        r1 = fp((w[:, None] + rho * e).ravel()).reshape(len(w), -1).mean(axis=1)
                        r2 = fp((w[:, None] + rho / 2 * e).ravel()).reshape(len(w), -1).mean(axis=1)
                        a2 = (16 * (r2 - a) - (r1 - a)) / 3
                        return a + a2 / 2 + ((r1 - a) - a2) / 3
                    ws = choose(rng, g, rho, fm, fp)
                else:
                    ws = candidates(rng, g, rho)[rng.permutation(56)[:NPOS]]
                out = np.asarray(full(jnp.asarray(ws), rho, up))
                cheap = np.asarray(mag_binary(jnp.asarray(ws), rho, u1=u1, MAX_FULL_CALLS=0, **up)) if fn == "mag_binary" else np.full(len(ws), -1.0)
                for i, w0 in enumerate(ws):
                    cfg = "%s-%d-%d-%d-%d" % (fn, j, h, k, i)
                    p = diskev.configure(c, cfg, g, w0, rho, u1 > 0)
                    if p is None:
                        continue
                    multi = out[i] == cheap[i]
                    if fn == "magnifications":
                        ok = Y.perimeter(g, w0, rho) < 0.05 * 300
                    else:
                        ok = multi or Y.resolved(p, g, w0, rho, 500)
                    c.emit("value", cfg, cfg=cfg, fn="multipole" if multi else "hybrid", u1=num(u1), mag=num(out[i]), resolved=bool(ok), planned=num(Y.mag(p, rho, u1)), entry=fn)
            c.unit("%s-%d-%d-%d" % (fn, j, h, k), run)


# Positions the light-curve functions accept without the full solver, searched for the worst of them: a coarse
# full solver shows which positions are accepted (there the value is the multipole one), an average of
# point-source magnifications over the disk estimates the error, and the worst are judged properly.
NSWEEP = 10 if c.quick else 60
NCAND = 320
for h in range(8):
    if not c.mine():
        continue
    rng = c.rng(201, h)
    u1 = 0.6 if h in (1, 7) else 0.0
    contour = h >= 5
    if contour:
        coarse = jax.jit(lambda w, rho, p: magnifications(w, rho, nlenses=2, npts_limb=16, npts_ld=4, limb_darkening=u1 > 0, u1=u1, **p))
    else:
        coarse = jax.jit(lambda w, rho, p: mag_binary(w, rho, r_resolution=6, th_resolution=6, Nlimb=12, u1=u1, MAX_FULL_CALLS=NCAND, chunk_size=NCAND, **p))
    multi = jax.jit(lambda w, rho, p: mag_binary(w, rho, u1=u1, MAX_FULL_CALLS=0, **p))
    point = jax.jit(lambda w, p: mag_point_source(w, nlenses=2, **p))
    for k in range(NSWEEP):
        def run():
            g = pick_lens(rng, k + h)
            rho = float(10 ** rng.uniform(-2.7, -0.5))
            up = R.userparams(g)
            ws = candidates(rng, g, rho, NCAND)
            full = np.asarray(coarse(jnp.asarray(ws), rho, up))
            cheap = np.asarray(multi(jnp.asarray(ws), rho, up))
            ok = np.nonzero(np.abs(full / cheap - 1) < 1e-12)[0]
            pad = np.resize(ok, NCAND) if len(ok) else np.arange(NCAND)
            disk = DISK[:80] * np.sqrt(2)
            prof = 1 - u1 * (1 - np.sqrt(1 - np.abs(disk) ** 2))
            pts = (ws[pad][:, None] + rho * disk[None, :]).ravel()
            est = np.asarray(point(jnp.asarray(pts), up)).reshape(NCAND, -1) @ (prof / prof.sum())
            err = np.abs(cheap[pad] / est - 1)[:len(ok)]
            order = np.argsort(-err)
            # positions whose neighbourhood is wrong too are not sampling noise, so spread the choice
            pick = list(order[:2]) + [order[min(len(order) - 1, int(rng.integers(2, 8)))]] if len(ok) else []
            for i in dict.fromkeys(int(x) for x in pick):
                cfg = "sweep-%d-%d-%d" % (h, k, i)
                p = diskev.configure(c, cfg, g, ws[ok[i]], rho, u1 > 0)
                if p is None:
                    continue
                c.emit("value", cfg, cfg=cfg, fn="multipole", u1=num(u1), mag=num(cheap[ok[i]]), resolved=True, planned=num(Y.mag(p, rho, u1)), entry="magnifications" if contour else "mag_binary")
        c.unit("sweep-%d-%d" % (h, k), run)
c.done()
