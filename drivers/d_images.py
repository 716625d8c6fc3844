"""C01 (images) and C02 (point-source magnification) on the real code."""
import numpy as np
from vdrive import Ctx, cx, cxs, num, nums, jaxsetup
import lensref as R

c = Ctx()
jax = jaxsetup()
import jax.numpy as jnp
from microjax.point_source import (_images_point_source, _images_point_source_sequential, lens_eq, lens_eq_det_jac,
                                   mag_point_source)


def sources(g, rng, k):
    """A mix of places where the solver is used: anywhere, on the axis, far away, next to lenses and caustics."""
    ws = list(rng.normal(size=k) * 0.7 + 1j * rng.normal(size=k) * 0.7)
    ws += [complex(rng.uniform(-1.5, 1.5)) for _ in range(4)]           # on the binary axis
    ws += [complex(rng.uniform(5, 40) * np.exp(1j * rng.uniform(0, 6.28))) for _ in range(2)]
    zl, _ = R.lenses(g)
    ws += [complex(z + 0.02 * np.exp(1j * rng.uniform(0, 6.28))) for z in zl]
    if g["n"] > 1:
        cp = R.caustic_points(g, 12)
        for j in rng.choice(len(cp), 4, replace=False):
            w, t, _ = cp[j]
            for d in (1e-2, -1e-2, 2e-3, -2e-3, 1e-4, -1e-4):
                ws.append(w + 1j * t * d)
    return np.array(ws)


def c01():
    ncfg = 6 if c.quick else 60
    for n in (1, 2, 3):
        for i in range(2 if n == 1 else ncfg):
            if not c.mine():
                continue
            rng = c.rng(1, n, i)
            g = R.random_g(rng, n, regime=i % 2)
            if n == 2 and i == 0:
                g["q"] = 1.0
            id = "images-%d-%d" % (n, i)
            mid, xc = R.midparams(g), R.xcm(g)

            def run():
                ws = sources(g, rng, 24)
                z, mask = _images_point_source(jnp.asarray(ws - xc), nlenses=n, **mid)
                z, mask = np.asarray(z) + xc, np.asarray(mask)
                for k, w in enumerate(ws):
                    r = R.roots(g, w)
                    if r is None:
                        continue
                    c.emit("images", "%s/%d" % (id, k), g=R.encode(g), w=cx(w), z=cxs(z[:, k]),
                           mask=[bool(x) for x in mask[:, k]], roots=cxs(r))
                # shapes: a single source gives the same images as inside a batch
                z1, m1 = _images_point_source(jnp.asarray(ws[0] - xc), nlenses=n, **mid)
                c.emit("images", id + "/scalar", g=R.encode(g), w=cx(ws[0]), z=cxs(np.asarray(z1) + xc),
                       mask=[bool(x) for x in np.asarray(m1).ravel()], roots=cxs(R.roots(g, ws[0])))
                z2, m2 = _images_point_source(jnp.asarray((ws - xc)[:8].reshape(2, 4)), nlenses=n, **mid)
                z2, m2 = np.asarray(z2), np.asarray(m2)
                for a in range(2):
                    for b in range(4):
                        w = ws[4 * a + b]
                        c.emit("images", "%s/grid%d%d" % (id, a, b), g=R.encode(g), w=cx(w), z=cxs(z2[:, a, b] + xc),
                               mask=[bool(x) for x in m2[:, a, b]], roots=cxs(R.roots(g, w)))
                # the lens map itself
                zt = rng.normal(size=8) + 1j * rng.normal(size=8)
                wt = np.asarray(lens_eq(jnp.asarray(zt - xc), nlenses=n, **mid)) + xc
                dt = np.asarray(lens_eq_det_jac(jnp.asarray(zt - xc), nlenses=n, **mid))
                for k in range(8):
                    c.emit("map", "%s/map%d" % (id, k), g=R.encode(g), z=cx(zt[k]), w=cx(wt[k]), det=num(dt[k]))
            c.unit(id, run)
    # trajectories: the sequential tracker seeds each step with the previous images
    for n in (2, 3):
        for i in range(3 if c.quick else 20):
            if not c.mine():
                continue
            rng = c.rng(2, n, i)
            g = R.random_g(rng, n, regime=i % 2)
            id = "track-%d-%d" % (n, i)
            mid, xc = R.midparams(g), R.xcm(g)

            def run():
                # through the caustic: aim at a caustic point
                w0 = R.caustic_points(g, 7)[int(rng.integers(0, 7))][0]
                d = np.exp(1j * rng.uniform(0, 6.28))
                ws = w0 + d * np.linspace(-0.8, 0.8, 50) + 1e-4j
                z, mask = _images_point_source_sequential(jnp.asarray(ws - xc), nlenses=n, **mid)
                z, mask = np.asarray(z) + xc, np.asarray(mask)
                for k, w in enumerate(ws):
                    c.emit("track", "%s/%d" % (id, k), path=id, g=R.encode(g), w=cx(w), z=cxs(z[:, k]),
                           mask=[bool(x) for x in mask[:, k]], roots=cxs(R.roots(g, w)))
            c.unit(id, run)


def c02():
    ncfg = 6 if c.quick else 60
    for n in (1, 2, 3):
        for i in range(2 if n == 1 else ncfg):
            if not c.mine():
                continue
            rng = c.rng(3, n, i)
            g = R.random_g(rng, n, regime=i % 2)
            if n == 2 and i == 0:
                g["q"] = 1.0
            id = "mag-%d-%d" % (n, i)

            def run():
                ws = sources(g, rng, 24)
                m = np.asarray(mag_point_source(jnp.asarray(ws), nlenses=n, **R.userparams(g)))
                for k, w in enumerate(ws):
                    r = R.roots(g, w)
                    c.emit("mag", "%s/%d" % (id, k), g=R.encode(g), w=cx(w), mag=num(m[k]), roots=cxs(r))
                # one source, and a grid of sources
                m1 = np.asarray(mag_point_source(jnp.asarray(ws[3]), nlenses=n, **R.userparams(g)))
                c.emit("mag", id + "/scalar", g=R.encode(g), w=cx(ws[3]), mag=num(m1.ravel()[0]), roots=cxs(R.roots(g, ws[3])))
                c.emit("shape", id + "/shape", want=[], got=list(m1.shape))
                # the same source however it is written or transformed
                f = lambda x: mag_point_source(x, nlenses=n, **R.userparams(g))
                for k in range(6):
                    x = float(ws[k].real)
                    r = cxs(R.roots(g, complex(x)))
                    for how, v in (("float", x), ("real", jnp.asarray([x])), ("complex", complex(x)), ("np", np.float64(x))):
                        c.emit("mag", "%s/%s%d" % (id, how, k), g=R.encode(g), w=cx(complex(x)), mag=num(np.asarray(f(v)).ravel()[0]), roots=r)
                for how, v in (("vmap", jax.vmap(f)(jnp.asarray(ws[:4]))), ("map", jax.lax.map(f, jnp.asarray(ws[:4])))):
                    for k in range(4):
                        c.emit("mag", "%s/%s%d" % (id, how, k), g=R.encode(g), w=cx(ws[k]), mag=num(np.asarray(v)[k]), roots=cxs(R.roots(g, ws[k])))
                m2 = np.asarray(mag_point_source(jnp.asarray(ws[:6].reshape(3, 2)), nlenses=n, **R.userparams(g)))
                c.emit("shape", id + "/shape2", want=[3, 2], got=list(m2.shape))
                if m2.shape == (3, 2):
                    for k in range(6):
                        c.emit("same", "%s/grid%d" % (id, k), x=num(m2[k // 2, k % 2]), y=num(m[k]), why="GridEqualsBatch")
                # symmetries of the physics, each as another run of the code
                mirror = dict(g)
                if n == 3:
                    mirror["psi"] = -g["psi"]
                mm = np.asarray(mag_point_source(jnp.asarray(np.conj(ws)), nlenses=n, **R.userparams(mirror)))
                for k in range(len(ws)):
                    c.emit("pair", "%s/mirror%d" % (id, k), kind="mirror", g=R.encode(g), h=R.encode(mirror), w=cx(ws[k]),
                           v=cx(np.conj(ws[k])), m=num(m[k]), n=num(mm[k]))
                if n == 2:
                    h = dict(g, q=1 / g["q"])
                    mm = np.asarray(mag_point_source(jnp.asarray(-ws), nlenses=2, **R.userparams(h)))
                    for k in range(len(ws)):
                        c.emit("pair", "%s/swap%d" % (id, k), kind="swap", g=R.encode(g), h=R.encode(h), w=cx(ws[k]), v=cx(-ws[k]),
                               m=num(m[k]), n=num(mm[k]))
                if n == 1:
                    ph = np.exp(1j * rng.uniform(0, 6.28))
                    mm = np.asarray(mag_point_source(jnp.asarray(ws * ph), nlenses=1))
                    for k in range(len(ws)):
                        c.emit("pair", "%s/turn%d" % (id, k), kind="turn", g=R.encode(g), h=R.encode(g), w=cx(ws[k]), v=cx(ws[k] * ph),
                               m=num(m[k]), n=num(mm[k]))
                if n == 3:
                    # a third lens without mass leaves the binary
                    h = dict(g, q3=0.0)
                    b = dict(n=2, s=g["s"], q=g["q"])
                    m3 = np.asarray(mag_point_source(jnp.asarray(ws), nlenses=3, **R.userparams(h)))
                    mb = np.asarray(mag_point_source(jnp.asarray(ws), nlenses=2, **R.userparams(b)))
                    for k in range(len(ws)):
                        c.emit("pair", "%s/massless%d" % (id, k), kind="massless", g=R.encode(h), h=R.encode(b), w=cx(ws[k]),
                               v=cx(ws[k]), m=num(m3[k]), n=num(mb[k]))
                    # lenses 1 and 2 exchanged: rotate by pi about the mid-point, rescale masses by 1/q
                    xc, h = R.xcm(g), dict(g, q=1 / g["q"], q3=g["q3"] / g["q"], psi=g["psi"] + np.pi)
                    ve = -(ws - xc) + R.xcm(h)
                    mm = np.asarray(mag_point_source(jnp.asarray(ve), nlenses=3, **R.userparams(h)))
                    for k in range(len(ws)):
                        c.emit("pair", "%s/swap%d" % (id, k), kind="swap3", g=R.encode(g), h=R.encode(h), w=cx(ws[k]), v=cx(ve[k]),
                               m=num(m[k]), n=num(mm[k]))
            c.unit(id, run)


{"C01": c01, "C02": c02}[c.a.prop]()
c.done()
