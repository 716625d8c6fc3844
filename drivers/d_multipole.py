"""C09: quadrupole and hexadecapole corrections of mag_hexadecapole, image by image."""
import numpy as np
from vdrive import Ctx, cx, cxs, num, nums, jaxsetup
import lensref as R

c = Ctx()
jax = jaxsetup()
import jax.numpy as jnp
from microjax.point_source import _images_point_source
from microjax.multipole import mag_hexadecapole

ncfg = 16 if c.quick else 150
for n in (1, 2, 3):
    for i in range(3 if n == 1 else ncfg):
        if not c.mine():
            continue
        rng = c.rng(9, n, i)
        g = R.random_g(rng, n, regime=i % 2)
        mid, xc = R.midparams(g), R.xcm(g)
        id = "multi-%d-%d" % (n, i)
        u1 = (0.0, 0.6, 1.0, 0.3)[i % 4]

        def run():
            ws = list(rng.normal(size=5) * 0.6 + 1j * rng.normal(size=5) * 0.6)
            ws += [complex(rng.uniform(-1.5, 1.5)), complex(0, rng.uniform(0.2, 1)), 3 * np.exp(2j * np.pi * rng.random())]
            zl, _ = R.lenses(g)
            ws += [complex(zl[-1] + 0.15 * np.exp(2j * np.pi * rng.random()))]
            if n > 1:
                cp = R.caustic_points(g, 30)
                pts = np.array([p[0] for p in cp])
                for f in (0.02, 0.05, 0.1):
                    ws.append(pts[rng.integers(len(pts))] + f * np.exp(2j * np.pi * rng.random()))
                for _ in range(2):  # inside, where there are most images
                    a, b = pts[rng.integers(len(pts), size=2)]
                    ws.append(a + (b - a) * 0.5)
            ws = np.array(ws)
            z, m = _images_point_source(jnp.asarray(ws - xc), nlenses=n, **mid)
            rhos = 10 ** rng.uniform(-2.5, -0.3, len(ws))
            f = jax.jit(jax.vmap(lambda zz, mm, r: mag_hexadecapole(zz, mm, r, u1=u1, nlenses=n, **mid), in_axes=(1, 1, 0)))
            mu, res = f(z, m, jnp.asarray(rhos))
            K = z.shape[0]
            parts = []
            for k in range(K):
                keep = np.zeros((K, 1), bool)
                keep[k] = True
                parts.append(f(z, m & jnp.asarray(keep), jnp.asarray(rhos)))
            for j, w in enumerate(ws):
                r = R.roots(g, w)
                if r is None:
                    continue
                c.emit("multi", "%s/%d" % (id, j), g=R.encode(g), w=cx(w), rho=num(rhos[j]), u1=num(u1),
                       z=cxs(np.asarray(z)[:, j] + xc), mask=[bool(x) for x in np.asarray(m)[:, j]], roots=cxs(r),
                       mu=num(mu[j]), res=num(res[j]), parts=[[num(p[0][j]), num(p[1][j])] for p in parts])
            # one radius for the whole batch, grids and single positions
            rho = float(rhos[0])
            b = mag_hexadecapole(z, m, rho, u1=u1, nlenses=n, **mid)
            one = [mag_hexadecapole(z[:, j], m[:, j], rho, u1=u1, nlenses=n, **mid) for j in range(3)]
            for a in (0, 1):
                c.emit("same", "%s/single%d" % (id, a), why="BatchIndependent", x=nums(np.asarray(b[a])[:3]), y=nums([o[a] for o in one]))
            z2, m2 = z[:, :8].reshape(K, 2, 4), m[:, :8].reshape(K, 2, 4)
            gr = mag_hexadecapole(z2, m2, rho, u1=u1, nlenses=n, **mid)
            for a in (0, 1):
                c.emit("same", "%s/grid%d" % (id, a), why="BatchIndependent", x=nums(np.asarray(b[a])[:8]), y=nums(gr[a]))
        c.unit(id, run)
c.done()
