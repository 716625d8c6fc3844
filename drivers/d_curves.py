"""C03: critical and caustic curves."""
import numpy as np
from vdrive import Ctx, cx, cxs, num, jaxsetup
import lensref as R

c = Ctx()
jax = jaxsetup()
from microjax.point_source import critical_and_caustic_curves

if c.mine():
    def one():
        for npts in (20, 31):
            z, a = critical_and_caustic_curves(npts=npts, nlenses=1)
            c.emit("curve1", "one-%d" % npts, npts=npts, zcr=cxs(z), zca=cxs(a))
    c.unit("one", one)
ncfg = 7 if c.quick else 60
for n in (2, 3):
    for i in range(ncfg):
        if not c.mine():
            continue
        rng = c.rng(n, i)
        g = R.random_g(rng, n, regime=i % 2)
        if i == 0 and n == 2:
            g.update(q=1.0, s=1.0)
        npts = (60, 41)[i % 2]
        id = "curve-%d-%d" % (n, i)

        def run():
            zcr, zca = critical_and_caustic_curves(npts=npts, nlenses=n, **R.userparams(g))
            zcr, zca = np.asarray(zcr), np.asarray(zca)
            c.emit("curve", id, g=R.encode(g), npts=npts, zcr=[cxs(r) for r in zcr], zca=[cxs(r) for r in zca])
            if zcr.shape != (2 * n, npts) or not np.all(np.isfinite(zcr)):
                return
            zl, m = R.lenses(g)
            dense = np.array([p[0] for p in R.caustic_points(g, 1440)])
            for j in range(40):
                b, k = int(rng.integers(0, 2 * n)), int(rng.integers(0, npts))
                z, w = zcr[b, k], zca[b, k]
                S = np.sum(m / (z - zl) ** 2)
                nrm = 1j * np.exp(-0.5j * np.angle(S))
                dz = 1j * S / (-2 * np.sum(m / (z - zl) ** 3))
                d = abs(2 * (np.exp(0.5j * np.angle(S)) * dz).real) / 80
                # only one fold near: everything close lies along the tangent
                off = (dense - w) / (nrm / 1j)
                close = np.abs(off) < 14 * d
                if np.any(np.abs(off.imag[close]) > 0.2 * np.abs(off[close]) + 0.02 * d):
                    continue
                w1, w2 = w + d * nrm, w - d * nrm
                r1, r2 = R.roots(g, w1), R.roots(g, w2)
                if r1 is None or r2 is None:
                    continue
                c.emit("fold", "%s/fold%d" % (id, j), g=R.encode(g), b=b + 1, k=k + 1, z=cx(z), delta=num(d), w1=cx(w1), w2=cx(w2),
                       r1=cxs(r1), r2=cxs(r2))
        c.unit(id, run)
c.done()
