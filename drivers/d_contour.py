"""C10: contour-integration magnification of a disk against the area of its images."""
import numpy as np
import lensref as R
import diskev
import rayref as Y
from vdrive import Ctx, cx, num, nums, jaxsetup

c = Ctx()
jax = jaxsetup()
import jax.numpy as jnp
from microjax.caustics.extended_source import mag_extended_source
from microjax.caustics.lightcurve import magnifications
from diskgen import pick_g, pick_source

UNITS = [
    ("mag_extended_source", 2, False, dict()), ("mag_extended_source", 2, False, dict(npts_limb=400)),
    ("mag_extended_source", 2, True, dict()), ("mag_extended_source", 2, True, dict(npts_limb=300, npts_ld=150)),
    ("mag_extended_source", 3, False, dict()), ("mag_extended_source", 3, True, dict()),
    ("magnifications", 2, False, dict()), ("magnifications", 2, True, dict()),
    ("magnifications", 1, False, dict()), ("mag_extended_source", 1, False, dict()),
    ("magnifications", 1, True, dict()), ("mag_extended_source", 1, True, dict()),
]
NCONF = 10 if c.quick else 80
for j, (fn, n, ld, kw) in enumerate(UNITS):
    if not c.mine():
        continue
    rng = c.rng(100, j)
    if fn == "magnifications":
        f = jax.jit(lambda w, rho, u1, p, n=n, ld=ld, kw=kw: magnifications(jnp.array([w, w]), rho, nlenses=n, limb_darkening=ld, u1=u1, **kw, **p)[0])
    else:
        f = jax.jit(lambda w, rho, u1, p, n=n, ld=ld, kw=kw: mag_extended_source(w, rho, nlenses=n, limb_darkening=ld, u1=u1, **kw, **p))
    for k in range(NCONF):
        def run():
            g = pick_g(rng, n)
            w0, rho = pick_source(rng, g, k + 3 * j)
            if kw == {} and n == 2 and rho > 0.3:
                rho = 0.3 * rng.uniform(0.5, 1)
            u1 = float(rng.choice([0.0, 0.5, 1.0, rng.uniform(0, 1)])) if ld else 0.0
            cfg = "%s-%d-%d-%d" % (fn, n, j, k)
            dist = min(abs(z - w0) for z, _, _ in R.caustic_points(g, 720)) / rho if n > 1 else abs(w0) / rho
            if n == 3 and dist < 1.25:  # move the disk off the caustic
                return
            p = diskev.configure(c, cfg, g, w0, rho, ld)
            if p is None:
                return
            # the limb samples must not be further apart than a few hundredths on the images
            ok = n == 1 or Y.perimeter(g, w0, rho) < 0.055 * kw.get("npts_limb", 200 if fn == "magnifications" else 150)
            m = float(f(w0, rho, u1, R.userparams(g)))
            c.emit("value", cfg, cfg=cfg, fn="contour%s%s" % ("_fine" if kw else "", "_ld" if ld else ""), u1=num(u1), mag=num(m), resolved=bool(ok), planned=num(Y.mag(p, rho, u1)), dist=num(dist), entry=fn)
        c.unit("%s-%d-%d-%d" % (fn, n, j, k), run)

# Configurations that are known to fail (known_findings.json); the same in every run.
KNOWN = [
    ("known-contour-triple-caustic", dict(n=3, s=0.9281886248962422, q=0.6617597495320774, q3=0.008568509104728651, r3=0.46646495394841814, psi=-0.6482992763884452),
     -0.21652975699663268 - 0.05846331194959153j, 0.07154883221711335, False, 0.0, dict()),
    ("known-contour-triple-fine", dict(n=3, s=0.38549583780472824, q=2.0245319852926635, q3=0.34041455749835137, r3=0.5367992863091103, psi=0.3254674471027781),
     -1.8254226695029867 + 0.5545330933346329j, 0.0041, False, 0.0, dict(npts_limb=400)),
    ("known-contour-large-source", dict(n=2, s=1.2582897247845515, q=2.8145414550995973), 0.3706444050370884 + 0.2202054225521739j, 1.0052, False, 0.0, dict()),
    ("known-contour-ld", dict(n=2, s=0.6609515533838104, q=0.012150108698874859), 0.03987578987444894 + 0.003950959788314757j, 0.04534058204261991, True, 1.0, dict()),
]
for cfg, g, w0, rho, ld, u1, kw in KNOWN:
    if not c.mine():
        continue

    def run():
        p = diskev.configure(c, cfg, g, w0, rho, ld)
        m = float(mag_extended_source(w0, rho, nlenses=g["n"], limb_darkening=ld, u1=u1, **kw, **R.userparams(g)))
        c.emit("value", cfg, cfg=cfg, fn="contour%s%s" % ("_fine" if kw else "", "_ld" if ld else ""), u1=num(u1), mag=num(m), resolved=True, planned=num(Y.mag(p, rho, u1)))
    c.unit(cfg, run)
c.done()
