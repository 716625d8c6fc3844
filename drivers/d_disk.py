"""C07, C08: inverse-ray magnification of a disk against the area of its images."""
import numpy as np
import lensref as R
import diskev
import rayref as Y
from diskgen import pick_g, pick_source
from vdrive import Ctx, cx, num, nums, jaxsetup

c = Ctx()
jax = jaxsetup()
import jax.numpy as jnp
from functools import partial
from microjax.inverse_ray.extended_source import mag_limb_dark, mag_uniform

PROP = c.a.prop
LIMB = PROP == "C08"
FN = mag_limb_dark if LIMB else mag_uniform
NAME = "mag_limb_dark" if LIMB else "mag_uniform"

# one unit per compiled function
UNITS = []
NCONF = 12 if c.quick else 100
for n in (2, 3):
    for j in range(4):
        res = [dict(), dict(), dict(r_resolution=800, th_resolution=450), dict(bins_r=30, bins_th=90, Nlimb=400, margin_r=1.0, margin_th=1.0)][j]
        UNITS.append((n, j, res))
for n, j, kw in UNITS:
    if not c.mine():
        continue
    rng = c.rng(70 + LIMB, n, j)
    if LIMB:
        f = jax.jit(lambda w, rho, u1, p, n=n, kw=kw: FN(w, rho, nlenses=n, u1=u1, **kw, **p))
    else:
        f = jax.jit(lambda w, rho, u1, p, n=n, kw=kw: FN(w, rho, nlenses=n, **kw, **p))
    for k in range(NCONF):
        def run():
            g = pick_g(rng, n)
            w0, rho = pick_source(rng, g, k + 3 * j)
            u1 = float(rng.choice([0.0, 1.0, rng.uniform(0, 1)])) if LIMB else 0.0
            cfg = "%s-%d-%d-%d" % (NAME, n, j, k)
            p = diskev.configure(c, cfg, g, w0, rho, LIMB)
            if p is None:
                return
            ok = Y.resolved(p, g, w0, rho, kw.get("Nlimb", 500))
            m = float(f(w0, rho, u1, R.userparams(g)))
            c.emit("value", cfg, cfg=cfg, fn=NAME, u1=num(u1), mag=num(m), resolved=bool(ok), planned=num(Y.mag(p, rho, u1)))
        c.unit("%s-%d-%d-%d" % (NAME, n, j, k), run)

# C07: the arrangements of Regions.tla, drawn as outlines of blobs and handed to define_regions
try:
    from microjax.inverse_ray.merge_area import define_regions
except ImportError:  # an internal helper: its callers are judged above
    define_regions = None
RHO, NPAD = 0.1, 6000
REGOPT = [dict(bins_r=50, bins_th=120, margin_r=0.5, margin_th=0.5), dict(bins_r=50, bins_th=120, margin_r=1.0, margin_th=1.0)]
regions = {}


def blob(rng, a, b, lo, hi):
    """outline of a patch of the polar grid, densely sampled"""
    th = np.arange(a, b, np.deg2rad(0.8))
    th = np.append(th, b)
    r = np.linspace(lo, hi, 2 + int((hi - lo) / 0.002))
    return np.concatenate([lo * np.exp(1j * th), hi * np.exp(1j * th), r * np.exp(1j * a), r * np.exp(1j * b)])


def draw(sc, rng, mr):
    nt, occ = sc["nt"], {tuple(x) for x in sc["occ"]}
    lo = {b: 0.5 * b - 0.05 * rng.random() for b in (1, 2, 3)}
    hi = {b: 0.5 * b + 0.05 * rng.random() for b in (1, 2, 3)}
    if sc["polar"]:
        lo[1] = RHO * rng.uniform(0.2, 1.9)
    for b in sc["close"]:
        hi[b] = lo[b + 1] - 0.2 * mr * RHO
    wid = 2 * np.pi / nt
    off = np.deg2rad(float(rng.choice([0.0, 1e-7, 0.5, -0.5, 2.9, 3.0, rng.uniform(-20, 20)])))
    ring = {}
    for b in (1, 2, 3):
        ring[b] = ring[b - 1] if b - 1 in sc["close"] else b
    z, pts = [], []
    for b, s in sorted(occ):
        mates = {t for d, t in occ if ring[d] == ring[b]}
        a0 = s * wid + off + (0 if (s - 1) % nt in mates else np.deg2rad(rng.uniform(3, 15)))
        a1 = (s + 1) * wid + off - (0 if (s + 1) % nt in mates else np.deg2rad(rng.uniform(3, 15)))
        z.append(blob(rng, a0, a1, lo[b], hi[b]))
        for t in (a0, 0.5 * (a0 + a1), a1):
            for r in (lo[b], hi[b]):
                pts.append(dict(r=num(r), th=num(np.mod(t, 2 * np.pi)), b=b, s=s))
    return np.concatenate(z), pts


for j in range(16):
    if PROP != "C07" or define_regions is None or not c.mine():
        continue
    for k, sc in enumerate(c.scen):
        if k % 16 != j:
            continue
        n = 2 if sc["n"] <= 5 and k % 5 else 3
        if sc["n"] > (5 if n == 2 else 9):
            continue
        o = (k // 16) % 2

        def run():
            rng = c.rng(77, k)
            kw = REGOPT[o]
            if (n, o) not in regions:
                regions[n, o] = jax.jit(lambda z, m: define_regions(z, m, RHO, nlenses=n, **kw))
            z, pts = draw(sc, rng, kw["margin_r"])
            z = z[rng.permutation(len(z))]
            junk = rng.normal(size=NPAD - len(z)) + 1j * rng.normal(size=NPAD - len(z))
            m = np.concatenate([np.ones(len(z)), np.zeros(len(junk))]).astype(bool)
            r, t = regions[n, o](jnp.asarray(np.concatenate([z, junk]).reshape(5, -1)), jnp.asarray(m.reshape(5, -1)))
            c.emit("regions", "regions-%d" % k, nt=sc["nt"], occ=sc["occ"], close=sc["close"], polar=sc["polar"], pts=pts, rho=num(RHO), bins=kw["bins_th"],
                   mth=num(np.deg2rad(kw["margin_th"])), reg=[dict(r=nums(a), th=nums(b)) for a, b in zip(np.asarray(r), np.asarray(t)) if a[1] > a[0]])
        c.unit("regions-%d" % k, run)
c.done()
