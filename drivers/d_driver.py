"""C05/C06: mag_binary and mag_triple on every scenario of Driver.tla."""
import numpy as np
from vdrive import Ctx, cx, num, nums, jaxsetup
import lensref as R

c = Ctx()
jax = jaxsetup()
import jax.numpy as jnp
from microjax.inverse_ray.lightcurve import mag_binary, mag_triple
from microjax.inverse_ray.extended_source import mag_uniform, mag_limb_dark
from microjax.multipole import mag_hexadecapole
from microjax.point_source import _images_point_source

n = 2 if c.a.prop == "C05" else 3
drive = mag_binary if n == 2 else mag_triple
OPT = dict(r_resolution=24, th_resolution=30, Nlimb=60, bins_r=12, bins_th=24, margin_r=1.3, margin_th=0.7)
rng = c.rng(0)


def configs():
    out = []
    if n == 2:
        base = [dict(n=2, s=1.0 + 0.1 * rng.uniform(-1, 1), q=0.3), dict(n=2, s=1.3 + 0.1 * rng.uniform(-1, 1), q=0.005),
                dict(n=2, s=0.8, q=1.0)]
    else:
        base = [dict(n=3, s=1.1, q=0.4, q3=0.2, r3=0.9, psi=1.0 + 0.1 * rng.uniform(-1, 1)),
                dict(n=3, s=0.8, q=0.7, q3=0.5, r3=0.7, psi=-2.0)]
    for g in base:
        rho = float(rng.uniform(0.01, 0.03))
        cp = R.caustic_points(g, 40)
        need = []
        for i in rng.permutation(len(cp)):
            w, _, z = cp[i]
            if len(need) < 4:
                need.append((w + 0.3 * rho * np.exp(1j * rng.uniform(0, 6.28)), z))
        calm = [(complex((2.9 + 0.2 * k + 0.1 * rng.random()) * np.exp(1j * rng.uniform(0, 6.28)) + R.xcm(g)), 0j) for k in range(4)]
        if n == 3:
            calm = []
        out.append((g, rho, need, calm))
    return out


CFG = configs()
refs = {}


def reference(ci, u1):
    """multipole and full-solver values at the positions of configuration ci, from the public low-level solvers"""
    if (ci, u1) in refs:
        return
    refs[ci, u1] = True
    g, rho, need, calm = CFG[ci]
    w = np.array([p[0] for p in need + calm])
    mid, xc, up = R.midparams(g), R.xcm(g), R.userparams(g)
    z, m = _images_point_source(jnp.asarray(w - xc), nlenses=n, **mid)
    multi, _ = mag_hexadecapole(z, m, rho, u1=u1, nlenses=n, **mid)
    if u1 == 0.0:
        f = lambda x: mag_uniform(x, rho, nlenses=n, **OPT, **up)
    else:
        f = lambda x: mag_limb_dark(x, rho, nlenses=n, u1=u1, delta_c=0.02, **OPT, **up)
    full = jax.jit(jax.vmap(f))(jnp.asarray(w))
    for k, (x, zc) in enumerate(need + calm):
        c.emit("point", "point-%d-%s-%d" % (ci, u1, k), key="%d/%s/%s%d" % (ci, u1, "N" if k < len(need) else "C", k if k < len(need) else k - len(need)),
               g=R.encode(g), w=cx(x), z=cx(zc), rho=num(rho), need=k < len(need), multi=num(multi[k]), full=num(full[k]))


groups = {}
for sc in c.scen:
    if n == 3 and not all(sc["need"]):
        continue  # the triple driver sends every position to the full solver
    groups.setdefault((len(sc["need"]), sc["budget"], sc["chunk"]), []).append(sc)
for gi, key in enumerate(sorted(groups)):
    N, B, ch = key
    if c.quick and n == 3 and (N == 2 or B == 4):
        continue
    if not c.mine():
        continue
    id = "run-%d-%d-%d" % key

    def run():
        for u1 in ((0.0,) if (gi % 7) else (0.0, 0.6)):
            for si, sc in enumerate(groups[key]):
                for ci in range(len(CFG)) if n == 3 else [(si + gi) % len(CFG)]:
                    reference(ci, u1)
                    g, rho, need, calm = CFG[ci]
                    pos = [need[i] if x else calm[i] for i, x in enumerate(sc["need"])]
                    keys = ["%d/%s/%s%d" % (ci, u1, "N" if x else "C", i) for i, x in enumerate(sc["need"])]
                    out = drive(jnp.asarray([p[0] for p in pos]), rho, u1=u1, delta_c=0.02, MAX_FULL_CALLS=B, chunk_size=ch,
                                **OPT, **R.userparams(g))
                    c.emit("run", "%s/%s/%s/%d" % (id, u1, "".join("FT"[x] for x in sc["need"]), ci), need=sc["need"], budget=B,
                           keys=keys, out=nums(out))
    c.unit(id, run)
c.done()
