"""C15: FFT-based finite-source magnification."""
import numpy as np
from vdrive import Ctx, num, nums, jaxsetup

c = Ctx()
jax = jaxsetup()
import jax.numpy as jnp
from microjax.fastlens import mag_fft as MN, mag_fft_jax as MJ, fftlog as FN, fftlog_jax as FJ

CLS = [("np_disk", "disk", lambda a: MN.magnification_disk(), False), ("np_limb1", "limb1", lambda a: MN.magnification_limb(1), False),
       ("np_limb2", "limb2", lambda a: MN.magnification_limb(2), False), ("disk", "disk", lambda a: MJ.magnification_disk(), False),
       ("limb1", "limb1", lambda a: MJ.magnification_limb1(), False), ("limb2", "limb2", lambda a: MJ.magnification_limb2(), False),
       ("mag_disk", "disk", lambda a: MJ.mag_disk(), False), ("mag_limb", "linear", lambda a: MJ.mag_limb(), True),
       ("mag_limb1", "linear", lambda a: MJ.mag_limb1(a1=a), False)]
NR = 5 if c.quick else 40
for cls, prof, mk, dyn in CLS:
    if not c.mine():
        continue
    rng = c.rng(15, [x[0] for x in CLS].index(cls))
    a1 = float(rng.uniform(0, 1))

    def run():
        obj = mk(a1)
        lo = -4 if cls.startswith("np") or cls in ("disk", "limb1", "limb2", "mag_limb1") else -3.9
        for k in range(NR):
            rho = float(10 ** (rng.uniform(lo, -2), rng.uniform(-2, 0), rng.uniform(0, 1), -2.5)[k % 4])
            if k == NR - 1 and lo == -4:
                rho = float(10 ** rng.uniform(-5, -4))  # small-source approximation
            a = float(rng.uniform(0, 1)) if dyn else a1
            f = (lambda u: obj.A(u, rho, a)) if dyn else (lambda u: obj.A(u, rho))
            x = np.concatenate([[0.0, 1e-3], rng.uniform(0.01, 0.95, 2), rng.uniform(0.95, 1.1, 1), rng.uniform(1.1, 4, 1)])
            u = np.concatenate([x * rho, 10 ** rng.uniform(-2, 1.9, 2)])
            if cls.startswith("mag_") and rho < 1e-4:
                u = u[1:] if cls == "mag_limb1" else u
            id = "%s-%d" % (cls, k)
            A = np.asarray(f(u if cls.startswith("np") else jnp.array(u)))
            keep = np.ones(len(u), bool)
            if rho < 1e-4:  # the approximation has no separate value at the centre
                keep[0] = False
            c.emit("mag", id, cls=cls, profile=prof, a1=num(a), rho=num(rho), u=nums(u[keep]), mag=nums(A[keep]))
            B = np.asarray(f(-(u if cls.startswith("np") else jnp.array(u))))
            c.emit("same", id + "/even", why="EvenInU", x=nums(B), y=nums(A), rel="1e-12")
            if not cls.startswith("np"):
                g = jax.jit(lambda uu: obj.A(uu, rho, a) if dyn else obj.A(uu, rho))
                c.emit("same", id + "/jit", why="Jit", x=nums(g(jnp.array(u))), y=nums(A), rel="1e-6")
                if k == 0:
                    one = np.concatenate([np.asarray(f(jnp.array([v]))) for v in u])
                    c.emit("same", id + "/one", why="Elementwise", x=nums(one), y=nums(A), rel="1e-6")
    c.unit(cls, run)
for k in range(3):
    if not c.mine():
        continue

    def agree():
        rng = c.rng(16, k)
        o, p = (("magnification_disk", "disk"), ("magnification_limb1", "limb1"), ("magnification_limb2", "limb2"))[k]
        n = MN.magnification_disk() if k == 0 else MN.magnification_limb(k)
        j = getattr(MJ, o)()
        for i in range(6 if c.quick else 60):
            rho = float(10 ** rng.uniform(-4, 1))
            u = np.concatenate([[0.0], 10 ** rng.uniform(-6, 1.9, 12), rho * rng.uniform(0, 2, 8)])
            c.emit("same", "np-jax-%s-%d" % (p, i), why="NumPyAndJaxAgree", x=nums(j.A(jnp.array(u), rho)), y=nums(n.A(u, rho)), rel="1e-5")
    c.unit("agree-%d" % k, agree)
if c.mine():
    def trans():
        rng = c.rng(17)
        for impl, mod, xp in (("numpy", FN, np), ("jax", FJ, jnp)):
            for N in (512, 513):
                x = np.logspace(-5, 4, N)
                f = xp.array
                for kind, fx, call in (("hankel_gauss", x ** 2 * np.exp(-x ** 2 / 2), lambda F: mod.hankel(f(x), f(F), 1.0, N_pad=200).hankel(0)),
                                       ("hankel_exp", x ** 2 * np.exp(-x), lambda F: mod.hankel(f(x), f(F), 1.0, N_pad=200).hankel(0)),
                                       ("hankel1_exp", x ** 2 * np.exp(-x), lambda F: mod.hankel(f(x), f(F), 1.0).hankel(1)),
                                       ("j0", x ** 2 * np.exp(-x), lambda F: mod.fftlog(f(x), f(F), 1.1, N_pad=100).fftlog(0)),
                                       ("dj0", x ** 3 * np.exp(-x), lambda F: mod.fftlog(f(x), f(F), 1.1).fftlog_dj(0)),
                                       ("ddj0", x ** 4 * np.exp(-x), lambda F: mod.fftlog(f(x), f(F), 1.1).fftlog_ddj(0)),
                                       ("jsqr0", x ** 3 * np.exp(-x), lambda F: mod.fftlog(f(x), f(F), 1.1).fftlog_jsqr(0))):
                    y, F = (np.asarray(v) for v in call(fx))
                    sel = np.nonzero((y > 1e-2) & (y < 30))[0]
                    sel = rng.choice(sel, 24)
                    c.emit("trans", "trans-%s-%s-%d" % (impl, kind, N), kind=kind, impl=impl, y=nums(y[sel]), F=nums(F[sel]))
    c.unit("trans", trans)
c.done()
