"""C12 (marginal likelihood) and C13 (straight-line fit)."""
import numpy as np
from vdrive import Ctx, num, nums, jaxsetup

c = Ctx()
jax = jaxsetup()
import jax.numpy as jnp
from microjax import likelihood as LK


def mat(A):
    return [nums(r) for r in np.asarray(A)]


def spd(rng, n, spread):
    Q, _ = np.linalg.qr(rng.normal(size=(n, n)))
    d = 10 ** rng.uniform(-spread, spread, n)
    A = (Q * d) @ Q.T
    return 0.5 * (A + A.T), d.max() / d.min()


def like():
    N = 60 if c.quick else 900
    for i in range(N):
        if not c.mine():
            continue
        rng = c.rng(12, i)
        n = int(rng.integers(1, 8))
        id = "nll-%d" % i

        def run():
            A = 10 ** rng.uniform(0, 2, n) if i % 3 else np.ones(n)
            M = np.stack([A, np.ones(n) if i % 4 else rng.normal(size=n)], axis=1)
            flux = M @ rng.normal(size=2) * 10 ** rng.uniform(-1, 2) + rng.normal(size=n)
            s2 = 10 ** rng.uniform(-3, 2, n)
            sfs, sfb = (float(x) for x in 10 ** rng.uniform(-2, 5, 2))
            v = float(LK.nll_ulens(jnp.array(flux), jnp.array(M), jnp.array(s2), sfs, sfb))
            # rounding of the code's own data term grows with the ratio of prior to noise
            Am = (M.T / s2) @ M + np.diag([1 / sfs, 1 / sfb])
            cond = float(Am[0, 0] * Am[1, 1] / np.linalg.det(Am))
            ptol = num(1e-11 * cond * (n + np.sum(flux ** 2 / s2) + np.sum(np.abs(np.log(s2)))))
            S = np.diag(s2) + (M * [sfs, sfb]) @ M.T
            base = dict(flux=nums(flux), M=mat(M), C=mat(np.diag(s2)), mu=["0", "0"], L=mat(np.diag([sfs, sfb])), cond=num(cond))
            c.emit("nll", id + "/diag", fn="nll_ulens", nll=num(v), **base)
            if i % 2 == 0:
                g = jax.grad(lambda f: LK.nll_ulens(f, jnp.array(M), jnp.array(s2), sfs, sfb))(jnp.array(flux))
                c.emit("grad", id + "/gdiag", fn="nll_ulens", grad=nums(g), **base)
            w = float(LK.nll_ulens_general(jnp.array(flux), jnp.array(M), jnp.diag(jnp.array(s2)), jnp.zeros(2), jnp.diag(jnp.array([sfs, sfb]))))
            c.emit("nll", id + "/diaggen", fn="nll_ulens_general", nll=num(w), **base)
            C, k1 = spd(rng, n, 1.0)
            L, k2 = spd(rng, 2, 1.0)
            mu = rng.normal(size=2) * 10 ** rng.uniform(-1, 1.5)
            w = float(LK.nll_ulens_general(jnp.array(flux), jnp.array(M), jnp.array(C), jnp.array(mu), jnp.array(L)))
            cond = k1 * k2 * (1 + float(np.sum(M ** 2)) * 1e-2) + float(np.sum((M @ mu) ** 2) / (1e-9 + np.sum(flux ** 2)))
            base = dict(flux=nums(flux), M=mat(M), C=mat(C), mu=nums(mu), L=mat(L), cond=num(cond))
            c.emit("nll", id + "/gen", fn="nll_ulens_general", nll=num(w), **base)
            if i % 2 == 1:
                g = jax.grad(lambda f: LK.nll_ulens_general(f, jnp.array(M), jnp.array(C), jnp.array(mu), jnp.array(L)))(jnp.array(flux))
                c.emit("grad", id + "/ggen", fn="nll_ulens_general", grad=nums(g), **base)
            # reordering the data changes nothing; rescaling flux units by u adds n log u
            p = rng.permutation(n)
            x = float(LK.nll_ulens_general(jnp.array(flux[p]), jnp.array(M[p]), jnp.array(C[np.ix_(p, p)]), jnp.array(mu), jnp.array(L)))
            c.emit("pair", id + "/perm", why="Reorder", x=num(x), y=num(w), diff="0", tol=num(1e-11 * cond * (n + np.sum(flux ** 2) * 10)))
            x = float(LK.nll_ulens(jnp.array(flux[p]), jnp.array(M[p]), jnp.array(s2[p]), sfs, sfb))
            c.emit("pair", id + "/perm2", why="Reorder", x=num(x), y=num(v), diff="0", tol=ptol)
            u = float(10 ** rng.uniform(-2, 2))
            x = float(LK.nll_ulens(jnp.array(flux * u), jnp.array(M), jnp.array(s2 * u * u), sfs * u * u, sfb * u * u))
            c.emit("pair", id + "/unit", why="FluxUnits", x=num(x), y=num(v), diff=num(n * np.log(u)), tol=ptol)
            x = float(jax.jit(LK.nll_ulens)(jnp.array(flux), jnp.array(M), jnp.array(s2), sfs, sfb))
            c.emit("pair", id + "/jit", why="Jit", x=num(x), y=num(v), diff="0", tol=ptol)
        c.unit(id, run)


def fit():
    N = 240 if c.quick else 4000
    for i in range(N):
        if not c.mine():
            continue
        rng = c.rng(13, i)
        n = int(rng.integers(2, 12))
        id = "fit-%d" % i

        def run():
            x = rng.normal(size=n) * 10 ** rng.uniform(-2, 2)
            while np.ptp(x) < 0.3 * np.std(x) + 1e-12:
                x = rng.normal(size=n)
            x = x + (0, rng.uniform(-3, 3), 30 * np.ptp(x))[i % 3]
            y = rng.normal() + rng.normal() * x + rng.normal(size=n) * 10 ** rng.uniform(-3, 1)
            mode = i % 5
            if mode == 0:
                args, err = (), np.zeros(n)
            elif mode == 1:
                s = float(10 ** rng.uniform(-2, 1))
                args, err = (s,), np.full(n, s)
            elif mode == 2:
                err = 10 ** rng.uniform(-1, 1, n)
                args = (jnp.array(err),)
            elif mode == 3:
                err = np.where(rng.random(n) < 0.4, 0.0, 10 ** rng.uniform(-1, 1, n))
                args = (jnp.array(err),)
            else:
                args, err = (0.0,), np.zeros(n)
            b, be, a, ae, chi2 = (float(v) for v in LK.linear_chi2(jnp.array(x), jnp.array(y), *args))
            c.emit("fit", id, x=nums(x), y=nums(y), err=nums(err), b=num(b), be=num(be), a=num(a), ae=num(ae), chi2=num(chi2), mode=mode)
            p = rng.permutation(n)
            r = [float(v) for v in LK.linear_chi2(jnp.array(x[p]), jnp.array(y[p]), jnp.array(err[p]))]
            w = np.where(err > 0, 1 / np.where(err > 0, err, 1) ** 2, 1.0)
            xm = np.sum(w * x) / np.sum(w)
            kap = 1 + np.sum(w * x * x) / np.sum(w * (x - xm) ** 2)
            rel = 1e-12 * kap ** 2
            tol = num(rel * kap * (1 + np.sum(w * y ** 2)) * (1 + be + ae))
            if i % 3 != 2:
                c.emit("pair", id + "/perm-b", why="Reorder", u=num(r[0]), v=num(b), abs=tol, rel=num(rel))
                c.emit("pair", id + "/perm-c", why="Reorder", u=num(r[4]), v=num(chi2), abs=tol, rel=num(rel))
            r = [float(v) for v in jax.jit(LK.linear_chi2)(jnp.array(x), jnp.array(y), jnp.array(err))]
            for k, (u, v) in enumerate(zip(r, (b, be, a, ae, chi2))):
                c.emit("pair", id + "/jit%d" % k, why="Jit", u=num(u), v=num(v), abs=tol, rel=num(rel))
        c.unit(id, run)


(like if c.a.prop == "C12" else fit)()
c.done()
