"""C16: special functions."""
import numpy as np
from vdrive import Ctx, num, nums, cx, jaxsetup

c = Ctx()
jax = jaxsetup()
import jax.numpy as jnp
from microjax.fastlens import special as S

k = 1 if c.quick else 12
if c.mine():
    def ell():
        rng = c.rng(1)
        m = np.concatenate([[0.0, 0.5, -1.0, 0.99, 0.999, -1000.0, 1e-6, -1e-6], rng.uniform(-1, 0.999, 30 * k),
                            -10 ** rng.uniform(-5, 3, 30 * k), 1 - 10 ** rng.uniform(-3, 0, 20 * k), -np.array([1e-3, 0.01, 0.1, 1, 2.0]) ** 2 / 4])
        K, E = jax.vmap(S.ellipk)(jnp.array(m)), jax.vmap(S.ellipe)(jnp.array(m))
        dK, dE = jax.vmap(jax.grad(S.ellipk))(jnp.array(m)), jax.vmap(jax.grad(S.ellipe))(jnp.array(m))
        for i in range(len(m)):
            c.emit("ell", "ell-%d" % i, m=num(m[i]), k=num(K[i]), e=num(E[i]), dk=num(dK[i]), de=num(dE[i]))
    c.unit("ell", ell)
if c.mine():
    def bes():
        rng = c.rng(2)
        x = np.concatenate([[0.0, 5.0, -5.0, 4.999999999, 5.000000001, 1e-5, 0.99e-5, 1.01e-5, 1e-8, 20.0, 2.404825557695773, 3.8317059702075125],
                            rng.uniform(-8, 8, 50 * k), rng.uniform(-60, 60, 40 * k), 10 ** rng.uniform(-6, 4, 40 * k)])
        for n, f, raw in ((0, S.j0, S.j0_), (1, S.j1, S.j1_)):
            y, d = f(jnp.array(x)), jax.vmap(jax.grad(raw))(jnp.array(x))
            for i in range(len(x)):
                c.emit("bessel", "j%d-%d" % (n, i), n=n, x=num(x[i]), y=num(y[i]), d=num(d[i]))
    c.unit("bessel", bes)
if c.mine():
    def bes2():
        rng = c.rng(3)
        x = np.concatenate([[5.0, 1.0, 20.0, 1e-3], rng.uniform(0.01, 8, 40 * k), 10 ** rng.uniform(-4, 4, 60 * k)])
        y, h = S.j2(jnp.array(x)), S.j1p5(jnp.array(x))
        for i in range(len(x)):
            c.emit("bessel", "j2-%d" % i, n=2, x=num(x[i]), y=num(y[i]), d="0")
            c.emit("half", "j15-%d" % i, x=num(x[i]), y=num(h[i]))
    c.unit("bessel2", bes2)
for part in range(3):
    if c.mine():
        def gam():
            rng = c.rng(4, part)
            z = np.concatenate([rng.uniform(-50, 50, 15 * k) + 1j * rng.uniform(-100, 100, 15 * k), rng.uniform(-5, 5, 15 * k) + 1j * rng.uniform(-5, 5, 15 * k),
                                rng.uniform(0, 2, 10 * k) + 1j * rng.uniform(-150, 150, 10 * k), [0.5 + 0j, 1 + 0j, 1e-3j, -0.5 + 0.1j, 1j]])
            y, d = jax.jvp(S.gamma, (jnp.array(z),), (jnp.ones(len(z)) + 0j,))
            for i in range(len(z)):
                c.emit("gamma", "gamma-%d-%d" % (part, i), z=cx(z[i]), y=cx(y[i]), d=cx(d[i]))
            x = np.concatenate([rng.uniform(0.01, 40, 10 * k), rng.uniform(-20, 0, 10 * k), [0.5, 1.0, 1.5, 2.0, 3.0]])
            x = x[(x > 0) | (np.abs(x - np.round(x)) > 1e-3)]
            y, d = jax.jvp(S.gamma, (jnp.array(x),), (jnp.ones(len(x)),))
            for i in range(len(x)):
                c.emit("gamma", "gammar-%d-%d" % (part, i), z=cx(x[i]), y=cx(y[i]), d=cx(d[i]))
            for p in (0.0, -1.0, -2.0, -7.0):
                c.emit("pole", "pole-%d-%g" % (part, p), y=cx(S.gamma(jnp.array([p]))[0]))
        c.unit("gamma-%d" % part, gam)
c.done()
