"""C19: utilities shared by the solvers."""
import itertools
import numpy as np
from vdrive import Ctx, num, nums, cxs, jaxsetup

c = Ctx()
jax = jaxsetup()
import jax.numpy as jnp
from microjax import utils as U

for n in (1, 2, 3):
    S = [s for s in c.scen if len(s["a"]) == n]
    step = 700 if n < 3 else 1024
    for k in range(0, len(S), step):
        if not c.mine():
            continue

        def run():
            part = S[k:k + step]
            a = np.array([s["a"] for s in part], dtype=complex)
            b = np.array([s["b"] for s in part], dtype=complex)
            idx = np.asarray(jax.jit(jax.vmap(U.match_points))(jnp.array(a), jnp.array(b)))
            for i in range(len(part)):
                c.emit("match", "match-%d-%d" % (n, k + i), a=cxs(a[i]), b=cxs(b[i]), idx=[int(x) for x in idx[i]])
        c.unit("match-%d-%d" % (n, k), run)
N = 6 if c.quick else 60
for n in (1, 2, 4, 5, 6, 10, 14):
    if not c.mine():
        continue

    def rnd():
        rng = c.rng(19, n)
        f = jax.jit(U.match_points)
        for i in range(N * 4):
            b = rng.normal(size=n) + 1j * rng.normal(size=n)
            a = rng.normal(size=n) + 1j * rng.normal(size=n) if i % 2 else b[rng.permutation(n)] + 0.01 * rng.normal(size=n)
            if i % 5 == 4:
                a = np.conj(a[::-1])
                b = b - 0.5
            idx = (f if i % 3 else U.match_points)(jnp.array(a), jnp.array(b))
            c.emit("match", "rmatch-%d-%d" % (n, i), a=cxs(a), b=cxs(b), idx=[int(x) for x in np.asarray(idx)])
    c.unit("rmatch-%d" % n, rnd)
for n in range(1, 6 if c.quick else 7):
    if not c.mine():
        continue

    def vec():
        V = np.array(list(itertools.product([-1.5, 0.0, 2.0, -0.5, 0.25][:5 if n < 5 else 4 if n < 6 else 3], repeat=n)))
        J = jnp.array(V)
        F = {k: np.asarray(jax.jit(jax.vmap(getattr(U, f)))(J)) for k, f in
             dict(fnz="first_nonzero", lnz="last_nonzero", fz="first_zero", min="min_zero_avoiding", max="max_zero_avoiding",
                  mean="mean_zero_avoiding", order="sparse_argsort").items()}
        for i in range(len(V)):
            c.emit("vec", "vec-%d-%d" % (n, i), v=nums(V[i]), fnz=int(F["fnz"][i]), lnz=int(F["lnz"][i]), fz=int(F["fz"][i]),
                   min=num(F["min"][i]), max=num(F["max"][i]), mean=num(F["mean"][i]), order=[int(x) for x in F["order"][i]])
        rng = c.rng(20, n)
        m = n + 2
        f = jax.jit(U.trapz_zero_avoiding)
        for i in range(3 * m):
            tail = i % m
            x = np.cumsum(rng.uniform(0.1, 1, m)) if i % 2 else rng.normal(size=m)
            y = np.where(np.arange(m) <= tail, rng.normal(size=m), 0.0)
            if i % 3 == 0:  # padded: positions beyond the tail are zero as well
                x = np.where(np.arange(m) <= tail, x, 0.0)
            c.emit("trap", "trap-%d-%d" % (n, i), x=nums(x), y=nums(y), tail=tail, area=num(f(jnp.array(y), jnp.array(x), tail)))
    c.unit("vec-%d" % n, vec)
c.done()
