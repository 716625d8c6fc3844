"""C04: poly_roots on TLC-generated batches and on polynomials of every degree."""
import numpy as np
from vdrive import Ctx, cx, cxs, num, jaxsetup
import lensref as R

c = Ctx()
jax = jaxsetup()
import jax.numpy as jnp
from microjax.poly_solver import poly_roots


def make(kind, n, rng):
    """A degree-n polynomial of the given kind: (coefficients, scale of the roots, roots well separated)."""
    simple = True
    if kind == "easy":
        r = rng.normal(size=n) + 1j * rng.normal(size=n)
    elif kind == "real":
        r = list(rng.normal(size=n % 2))
        for _ in range(n // 2):
            if rng.random() < 0.5:
                z = complex(rng.normal(), rng.normal())
                r += [z, np.conj(z)]
            else:
                r += list(rng.normal(size=2))
        r = np.array(r, dtype=complex)
    elif kind == "flat":  # real, with a conjugate pair hugging the real axis
        r = rng.normal(size=n) + 0j
        if n > 1:
            d = 10.0 ** rng.uniform(-6.5, -1.5)
            r[0] = complex(r[1].real, d)
            r[1] = np.conj(r[0])
            r *= 10.0 ** rng.integers(-2, 3)
    elif kind == "cluster":
        r = rng.normal(size=n) + 1j * rng.normal(size=n)
        if n > 1:
            r[1] = r[0] + 1e-3 * np.exp(1j * rng.uniform(0, 6.28))
    elif kind == "scaled":
        r = (rng.normal(size=n) + 1j * rng.normal(size=n)) * 10.0 ** rng.integers(-2, 3)
    elif kind == "linear":
        r = np.exp(2j * np.pi * np.arange(n) / n)  # x^n - 1
    elif kind == "lens":
        g = R.random_g(rng, 2)
        r = R.roots(g, complex(rng.normal(), rng.normal()))
        r = np.concatenate([r, rng.normal(size=max(0, n - 5)) * 1.5])[:n]
    d = np.abs(r[:, None] - r[None, :]) + np.eye(n) * 1e9
    Rr = float(np.max(np.abs(r)) + 1e-3)
    simple = bool(d.min() > 0.05 * Rr)
    p = np.poly(r) * (complex(rng.normal(), rng.normal()) if kind not in ("real", "flat") else 1.7)
    p = p.astype(complex)
    if kind in ("real", "flat"):
        p = p.real + 0j
    return p, Rr, (simple, float(d.min()) if n > 1 else Rr)


def rec(op, id, lane, p, r, Rr, simple, **kw):
    c.emit(op, id, lane=lane, p=cxs(p), r=cxs(r), R=num(Rr), simple=simple[0], sep=num(simple[1]), **kw)


# 1. batches enumerated by TLC (every mixture of up to three kinds)
for bi, batch in enumerate(c.scen):
    if not c.mine():
        continue
    rng = c.rng(1, bi)
    n = (5, 10)[bi % 2]
    id = "batch-%s-%d" % ("-".join(batch), n)

    def run():
        mk = [make(k, n, rng) for k in batch]
        P = np.array([m[0] for m in mk])
        r = np.asarray(poly_roots(jnp.asarray(P)))
        c.emit("shape", id + "/shape", want=[len(batch), n], got=list(r.shape))
        init = np.array([np.exp(2j * np.pi * (np.arange(n) + 0.3) / n) * m[1] for m in mk])
        r2 = np.asarray(poly_roots(jnp.asarray(P), custom_init=True, roots_init=jnp.asarray(init)))
        for k in range(len(batch)):
            p, Rr, simple = mk[k]
            lane = "%s/%d" % (id, k)
            rec("roots", lane, lane, p, r[k], Rr, simple)
            alone = np.asarray(poly_roots(jnp.asarray(p)))
            rec("again", lane + "/alone", lane, p, alone, Rr, simple, how="batch")
            rec("again", lane + "/init", lane, p, r2[k], Rr, simple, how="start")
    c.unit(id, run)

# 2. every degree and kind
for n in range(1, 11):
    for kind in ("easy", "real", "cluster", "scaled", "linear", "flat"):
        if not c.mine():
            continue
        for i in range((8 if kind == "flat" else 2) if c.quick else 24):
            rng = c.rng(2, n, hash(kind) % 97 if False else ("easy", "real", "cluster", "scaled", "linear", "flat").index(kind), i)
            id = "deg%d-%s-%d" % (n, kind, i)

            def run():
                p, Rr, simple = make(kind, n, rng)
                r = np.asarray(poly_roots(jnp.asarray(p)))
                rec("roots", id, id, p, r, Rr, simple)
            c.unit(id, run)
    if c.mine():
        rng = c.rng(3, n)

        def grid():
            mk = [make("easy", n, rng) for _ in range(6)]
            P = np.array([m[0] for m in mk]).reshape(2, 3, n + 1)
            r = np.asarray(poly_roots(jnp.asarray(P)))
            c.emit("shape", "grid-%d/shape" % n, want=[2, 3, n], got=list(r.shape))
            for k in range(6):
                rec("roots", "grid-%d/%d" % (n, k), "grid-%d/%d" % (n, k), mk[k][0], r[k // 3, k % 3], mk[k][1], mk[k][2])
            rr = rng.normal(size=n)
            pr = np.poly(rr)
            sep = min([abs(x - y) for i, x in enumerate(rr) for y in rr[:i]], default=1.0)
            r = np.asarray(poly_roots(jnp.asarray(pr)))  # real dtype input
            rec("roots", "realdtype-%d" % n, "realdtype-%d" % n, pr, r, 3.0, (False, sep))
        c.unit("grid-%d" % n, grid)
# 3. many polynomials with only real roots (a source on the lens axis gives such ones)
for n in (3, 4, 5):
    for half in range(2):
        if not c.mine():
            continue

        def realroots():
            rng = c.rng(4, n, half)
            rr = rng.normal(size=((200 if n == 3 else 40) * (1 if c.quick else 6), n))
            P = np.array([np.poly(x) for x in rr])
            r = np.asarray(poly_roots(jnp.asarray(P)))
            for k in range(len(P)):
                d = np.abs(rr[k][:, None] - rr[k][None, :]) + np.eye(n) * 1e9
                Rr = float(np.abs(rr[k]).max() + 1e-3)
                id = "realroots-%d-%d/%d" % (n, half, k)
                rec("roots", id, id, P[k], r[k], Rr, (bool(d.min() > 0.05 * Rr), float(d.min())))
        c.unit("realroots-%d-%d" % (n, half), realroots)
c.done()
