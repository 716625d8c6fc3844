"""C14: annual parallax."""
import numpy as np
from vdrive import Ctx, num, nums, jaxsetup

c = Ctx()
jax = jaxsetup()
import jax.numpy as jnp
import erfa
from microjax.trajectory import parallax as PX

NCFG = 42 if c.quick else 400
for i in range(NCFG):
    if not c.mine():
        continue
    rng = c.rng(14, i)
    id = "par-%d" % i

    def run():
        # Kepler's equation
        for k in range(6):
            ecc = float((rng.uniform(0, 0.05), rng.uniform(0, 0.5), 0.0167)[k % 3])
            phi = rng.uniform(-40, 40, 3) if k % 2 else rng.choice([0.0, np.pi, -np.pi, 2 * np.pi, 1e-9, 3.0], 3)
            for j, p in enumerate(np.asarray(PX.getpsi(jnp.array(phi), ecc))):
                c.emit("psi", id + "/psi%d-%d" % (k, j), phi=num(phi[j]), ecc=num(ecc), psi=num(p))
        # epochs
        tref = float((rng.uniform(1546, 8900), rng.uniform(1546, 8900), rng.uniform(8900, 11000), rng.uniform(900, 1546))[i % 4])
        a, b = PX.peri_vernal(tref)
        a2, b2 = PX.peri_vernal(tref + 2450000.0)
        c.emit("epoch", id + "/epoch", tref=num(tref), tperi=num(a), tvernal=num(b), tperi2=num(a2), tvernal2=num(b2))
        auto = i % 3 != 1
        ra, dec = float(rng.uniform(0, 360)), float(np.degrees(np.arcsin(rng.uniform(-0.99, 0.99))))
        kw = {} if i % 2 == 0 else dict(rotaxis_deg=float(rng.uniform(0, 40)), ecc=float(rng.uniform(0, 0.3)),
                                        period=float(rng.uniform(200, 500)), dt=float(rng.choice([0.1, 0.02, 0.3])))
        if auto:
            tp, tv = float(a), float(b)
            args = [(0.0, 0.0), (0.0, tv), (tp, 0.0)][i % 3 if i % 3 != 1 else 0]
        else:
            tp, tv = tref + float(rng.uniform(-400, 400)), tref + float(rng.uniform(-400, 400))
            args = (tp, tv)
        o = dict(tperi=num(tp), tvernal=num(tv), ra=num(ra), dec=num(dec), tilt=num(kw.get("rotaxis_deg", 23.44)),
                 ecc=num(kw.get("ecc", 0.0167)), period=num(kw.get("period", 365.25636)))
        dt = kw.get("dt", 0.1)
        P = PX.set_parallax(tref, args[0], args[1], ra, dec, **kw)
        q0, v0, R, north, east, tr, tpu, period, ecc = P
        c.emit("set", id + "/set", o=o, dt=num(dt), tref=num(tref), q0=nums(q0), v0=nums(v0), tperi=num(tpu))
        t = tref + np.concatenate([[0.0], rng.uniform(-60, 60, 3), rng.uniform(-800, 800, 4)])
        q = np.asarray(PX.project_earth_position(jnp.array(t), tpu, period, ecc, R, north, east))
        c.emit("pos", id + "/pos", o=o, t=nums(t), q=[nums(x) for x in q.T], north=nums(north), east=nums(east))
        if i % 2 == 0 and auto and tref > 1546:
            sun = [-erfa.epv00(2450000.0, x)[0]["p"] for x in t]
            c.emit("sky", id + "/sky", o=o, t=nums(t), q=[nums(x) for x in q.T], sun=[nums(s) for s in sun])
        piN, piE = (float(x) for x in rng.normal(size=2) * 0.5)
        dtn, dum = PX.compute_parallax(jnp.array(t), piN, piE, P)
        c.emit("off", id + "/off", o=o, dt=num(dt), tref=num(tref), t=nums(t), piN=num(piN), piE=num(piE), dtn=nums(dtn), dum=nums(dum))
        d0, u0 = PX.compute_parallax(jnp.array([tref]), piN, piE, P)
        c.emit("zero", id + "/zero", dtn=num(d0[0]), dum=num(u0[0]))
        # scalar time, jit: the same numbers
        ds, us = PX.compute_parallax(float(t[3]), piN, piE, P)
        c.emit("pair", id + "/scalar-t", why="ScalarTime", x=num(np.ravel(ds)[0]), y=num(dtn[3]))
        c.emit("pair", id + "/scalar-u", why="ScalarTime", x=num(np.ravel(us)[0]), y=num(dum[3]))

        @jax.jit
        def whole(tt, n, e):
            return PX.compute_parallax(tt, n, e, PX.set_parallax(tref, args[0], args[1], ra, dec, **kw))
        dj, uj = whole(jnp.array(t), piN, piE)
        for j in range(0, len(t), 3):
            c.emit("pair", id + "/jit-t%d" % j, why="Jit", x=num(dj[j]), y=num(dtn[j]))
            c.emit("pair", id + "/jit-u%d" % j, why="Jit", x=num(uj[j]), y=num(dum[j]))
    c.unit(id, run)
c.done()
