"""begin/piece events of spec/TraceDisk.tla for one configuration."""
import numpy as np
import lensref as R
import rayref as Y
from vdrive import cx, num


def enc(g):
    return R.encode(g)


def configure(c, cfg, g, w0, rho, limb, **more):
    """Emit the walk around the image plane; returns the plan or None."""
    p = Y.plan(g, complex(w0), float(rho))
    if p is None:
        return None
    pieces = p["pieces"]
    c.emit("begin", cfg + "/begin", cfg=cfg, g=R.encode(g), w=cx(w0), rho=num(rho), limb=bool(limb), **more)
    for j, (a, b, roots) in enumerate(pieces):
        rays = []
        for r in roots:
            edge = (np.abs(r.imag) < 1e-8) & (r.real > 0)
            rays.append(dict(x=[num(v) for v in np.sort(r.real[edge])], o=[cx(v) for v in r[~edge]]))
        c.emit("piece", "%s/piece%d" % (cfg, j), cfg=cfg, a=num(a), b=num(b), rays=rays)
    return p
