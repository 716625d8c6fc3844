"""C11: histories enumerated from Stitch.tla, drawn as curves and given to the real segment and contour code."""
import numpy as np
from vdrive import Ctx, cx, cxs, num, jaxsetup
import lensref as R
import rayref as Y
import diskgen as G

c = Ctx()
jax = jaxsetup()
import jax.numpy as jnp
from microjax.caustics.extended_source.segments import _get_segments
from microjax.caustics.extended_source.contours import _contours_from_closed_segments, _contours_from_open_segments
from microjax.caustics.extended_source.limb import _images_of_source_limb

NPTS = 145
LIMIT = 3  # max_nr_of_contours


def stitched(nlenses):
    def f(z, m, p):
        sc, so, allc = _get_segments(z, m, p, nlenses=nlenses)
        c1, p1 = _contours_from_closed_segments(sc)
        c2, p2 = _contours_from_open_segments(so, max_nr_of_contours=LIMIT)
        return c1, p1, c2, p2, allc
    return jax.jit(f)


_fn = {}


def outlines(z, mask, par):
    """Contours of the real code as runs of (slot, from, to) samples, 1-based."""
    n = 2 if z.shape[0] == 5 else 3
    if n not in _fn:
        _fn[n] = stitched(n)
    c1, p1, c2, p2, allc = [np.asarray(a) for a in _fn[n](jnp.asarray(z), jnp.asarray(mask), jnp.asarray(par))]
    index = {complex(z[k, j]): (k + 1, j + 1) for k in range(z.shape[0]) for j in range(z.shape[1]) if mask[k, j]}
    out = []
    for cs, ps in ((c1, p1), (c2, p2) if not allc else ([], [])):
        for pts, p in zip(cs, ps):
            nz = np.nonzero(np.abs(pts) > 0)[0]
            if len(nz) == 0:
                continue
            pts = pts[nz[0]:nz[-1] + 1]
            closed = len(pts) > 2 and pts[0] == pts[-1]
            if closed:
                pts = pts[:-1]
            nodes, foreign = [], 0
            for x in pts:
                if complex(x) in index:
                    nodes.append(index[complex(x)])
                else:
                    foreign += 1
            runs = []
            for k, j in nodes:
                if runs and runs[-1][0] == k and abs(runs[-1][2] - j) == 1 and (runs[-1][3] in (0, j - runs[-1][2])):
                    runs[-1][3] = j - runs[-1][2]
                    runs[-1][2] = j
                else:
                    runs.append([k, j, j, 0])
            if len(runs) > 1 and runs[0][0] == runs[-1][0] and runs[0][3] == runs[-1][3] and runs[0][1] - runs[-1][2] == runs[0][3] != 0:
                runs[0][1] = runs[-1][1]
                runs.pop()
            out.append(dict(runs=[r[:3] for r in runs], parity=int(np.sign(p)), foreign=foreign, closed=bool(closed)))
    return out


def draw(h, rng):
    """Positions, masks and parities that realise the history; cut[i] = first sample after event i."""
    S, E = len(h["init"]), len(h["ev"])
    theta = np.linspace(0, 1, NPTS - 1, endpoint=False)
    theta = np.append(theta, 1 - 1e-9)
    times = (np.arange(E) + 0.5 + 0.5 * (rng.random(E) - 0.5)) / E
    cut = [int(np.searchsorted(theta, t)) for t in times]  # 0-based first sample after
    # branches as in StitchCore
    occ = [list(h["init"])]
    for e in h["ev"]:
        o = list(occ[-1])
        o[e["a"] - 1], o[e["b"] - 1] = (e["p"], -e["p"]) if e["kind"] == "birth" else (0, 0)
        occ.append(o)
    br, cur = [], {s: [s, 0, None] for s in range(S) if h["init"][s]}
    link = {}
    start = {s: cur[s] for s in cur}
    for i, e in enumerate(h["ev"]):
        a, b = e["a"] - 1, e["b"] - 1
        if e["kind"] == "birth":
            for s in (a, b):
                cur[s] = [s, i + 1, None]
            for s, t in ((a, b), (b, a)):
                link[id(cur[s]), 0] = (cur[t], 0)
        else:
            for s, t in ((a, b), (b, a)):
                link[id(cur[s]), 1] = (cur[t], 1)
            for s in (a, b):
                cur[s][2] = i
                br.append(cur.pop(s))
    for s in list(cur):
        cur[s][2] = E
        br.append(cur[s])
        t = start[h["wrap"][s] - 1]
        link[id(cur[s]), 1] = (t, 0)
        link[id(t), 0] = (cur[s], 1)
    T0 = lambda b: 0.0 if b[1] == 0 else times[b[1] - 1]
    T1 = lambda b: 1.0 if b[2] == E else times[b[2]]
    z = (50 + 10 * rng.random((S, NPTS))) * np.exp(2j * np.pi * rng.random((S, NPTS)))
    mask = np.zeros((S, NPTS), bool)
    par = np.sign(rng.normal(size=(S, NPTS)))
    seen = set()
    island = 0
    for b0 in br:
        if id(b0) in seen:
            continue
        cyc, b, d = [], b0, 1
        while True:
            cyc.append((b, d))
            seen.add(id(b))
            nb, end = link[id(b), 1 if d > 0 else 0]
            b, d = nb, (1 if end == 0 else -1)
            if b is b0:
                break
        # arcs: maximal stretches joined across the end of the turn
        wraps = [(cyc[k][0][2] == E and cyc[k][1] > 0) or (cyc[k][0][1] == 0 and cyc[k][1] < 0) for k in range(len(cyc))]
        folds = [k for k in range(len(cyc)) if not wraps[k]]
        ctr = island % 4 * 1.3 + 1j * (island // 4) * 1.3 + 0.3 * (rng.random() + 1j * rng.random()) + 0.2 - 0.7j
        island += 1
        rad, rot, ell, ecc = rng.uniform(0.08, 0.12), rng.random() * 6.28, np.exp(2j * np.pi * rng.random()), rng.uniform(0.6, 1)
        sgn = 1 if rng.random() < 0.5 else -1

        def put(b, idx, x):
            u = np.exp(1j * (rot + sgn * 2 * np.pi * x))
            z[b[0], idx] = ctr + rad * ell * (u.real + 1j * ecc * u.imag)
            mask[b[0], idx] = True
            par[b[0], idx] = occ[b[1]][b[0]]
        if not folds:
            n = len(cyc)
            for k, (b, d) in enumerate(cyc):
                put(b, np.arange(NPTS), (k + theta) / n if d > 0 else (k + 1 - theta) / n)
            continue
        k0 = (folds[-1] + 1) % len(cyc)
        cyc, wraps = cyc[k0:] + cyc[:k0], wraps[k0:] + wraps[:k0]
        arcs, part = [], []
        for (b, d), w in zip(cyc, wraps):
            part.append((b, d))
            if not w:
                arcs.append(part)
                part = []
        assert not part
        for i, arc in enumerate(arcs):
            total = sum(T1(b) - T0(b) for b, _ in arc)
            done = 0.0
            for b, d in arc:
                lo = 0 if b[1] == 0 else cut[b[1] - 1]
                hi = NPTS if b[2] == E else cut[b[2]]
                idx = np.arange(lo, hi)
                t = (theta[idx] - T0(b)) if d > 0 else (T1(b) - theta[idx])
                t = np.clip((done + t) / total, 0, 1)
                done += T1(b) - T0(b)
                put(b, idx, (i + np.arccos(1 - 2 * t) / np.pi) / len(arcs))
    ok = len(set(cut)) == E and all(b >= a + 3 for a, b in zip([0] + cut, cut + [NPTS]))
    # resolved: at every caustic the two ends are near and the outline does not turn sharply
    for e, j in zip(h["ev"], cut):
        a, b = e["a"] - 1, e["b"] - 1
        j0, j1 = (j, j + 1) if e["kind"] == "birth" else (j - 1, j - 2)
        if not ok or not (mask[[a, b], j0].all() and mask[[a, b], j1].all()):
            return z, mask, par, cut, False
        u, v = z[a, j0] - z[a, j1], z[b, j1] - z[b, j0]
        ok &= abs(z[a, j0] - z[b, j0]) < 0.08 and abs(np.angle(v / u)) < np.radians(50)
    return z, mask, par, [int(x) + 1 for x in cut], ok


def tracks(mask, par):
    out = []
    for k in range(mask.shape[0]):
        j = 0
        while j < mask.shape[1]:
            if not mask[k, j]:
                j += 1
                continue
            a = j
            while j + 1 < mask.shape[1] and mask[k, j + 1] and par[k, j + 1] == par[k, a]:
                j += 1
            out.append([k + 1, a + 1, j + 1, int(par[k, a])])
            j += 1
    return out


scen = list(c.scen)
keep = {5: 500, 10: 260} if c.quick else {5: 12000, 10: 3000}
for S in (5, 10):
    mineS = [s for s in scen if len(s["init"]) == S]
    order = c.rng(11, S).permutation(len(mineS))[:keep[S]]
    for blk in range(0, len(order), 20):
        if not c.mine():
            continue

        def run():
            for i in order[blk:blk + 20]:
                h = mineS[i]
                rng = c.rng(12, S, int(i))
                for _ in range(20):
                    z, mask, par, cut, ok = draw(h, rng)
                    if ok:
                        break
                else:
                    continue
                c.emit("stitch", "stitch-%d-%d" % (S, i), h=h, cut=cut, npts=NPTS, limit=LIMIT, outlines=outlines(z, mask, par))
        c.unit("stitch-%d-%d" % (S, blk), run)
# the images of real sources
NREAL = 6 if c.quick else 120
for n in (2, 3):
    for u in range(6):
        if not c.mine():
            continue
        rng = c.rng(13, n, u)
        f = jax.jit(lambda w, rho, p, n=n: _images_of_source_limb(w, rho, nlenses=n, npts=150, **p))
        for k in range(NREAL):
            def run():
                for _ in range(10):
                    g = G.pick_g(rng, n)
                    w0, rho = G.pick_source(rng, g, k + 5 * u)
                    if rho > 0.3:
                        rho = 0.3 * rng.uniform(0.3, 1)
                    dist = min(abs(z - w0) for z, _, _ in R.caustic_points(g, 720)) / rho
                    if (n == 2 or dist > 1.25) and Y.perimeter(g, w0, rho) < 0.045 * 150:
                        break
                else:
                    return
                xc = R.xcm(g)
                z, m, p = [np.asarray(a) for a in f(w0 - xc, rho, R.midparams(g))]
                id = "limb-%d-%d-%d" % (n, u, k)
                c.emit("limb", id, tracks=tracks(m, p.real), outlines=outlines(z, m, p.real), g=R.encode(g), w=cx(w0), rho=num(rho), dist=num(dist))
                c.emit("onlimb", id + "/points", g=R.encode(g), w=cx(w0), rho=num(rho), pts=[cxs(z[m[:, j], j] + xc) for j in range(z.shape[1])],
                       par=[[int(x) for x in p.real[m[:, j], j]] for j in range(z.shape[1])])
            c.unit("limb-%d-%d-%d" % (n, u, k), run)
c.done()
