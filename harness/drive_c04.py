"""C04: boundary conditions."""
import itertools

import numpy as np

import gen
import qspec
from env import core, swe

LEVEL = "exploration"
RULE = ("every event is one call of get_node_neighbours or get_cell_neighbours or one attempt to build boundary "
        "conditions, over all pairs of conditions, one to four ghost cells, scalar and vector-valued data")
ASSUMPTIONS = ["at least as many cells as ghost cells per side"]
CONDITIONS = ["outflow", "inflow", "wall"]


def columns(x):
    return [x] if x.ndim == 1 else list(x.T)


def drive(rec):
    r = gen.rng(rec.seed, "C04")
    pairs = [("periodic",)] + list(itertools.product(CONDITIONS, CONDITIONS)) + [(c,) for c in CONDITIONS]
    for rounds in range(rec.n(5, 40)):
        for conds in pairs:
            for ghosts in (1, 2, 3, 4):
                walls = "wall" in conds
                m = int(r.integers(2, 4)) if walls else int(r.choice([1, 1, 2, 3]))
                large = not rounds and ghosts == 2
                n = int(r.integers(520, 650)) if large else int(r.integers(ghosts, ghosts + 6))
                x = r.uniform(-1, 1, n) if m == 1 else r.uniform(-1, 1, (n, m))
                if r.uniform() < 0.2:
                    x = np.round(x)
                il = r.uniform(-1, 1, m) if m > 1 else float(r.uniform(-1, 1))
                ir = r.uniform(-1, 1, m) if m > 1 else float(r.uniform(-1, 1))
                time = float(r.choice([0.0, 1.0, 0.25, 3.0]))
                asked = []

                def left(t):
                    asked.append(t)
                    return il * (1 + t)

                def right(t):
                    asked.append(t)
                    return ir * (1 - 2 * t)

                label = "%s ghosts=%d n=%d m=%d" % (conds, ghosts, n, m)
                with rec.trace(label) as t:
                    build = swe.get_boundary_conditions if walls or r.uniform() < 0.4 else core.get_boundary_conditions
                    kw = {"radius": ghosts} if ghosts > 1 or r.uniform() < 0.5 else {}
                    bc = build(*conds, inflow_left=left, inflow_right=right, **kw)
                    cl, cr = (conds * 2)[:2]
                    for radius in range(2 if large else 1, ghosts + 1):
                        keep = x.copy()
                        kw = {"radius": radius} if radius > 1 or r.uniform() < 0.5 else {}
                        out = bc.get_node_neighbours(x, time=time, **kw)
                        t.ev("nodes", [cl, cr], [m, ghosts, radius], *columns(keep),
                             np.atleast_1d(il * (1 + time)), np.atleast_1d(ir * (1 - 2 * time)),
                             *[c for o in out for c in columns(np.asarray(o))], note=label + " time=%g %s" % (time, keep.tolist()))
                        t.ev("kept", [], keep, x)
                        # second time step: other time, other data
                        y = x * 0.5 + 0.125
                        out = bc.get_node_neighbours(y, time=time + 0.5, **kw)
                        t.ev("nodes", [cl, cr], [m, ghosts, radius], *columns(y),
                             np.atleast_1d(il * (1.5 + time)), np.atleast_1d(ir * (-2 * time)),
                             *[c for o in out for c in columns(np.asarray(o))], note=label)
                        if large:
                            continue
                        # the same array with other values at the same time
                        for _ in range(2):
                            y *= -0.5
                            out = bc.get_node_neighbours(y, time=time + 0.5, **kw)
                            t.ev("nodes", [cl, cr], [m, ghosts, radius], *columns(y),
                                 np.atleast_1d(il * (1.5 + time)), np.atleast_1d(ir * (-2 * time)),
                                 *[c for o in out for c in columns(np.asarray(o))], note=label)
                        # times next to each other, small and large
                        late = float(r.choice([0.0, 1e-9, 1e-7, 1000.0, 1e5]))
                        for close in (late, late + float(r.choice([1e-9, 1e-8, 1e-7, 1e-5])), late):
                            out = bc.get_node_neighbours(y, time=close, **kw)
                            t.ev("nodes", [cl, cr], [m, ghosts, radius], *columns(y),
                                 np.atleast_1d(il * (1 + close)), np.atleast_1d(ir * (1 - 2 * close)),
                                 *[c for o in out for c in columns(np.asarray(o))], note=label + " time=%r" % close)
                    if "inflow" not in conds:
                        out = bc.get_node_neighbours(x)
                        t.ev("nodes", [cl, cr], [m, ghosts, 1], *columns(x), [0.0] * m, [0.0] * m,
                             *[c for o in out for c in columns(np.asarray(o))], note=label)
                    if m == 1:
                        nodes = n + 2 * ghosts - 1
                        L, R = r.uniform(-1, 1, nodes), r.uniform(-1, 1, nodes)
                        k1, k2 = L.copy(), R.copy()
                        p = "periodic" if conds == ("periodic",) else "open"
                        a, b = bc.get_cell_neighbours(L, R)
                        t.ev("cells", [p], [1, ghosts], k1, k2, a, b, note=label)
                        a, b = bc.get_cell_neighbours(L)
                        t.ev("cells", [p], [1, ghosts], k1, k1, a, b, note=label)
                        a[:] = 0
                        b[:] = 0
                        t.ev("kept", [], np.array([*k1, *k2]), np.array([*L, *R]))
    f = lambda t: 0.0
    names = ["periodic", "outflow", "inflow", "wall", "", "Periodic", "reflecting", "out"]
    with rec.trace("building") as t:
        for kind, build in (("plain", core.get_boundary_conditions), ("walls", swe.get_boundary_conditions)):
            for conds in [(a,) for a in names] + list(itertools.product(names, names)):
                for il, ir in itertools.product((None, f), (None, f)):
                    for radius in (1, 2):
                        per = 0
                        try:
                            bc = build(*conds, radius=radius, inflow_left=il, inflow_right=ir)
                            res, per = "accepted", int(bool(bc.periodic))
                        except ValueError:
                            res = "rejected"
                        c = (conds * 2)[:2]
                        t.ev("build", [c[0], c[1], kind, res], [int(il is not None), int(ir is not None), per, int(len(conds) == 1)],
                             note="%s %s" % (conds, res))


def models(rec):
    ok, states, text = qspec.model_run("model_boundary", "model_boundary.qnt", ["inv"], 6, rec.n(3000, 20000), rec.seed)
    return [dict(name="model_boundary: laws of ghost cells", ok=ok, states=states, transitions=states, text=text)]
