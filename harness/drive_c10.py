"""C10: meshes, coarsening, numberings, neighbourhoods."""
import numpy as np

import gen
import qspec
from env import core, finite_volume, finite_element

LEVEL = "model_checking"
RULE = ("every event is one mesh, one mesh operation, one coarsened vector, one numbering, neighbourhood, extremum or "
        "grid of the implementation; sizes, degrees and periodicity are enumerated, domains and data random")
ASSUMPTIONS = ["mesh sizes up to 40 (some up to 1200), polynomial degrees up to 7, coarsening degrees up to 12"]


def ends(mesh):
    cells = list(mesh)
    return [c.a for c in cells], [c.b for c in cells]


def mesh_event(t, mesh, a, b, n):
    lo, hi = ends(mesh)
    t.ev("mesh", [], [a, b, n], lo, hi, [mesh.step_length, *mesh.space_steps], note="[%r, %r] %d cells" % (a, b, n))
    t.ev("mesh", [], [mesh.domain.a, mesh.domain.b, len(mesh)], [mesh[i].a for i in range(len(mesh))],
         [mesh[i].b for i in range(len(mesh))], [mesh.step_length, *mesh.space_steps], note="by index")


def domain(r, k):
    a = float([0.0, -1.0, r.uniform(-5, 5), 0.1, 2.0][gen.mix(k, 5)])
    return a, a + float([1.0, r.uniform(0.1, 10), 3.0, 0.7, 100.0][gen.mix(k // 5, 5)])


def meshes(rec, r):
    for k in range(rec.n(60, 500)):
        with rec.trace("mesh %d" % k) as t:
            a, b = domain(r, k)
            n = int(r.integers(1, 13)) if k % 6 else int(r.integers(20, 41))
            mesh = core.UniformMesh(core.Interval(a, b), n)
            mesh_event(t, mesh, a, b, n)
            fine_degree = int(r.integers(1, 6))
            fine = mesh.refine(fine_degree) if k % 2 else mesh.refine()
            fine_degree = fine_degree if k % 2 else 2
            mesh_event(t, fine, a, b, n * fine_degree)
            mesh_event(t, mesh, a, b, n)
            for degree in range(1, n + 2):
                try:
                    coarse = mesh.coarsen(degree)
                    res = "accepted"
                    mesh_event(t, coarse, a, b, n // degree)
                except AssertionError:
                    res = "refused"
                t.ev("refused", [res, "mesh"], [n, degree], note="mesh of %d, degree %d" % (n, degree))
            back = fine.coarsen(fine_degree)
            mesh_event(t, back, a, b, n)
            t.ev("equal", [bool(back == mesh)], [a, b, n], [a, b, n])
            other = core.UniformMesh(core.Interval(a, b), n + 1)
            t.ev("equal", [bool(other == mesh)], [a, b, n + 1], [a, b, n])
            other = core.UniformMesh(core.Interval(a, b + 1), n)
            t.ev("equal", [bool(other == mesh)], [a, b + 1, n], [a, b, n])
            other = core.UniformMesh(core.Interval(a + 1, b + 1), n)
            t.ev("equal", [bool(other == mesh)], [a + 1, b + 1, n], [a, b, n])
            lo, hi = ends(mesh)
            points = [a, b, a - 0.1, b + 0.1, float(r.uniform(a, b)), lo[-1], hi[0], (lo[0] + hi[0]) / 2,
                      lo[int(r.integers(0, n))], b + 1e-12, a - 1e-12,
                      np.nextafter(b, b + 1) if abs(b) > 0.01 else b, np.nextafter(a, a - 1) if abs(a) > 0.01 else a]
            for x in points:
                x = float(x)
                idx = mesh.find_cell_indices(x)
                found = mesh.find_cells(x)
                t.ev("find", [], lo, hi, [x], [int(i) for i in idx], [c.a for c in found], [c.b for c in found],
                     note="%r in [%r,%r] %d cells" % (x, a, b, n))
                t.ev("find", [], [lo[0]], [hi[0]], [x], [0] if x in mesh[0] else [], [lo[0]] if x in mesh[0] else [],
                     [hi[0]] if x in mesh[0] else [])
            i = core.Interval(a, b)
            for x in [a, b, float(r.uniform(a, b)), a - 1, b + 1]:
                t.ev("interval", [], [a, b, x], [i.length, i.center, int(x in i), int(i.is_in_inner(x)), int(i.is_in_boundary(x))])
            for j in range(n):
                t.ev("equal", [mesh.index(mesh[j]) == j], [1], [1])
            t.ev("equal", [bool(i == core.Interval(a, b)) and hash(i) == hash(core.Interval(a, b))], [a, b], [a, b])
            t.ev("equal", [bool(i == core.Interval(a, b + 1))], [a, b + 1], [a, b])
            t.ev("equal", [bool(i == core.Interval(a - 1, b))], [a - 1, b], [a, b])
            for tiny in (1e-12, 1e-9, 1e-6):  # domains next to each other are different ones
                c = float(r.choice([0.0, 1.0, tiny]))
                for x, y in (((0.0, c + tiny), (0.0, c + 2 * tiny)), ((-c - tiny, 1.0), (-c - 2 * tiny, 1.0)), ((c, c + tiny), (c, c + tiny))):
                    one, two = core.Interval(*x), core.Interval(*y)
                    t.ev("equal", [bool(one == two)], list(x), list(y), note="%s %s" % (x, y))
                    t.ev("equal", [bool(core.UniformMesh(one, n) == core.UniformMesh(two, n))], list(x), list(y), note="%s %s" % (x, y))
            f = core.AffineTransformation()
            cell = mesh[int(r.integers(0, n))]
            for x in (0.0, 1.0, float(r.uniform(0, 1))):
                y = cell.a + cell.length * x
                m = f(x, cell)
                inv = f.inverse(y, cell)
                t.ev("affine", [], [cell.a, cell.b, x], [float(m), float(f.inverse(m, cell)), float(f.derivative(cell)),
                     float(f.inverse_derivative(cell)), float(inv), float(f(inv, cell)), float(y)])


def coarsening(rec, r):
    for k in range(rec.n(150, 1200)):
        with rec.trace("coarsening %d" % k) as t:
            degree, m = int(r.integers(1, 8)), int(r.integers(1, 7))
            cols = int(r.choice([1, 1, 2, 3]))
            column = cols == 1 and gen.mix(k, 4, "column") == 0
            m = 1 if gen.mix(k, 6, "one") == 0 else m
            n = degree * m
            x = r.uniform(-1, 1, n) if cols == 1 and not column else r.uniform(-1, 1, (n, cols))
            keep = x.copy()
            c = core.VectorCoarsener(degree)
            t.ev("coarsen", [], [degree, cols], keep, c(x), note="degree %d of %s" % (degree, keep.tolist()))
            t.ev("coarse-shape", [], [degree], list(map(int, x.shape)), list(map(int, np.shape(c(x)))),
                 note="degree %d of shape %s gives %s" % (degree, x.shape, np.shape(c(x))))
            t.ev("equal", [bool((x == keep).all())], [1], [1])
            d2 = int(r.integers(1, 4))
            y = np.repeat(x, d2, axis=0) + 0.0
            y += np.arange(len(y)).reshape([-1] + [1] * (y.ndim - 1)) % d2
            two = core.VectorCoarsener(degree)(core.VectorCoarsener(d2)(y))
            t.ev("coarsen", [], [degree * d2, cols], y, two, note="in two steps")
            for bad in range(1, 9):
                try:
                    core.VectorCoarsener(bad)(x)
                    res = "accepted"
                except ValueError:
                    res = "refused"
                t.ev("refused", [res, "vector"], [n, bad])
                try:
                    core.FineGridIndicesMapping(n, bad)
                    res = "accepted"
                except ValueError:
                    res = "refused"
                t.ev("refused", [res, "indices"], [n, bad])
            a, b = domain(r, k)
            coarse = core.UniformMesh(core.Interval(a, b), m)
            lo, hi = ends(coarse.refine(degree))
            mapping = core.FineGridIndicesMapping(n, degree)
            for i in range(m):
                t.ev("fine-cells", [], [degree, i], [int(j) for j in mapping(i)], [coarse[i].a, coarse[i].b], lo, hi)


def large(rec, r):
    for k in range(rec.n(2, 8)):
        a, b = domain(r, k)
        n = [520, 1200, 720, 1024][k % 4]
        label = "large mesh %d " % k
        mesh = core.UniformMesh(core.Interval(a, b), n)
        with rec.trace(label + "cells") as t:
            mesh_event(t, mesh, a, b, n)
        with rec.trace(label + "refined") as t:
            mesh_event(t, mesh.refine(2), a, b, 2 * n)
        with rec.trace(label + "coarsened") as t:
            for d in (2, 8, 16, 7):
                try:
                    mesh_event(t, mesh.coarsen(d), a, b, n // d)
                    res = "accepted"
                except AssertionError:
                    res = "refused"
                t.ev("refused", [res, "mesh"], [n, d], note="mesh of %d, degree %d" % (n, d))
        lo, hi = ends(mesh)
        for j, x in enumerate((lo[-1], lo[n // 2], float(r.uniform(a, b)))):
            with rec.trace(label + "find %d" % j) as t:
                idx, found = mesh.find_cell_indices(x), mesh.find_cells(x)
                t.ev("find", [], lo, hi, [x], [int(i) for i in idx], [c.a for c in found], [c.b for c in found],
                     note="%r in [%r,%r] %d cells" % (x, a, b, n))
        with rec.trace(label + "averages") as t:
            for d in (2, 8, 1):
                x = r.uniform(-1, 1, (n, 2) if d == 8 else n)
                t.ev("coarsen", [], [d, x.ndim], x.copy(), core.VectorCoarsener(d)(x), note="degree %d of %d values" % (d, n))
        with rec.trace(label + "fine cells") as t:
            mapping, coarse = core.FineGridIndicesMapping(n, 8), mesh.coarsen(8)
            for i in (0, 5, n // 8 - 1):
                t.ev("fine-cells", [], [8, i], [int(j) for j in mapping(i)], [coarse[i].a, coarse[i].b], lo, hi)
        for periodic in (True, False):
            with rec.trace(label + "neighbours %s" % periodic) as t:
                nb = finite_volume.NeighbourIndicesMapping(n, periodic)
                for i in (0, 1, n // 2, n - 2, n - 1):
                    t.ev("neighbours", [], [n, 0, int(periodic), i], [int(x) for x in nb(i)], [int(x) for x in nb.array[i]])
                u = r.uniform(-1, 1, n)
                t.ev("extrema", [], [n, 0, int(periodic)], u, core.LocalMaximum(nb)(u), core.LocalMinimum(nb)(u))
            with rec.trace(label + "elements %s" % periodic) as t:
                p, m = 1 + k % 2, 150
                g = finite_element.GlobalIndexMapping(core.UniformMesh(core.Interval(0.0, 1.0), m), p, periodic=periodic)
                for c in (0, 1, m // 2, m - 1):
                    for j in range(p + 1):
                        t.ev("global", [], [m, p, int(periodic), c, j, int(g(c, j)), int(g.dimension)])
                nb = finite_element.NeighbourIndicesMapping(g)
                for i in (0, 1, 2, m // 2, g.dimension - 2, g.dimension - 1):
                    t.ev("neighbours", [], [m, p, int(periodic), i], [int(x) for x in nb(i)], [int(x) for x in nb.array[i]])
                u = r.uniform(-1, 1, g.dimension)
                t.ev("extrema", [], [m, p, int(periodic)], u, core.LocalMaximum(nb)(u), core.LocalMinimum(nb)(u))
        for p in (0, 1, 2):
            with rec.trace(label + "grid %d" % p) as t:
                s = finite_volume.FiniteVolumeSpace(mesh) if p == 0 else finite_element.LagrangeSpace(mesh, p)
                t.ev("grid", [], [a, b, n, p], s.grid, [int(s.dimension)], note="p=%d, %d cells on [%r,%r]" % (p, n, a, b))


def numberings(rec, r):
    for n in range(1, rec.n(6, 9)):
        for p in range(1, rec.n(5, 8)):
            mesh = core.UniformMesh(core.Interval(0.0, 1.0), n)
            for periodic in (True, False):
                with rec.trace("numbering n=%d p=%d %s" % (n, p, periodic)) as t:
                    g = finite_element.GlobalIndexMapping(mesh, p, periodic=periodic)
                    for c in range(n):
                        for j in range(p + 1):
                            t.ev("global", [], [n, p, int(periodic), c, j, int(g(c, j)), int(g.dimension)])
                    nb = finite_element.NeighbourIndicesMapping(g)
                    for i in range(g.dimension):
                        t.ev("neighbours", [], [n, p, int(periodic), i], [int(x) for x in nb(i)], [int(x) for x in nb.array[i]],
                             note="degree %d, %d cells, dof %d" % (p, n, i))
                    for _ in range(2):
                        u = r.uniform(-1, 1, g.dimension)
                        t.ev("extrema", [], [n, p, int(periodic)], u, core.LocalMaximum(nb)(u), core.LocalMinimum(nb)(u))
    for n in range(1, rec.n(9, 14)):
        for periodic in (True, False):
            with rec.trace("cells n=%d %s" % (n, periodic)) as t:
                nb = finite_volume.NeighbourIndicesMapping(n, periodic) if periodic else finite_volume.NeighbourIndicesMapping(n)
                for i in range(n):
                    t.ev("neighbours", [], [n, 0, int(periodic), i], [int(x) for x in nb(i)], [int(x) for x in nb.array[i]])
                for _ in range(4):
                    u = gen.scalar_data(r, n)
                    t.ev("extrema", [], [n, 0, int(periodic)], u, core.LocalMaximum(nb)(u), core.LocalMinimum(nb)(u))


def spaces(rec, r):
    for k in range(rec.n(40, 200)):
        with rec.trace("space %d" % k) as t:
            a, b = domain(r, k)
            n, f = int(r.integers(1, 9)), int(r.integers(1, 4))
            mesh = core.UniformMesh(core.Interval(a, b), n)
            for p in range(0, 4):
                space = finite_volume.FiniteVolumeSpace(mesh) if p == 0 else finite_element.LagrangeSpace(mesh, p)
                fine = space.refine(f)
                for s, m in ((space, n), (fine, n * f), (fine.coarsen(f), n)):
                    t.ev("grid", [], [a, b, m, p], s.grid, [int(s.dimension)], note="p=%d, %d cells on [%r,%r]" % (p, m, a, b))
                    mesh_event(t, s.mesh, a, b, m)


def drive(rec):
    r = gen.rng(rec.seed, "C10")
    meshes(rec, r)
    coarsening(rec, r)
    large(rec, r)
    numberings(rec, r)
    spaces(rec, r)


def models(rec):
    ok, states, text = qspec.model_run("model_mesh", "model_mesh.qnt", ["inv"], 36, 1, rec.seed)
    return [dict(name="model_mesh: neighbourhoods and coarsenings on all meshes up to eight cells, degrees up to five",
                 ok=ok, states=36, transitions=35, text=text)]
