"""C11: quadrature, interpolation and norms."""
import numpy as np

import gen
from env import core

LEVEL = "exploration"
RULE = ("every event is one quadrature, integral, interpolation or norm of random polynomials or data; "
        "quadrature degrees 1 to 10 (thorough: 16), 20 and 33 on random intervals")
ASSUMPTIONS = ["polynomial degrees up to nine, coefficients and interval ends of order one"]

MAXIMUM = next(c for c in vars(core).values() if isinstance(c, type) and getattr(c, "name", None) == "Linf")


def horner(c):
    def f(x):
        y = 0.0
        for a in reversed(c):
            y = y * x + a
        return float(y)

    return f


def interval(r, k):
    a = float([0.0, -1.0, r.uniform(-2, 1), 0.5][gen.mix(k, 4)])
    return a, a + float([1.0, 2.0, r.uniform(0.2, 2), 0.1][gen.mix(k // 4, 4)])


def quadratures(rec, r):
    for n in [*range(1, rec.n(11, 17)), 20, 33]:
        for k in range(rec.n(5, 16) if n < 17 else 3):
            with rec.trace("quadrature %d %d" % (n, k)) as t:
                a, b = interval(r, k + n)
                q = core.GaussianQuadrature(n, core.Interval(a, b))
                t.ev("quadrature", [], [a, b, n], q.nodes, q.weights, [q.domain.a, q.domain.b, int(q.degree)])
                if k == 0:
                    q = core.SpecificGaussianQuadrature(n)
                    a, b = -1.0, 1.0
                    t.ev("quadrature", [], [a, b, n], q.nodes, q.weights, [float(q.domain.a), float(q.domain.b), int(q.degree)])
                if k == 1:
                    q = core.GaussianQuadrature(n, core.Interval(-1, 1))
                    a, b = -1.0, 1.0
                    t.ev("quadrature", [], [a, b, n], q.nodes, q.weights, [float(q.domain.a), float(q.domain.b), int(q.degree)])
                if k == 2:
                    q = core.LocalElementQuadrature(n)
                    a, b = 0.0, 1.0
                    t.ev("quadrature", [], [a, b, n], q.nodes, q.weights, [float(q.domain.a), float(q.domain.b), int(q.degree)])
                c = r.uniform(-1, 1, min(2 * n, 10))
                t.ev("integral", [], [a, b], c, [float(q.integrate(horner(c)))], note="%s on [%r,%r]" % (c.tolist(), a, b))
                seen = []

                def f(x):
                    seen.append(float(np.sin(5 * x) + r.uniform()))
                    return seen[-1]

                total = float(q.integrate(f))
                t.ev("values", [], q.weights, seen, [total])


def interpolations(rec, r):
    for k in range(rec.n(80, 500)):
        with rec.trace("interpolation %d" % k) as t:
            a, b = interval(r, k)
            n, q = int(r.integers(1, 9)) if k % 40 != 21 else 310, int(r.integers(1, 6))
            far = k % 20 == 9
            if far:  # a small domain far away
                a = float(r.choice([1000.0, -50.0, 1e5]))
                b = a + float(r.choice([0.01, 0.125]))
            mesh = core.UniformMesh(core.Interval(a, b), n)
            inter = core.CellAverageInterpolator(mesh, q)
            c = r.uniform(-1, 1, 2 if far else min(2 * q, 8))
            note = "%s on [%r,%r], %d cells, degree %d" % (c.tolist(), a, b, n, q)
            t.ev("averages", [], [a, b, n], c, inter.interpolate(horner(c)), note=note)
            # functions whose values are Python integers at some or all points
            ends = (0, a, b, mesh[0].b)
            t.ev("averages", [], [a, b, n], c, inter.interpolate(lambda x: 0 if x in ends else horner(c)(x)), note=note)
            t.ev("averages", [], [a, b, n], [3.0], inter.interpolate(lambda x: 3) * 1.0, note=note)
            m = int(r.integers(1, 4))
            cs = r.uniform(-1, 1, (m, 2 if far else min(2 * q, 8)))
            kind = [np.array, list, tuple][gen.mix(k, 3)]
            out = inter.interpolate(lambda x: kind([0 if x in ends else horner(d)(x) for d in cs]))
            t.ev("shape", [], [n, m], list(out.shape))
            for i in range(m):
                t.ev("averages", [], [a, b, n], cs[i], out[:, i], note=note)
            nodes = np.sort(r.uniform(a, b, n))
            inter = core.NodeValuesInterpolator(*nodes)
            t.ev("nodal", [], nodes, c, inter.interpolate(horner(c)))
            out = inter.interpolate(lambda x: np.array([horner(d)(x) for d in cs]))
            t.ev("shape", [], [n, m], list(out.shape))
            for i in range(m):
                t.ev("nodal", [], nodes, cs[i], out[:, i])
            t.ev("nodal", [], nodes, [2.0], core.NodeValuesInterpolator(*nodes).interpolate(lambda x: 2) * 1.0)
        with rec.trace("piecewise linear %d" % k) as t:
            n, m = int(r.integers(2, 8)), int(r.integers(1, 8))
            if k % 40 == 21:
                n, m = 300, 280
            old = np.cumsum(r.uniform(0.05, 1, n)) + r.uniform(-1, 1)
            new = np.sort(r.uniform(old[0], old[-1], m))
            new[0] = old[0] if k % 2 else new[0]
            new[-1] = old[-1] if k % 3 == 0 else new[-1]
            if k % 4 == 0:
                new = np.sort(np.append(new, old[1]))
            shape = [(), (3,), (3, 2), (1,)][gen.mix(k, 4)]
            values = r.uniform(-1, 1, (n, *shape))
            if shape:
                keep = values.copy()
                out = core.TemporalInterpolator()(old, values, new)
                t.ev("shape", [], [len(new), *shape], list(out.shape))
                for i in np.ndindex(*shape):
                    t.ev("linear", [], old, keep[(slice(None), *i)], new, out[(slice(None), *i)])
            wide = np.sort(r.uniform(old[0] - 1, old[-1] + 1, m + 2))
            times = int(r.integers(1, 4))
            tail = [(), (2,), (1,)][gen.mix(k, 3)]
            values = r.uniform(-1, 1, (times, n, *tail))
            keep = values.copy()
            out = core.SpatialInterpolator()(old, values, wide)
            t.ev("shape", [], [times, len(wide), *tail], list(out.shape))
            for j in range(times):
                for i in np.ndindex(*tail):
                    t.ev("linear", [], old, keep[(j, slice(None), *i)], wide, out[(j, slice(None), *i)])


def norms(rec, r):
    for k in range(rec.n(100, 700)):
        with rec.trace("norm %d" % k) as t:
            a, b = interval(r, k)
            n = int(r.integers(1, 7)) if k % 40 != 21 else 130
            q = int(r.integers(1, 6))
            mesh = core.UniformMesh(core.Interval(a, b), n)
            dx = (b - a) / n
            m = int(r.integers(1, 4))
            for name in ("L2", "L1", "Linf"):
                degree = {"L2": q - 1, "L1": min(2 * q - 1, 3), "Linf": [1, 3][gen.mix(k, 2)] if n < 130 else 3}[name]
                cs = r.uniform(-1, 1, (m, n, degree + 1))
                if name == "L1":  # one sign on each cell
                    cs = np.abs(cs) * r.choice([-1.0, 1.0], (m, n, 1))
                if k % 10 == 0:
                    cs[0] = 0.0
                if k % 7 == 0:
                    cs = np.round(cs * 4) / 4
                if name == "Linf" and (n == 130 or gen.mix(k, 3) == 0) and degree > 1:  # extrema inside of the cells
                    cs = r.uniform(-1, 1, (m, n, 1)) * np.array([0.0, 4.0, -4.0, 0.0][: degree + 1])
                points = int(r.integers(2, 12)) if n < 130 else 97
                cls = {"L2": core.L2Norm, "L1": core.L1Norm, "Linf": MAXIMUM}[name]
                if name == "Linf":
                    norm = cls(mesh, points)
                    if points == 10:
                        norm = cls(mesh)
                elif q == 1 and k % 2:
                    norm = cls(mesh)
                else:
                    norm = cls(mesh, q)

                def f(i, x, alpha=1.0):
                    y = [alpha * horner(cs[j, i])((x - a) / dx - i) for j in range(m)]
                    return y[0] if m == 1 and k % 2 else np.array(y)

                alpha = float(r.choice([-1.0, 2.0, 0.0, -0.5, 3.0]))
                one, two = np.atleast_1d(norm(f)), np.atleast_1d(norm(lambda i, x: f(i, x, alpha)))
                t.ev("shape", [], [m, m], [len(one), len(two)])
                for j in range(m):
                    t.ev("norm", [name], [dx, points, float(one[j]), float(two[j]), alpha], *cs[j],
                         note="%s q=%d points=%d cells=%d" % (name, q, points, n))


def drive(rec):
    r = gen.rng(rec.seed, "C11")
    quadratures(rec, r)
    interpolations(rec, r)
    norms(rec, r)
