"""C12: finite element operators."""
import numpy as np

import gen
import qspec
from env import core, finite_element

LEVEL = "exploration"
RULE = ("every event is one basis, matrix, vector or element function of a periodic Lagrange space, built by the code "
        "for random meshes, degrees one to five (thorough: seven) and random coefficient vectors")
ASSUMPTIONS = ["the domain's length is of order one", "tolerances grow with the degree as rounding in the basis does"]


def dense(m):
    m = m() if callable(m) else m
    return m.toarray() if hasattr(m, "toarray") else np.asarray(m)


def basis(rec, r):
    for p in range(1, rec.n(6, 8)):
        for k in range(rec.n(3, 10)):
            with rec.trace("basis %d %d" % (p, k)) as t:
                b = finite_element.LocalLagrangeBasis(p)
                x = [*b.nodes, *r.uniform(0, 1, 4), 0.0, 1.0, 0.5]
                elements = [b.get_element_at_node(n) for n in b.nodes] if k == 1 else list(b) if k else [b[i] for i in range(len(b))]
                t.ev("basis", [], [p], np.array(x, float), *[[float(f(y)) for y in x] for f in elements],
                     *[[float(f.derivative(y)) for y in x] for f in elements])
                t.ev("same", ["nodes of the basis"], np.array([i / p for i in range(p + 1)]), np.array(b.nodes, float))
                t.ev("same", ["number of basis functions"], [float(p + 1)], [float(len(b))])


class Piecewise(core.FastFunction):
    """Polynomials in the local coordinate, on the nodes of a quadrature."""

    def __init__(self, coefficients, nodes):
        self.c, self.nodes = coefficients, nodes

    def __call__(self, cell_index, local_index):
        return float(np.polynomial.polynomial.polyval(self.nodes[local_index], self.c[cell_index]))

    def derivative(self, cell_index, local_index):
        raise NotImplementedError


def spaces(rec, r):
    for k in range(rec.n(36, 150)):
        p = 1 + k % rec.n(4, 6) if k % 12 else rec.n(5, 7)
        n = int(r.integers(2, max(3, min(7, 20 // p) + 1)))
        if k % 9 == 8:
            n = 1
        a = float([0.0, -1.0, 0.5][gen.mix(k, 3)])
        b = a + float([1.0, 2.0, r.uniform(0.3, 3)][gen.mix(k // 3, 3)])
        # the unit of length (a power of two): all events are in that unit
        one = 2.0 ** int([0, 0, 0, -40, -30, 20][gen.mix(k, 6, "unit")])
        # and of the coefficients
        amp = 2.0 ** int([0, 0, 0, -40, -24, 20][gen.mix(k, 6, "amplitude")])
        power = {"advection": amp, "burgers": amp ** 2}
        with rec.trace("space %d: %d cells of degree %d on [%r, %r] * %r, values * %r" % (k, n, p, a, b, one, amp)) as t:
            mesh = core.UniformMesh(core.Interval(a * one, b * one), n)
            space = finite_element.LagrangeSpace(mesh, p)
            if k % 5 == 4:  # refined or coarsened spaces are spaces
                space = finite_element.LagrangeSpace(core.UniformMesh(mesh.domain, 2 * n), p).coarsen(2)
            elif k % 5 == 3 and n % 2 == 0:
                space = finite_element.LagrangeSpace(core.UniformMesh(mesh.domain, n // 2), p).refine(2)
            h = (b - a) / n
            d = n * p
            t.ev("space", [], [n, p], [a, b, h], [int(space.dimension)], np.array(space.grid, float) / one)
            t.ev("same", ["nodes of the space by both names"], np.array(space.basis_nodes) / one, np.array(space.grid) / one)
            mass, gradient = finite_element.MassMatrix(space), finite_element.DiscreteGradient(space)
            t.ev("mass", [], *dense(mass) / one)
            t.ev("gradient", [], *dense(gradient))
            t.ev("same", ["single entries of a matrix"], dense(mass).ravel() / one,
                 np.array([mass[i, j] for i in range(d) for j in range(d)], float) / one)
            lumped = finite_element.LumpedMassVector(space)
            t.ev("lumped", [], np.asarray(lumped(np.zeros(d)), float) / one)
            burgers = finite_element.build_artificial_diffusion("burgers", space)
            upwind = finite_element.build_artificial_diffusion("advection", space)
            flux = {(q, e): finite_element.build_flux_gradient(q, space, e == "exact")
                    for q in ("advection", "burgers") for e in ("exact", "group")}
            approx = {q: finite_element.build_flux_approximation(q) for q in ("advection", "burgers")}
            for again in range(2):  # operators are reused with other data
                if again and gen.mix(k, 2, "close"):  # almost the same data
                    u = u + r.uniform(-1e-5, 1e-5, d)
                else:
                    u = gen.scalar_data(r, d, scale=float(r.choice([1.0, 2.0])))
                w = r.uniform(-1, 1, d)
                burgers.assemble(u * amp)
                upwind.assemble(u * amp)
                if n > 2:
                    t.ev("diffusion", ["burgers"], u, *dense(burgers) / amp, note=str(u.tolist()))
                    t.ev("diffusion", ["advection"], u, *dense(upwind))
                    t.ev("apply", ["diffusion", "burgers"], u, w, burgers.dot(w) / amp)
                    t.ev("apply", ["diffusion", "advection"], u, w, upwind.dot(w))
                t.ev("apply", ["mass", ""], u, u, mass.dot(u * amp) / one / amp)
                t.ev("apply", ["gradient", ""], u, u, gradient.dot(u))
                if again:
                    mass.build_inverse()
                t.ev("inverse", [], w, mass.inverse(w) * one)
                t.ev("inverse", [], u, mass.inverse(u) * one)
                for (q, e), f in flux.items():
                    t.ev("flux", [q, e], u, f(u * amp) / power[q], note="%s %s %s" % (q, e, u.tolist()))
                v = u * amp
                for q, f in approx.items():
                    t.ev("approximation", [q], v / amp, f(v) / power[q])
                v *= 0.5
                for q, f in approx.items():
                    t.ev("approximation", [q], v / amp, f(v) / power[q])
                q = int(r.integers(1, 6))
                quadrature = core.LocalElementQuadrature(q)
                degree = max(0, min(2 * q - 1 - p, 3))
                if 2 * q - 1 - p >= 0:
                    c = r.uniform(-1, 1, (n, degree + 1))
                    f = Piecewise(c, quadrature.nodes)
                    t.ev("l2", [], finite_element.BasisL2Product(f, space, q)() / one, *c)
                    t.ev("l2-slopes", [], finite_element.BasisGradientL2Product(f, space, q)(), *c)
                # element functions
                element = space.element(u * amp)
                cells = [*range(n), *r.integers(0, n, 3)]
                z = [*r.uniform(0, 1, len(cells) - 3), 0.0, 1.0, 0.5]
                x = [one * (a + h * (c + y)) for c, y in zip(cells, z)]
                t.ev("element", [], u, [int(c) for c in cells], z,
                     [float(element(int(c), y)) / amp for c, y in zip(cells, x)],
                     [float(element.derivative(int(c), y)) * one / amp for c, y in zip(cells, x)])
                for name, fast, points in (
                        ("fast", finite_element.FastFiniteElement(space), z),
                        ("quadrature", finite_element.QuadratureFastElement(space, quadrature), list(quadrature.nodes)),
                        ("anchor", finite_element.AnchorNodesFastFiniteElement(space), [i / p for i in range(p + 1)])):
                    fast.dof_vector = u * amp
                    if name == "fast":
                        fast.set_values(*points)
                        fast.set_derivatives(*points)
                    else:
                        fast.set_values()
                        fast.set_derivatives()
                    more = [points] + ([r.uniform(0, 1, len(points) + i).tolist() for i in range(2)] if name == "fast" else [])
                    for points in more:
                        if points is not more[0]:  # the same element at other points
                            fast.set_values(*points)
                            fast.set_derivatives(*points)
                        cs = [c for c in range(n) for _ in points]
                        js = list(range(len(points))) * n
                        t.ev("element", [], u, cs, [float(points[j]) for j in js], [float(fast(c, j)) / amp for c, j in zip(cs, js)],
                             [float(fast.derivative(c, j)) * one / amp for c, j in zip(cs, js)])


def large(rec, r):
    for k in range(rec.n(3, 9)):
        p, n = [(1, 150), (2, 60), (3, 40)][k % 3]
        with rec.trace("large space %d: %d cells of degree %d" % (k, n, p)) as t:
            a, b = 0.0, float(n) / 4
            space = finite_element.LagrangeSpace(core.UniformMesh(core.Interval(a, b), n), p)
            h, d = (b - a) / n, n * p
            t.ev("space", [], [n, p], [a, b, h], [int(space.dimension)], np.array(space.grid, float))
            mass, gradient = finite_element.MassMatrix(space), finite_element.DiscreteGradient(space)
            t.ev("lumped", [], np.asarray(finite_element.LumpedMassVector(space)(np.zeros(d)), float))
            for again in range(2):
                u, w = r.uniform(-1, 1, d), r.uniform(-1, 1, d)
                t.ev("apply", ["mass", ""], u, u, mass.dot(u))
                t.ev("apply", ["gradient", ""], u, u, gradient.dot(u))
                if again:
                    mass.build_inverse()
                t.ev("inverse", [], w, mass.inverse(w))
                for q in ("advection", "burgers"):
                    diffusion = finite_element.build_artificial_diffusion(q, space)
                    diffusion.assemble(u)
                    t.ev("apply", ["diffusion", q], u, w, diffusion.dot(w))
                    for e in ("exact", "group"):
                        t.ev("flux", [q, e], u, finite_element.build_flux_gradient(q, space, e == "exact")(u))
                    t.ev("approximation", [q], u, finite_element.build_flux_approximation(q)(u))
                element = space.element(u)
                cells = [0, n // 2, n - 1]
                t.ev("element", [], u, cells, [0.0, 0.25, 1.0], [float(element(c, a + h * (c + z))) for c, z in zip(cells, (0.0, 0.25, 1.0))],
                     [float(element.derivative(c, a + h * (c + z))) for c, z in zip(cells, (0.0, 0.25, 1.0))])


def matrices(rec, r):
    for k in range(rec.n(20, 100)):
        with rec.trace("matrix operations %d" % k) as t:
            n = int(r.integers(2, 7))
            A, B = r.uniform(-1, 1, (n, n)) + n * np.eye(n), r.uniform(-1, 1, (n, n))
            u = r.uniform(-1, 1, n)
            M, N = core.SystemMatrix(n), core.SystemMatrix(n)
            M.set_values(A.copy())
            N.set_values(B.copy())
            for what, x, y in (
                    ("values", A, dense(M)), ("sum", A + B, dense(M + N)), ("difference", A - B, dense(M - N)),
                    ("product", A @ u, M.dot(u)), ("rows multiplied", A * u, dense(M.multiply_row(u))),
                    ("columns multiplied", A * u[:, None], dense(M.multiply_column(u))),
                    ("inverse", u, A @ M.inverse(u))):
                t.ev("same", ["matrix operations: " + what], np.ravel(x), np.ravel(np.asarray(y, float)))
            C = r.uniform(-1, 1, (n, n)) + 2 * n * np.eye(n)
            N.set_values(C.copy())  # used before, now with other values
            t.ev("same", ["matrix operations: inverse"], u, C @ N.inverse(u))
            N.set_values(A.copy())
            t.ev("same", ["matrix operations: inverse of changed values"], u, A @ N.inverse(u))
            N[0, 0] = 9.0 * n
            N.update_csr_values()
            D = A.copy()
            D[0, 0] = 9.0 * n
            t.ev("same", ["matrix operations: inverse of changed values"], u, D @ N.inverse(u))
            t.ev("same", ["matrix operations: product after a change"], D @ u, N.dot(u))
            M.build_inverse()
            t.ev("same", ["matrix operations: permanent inverse"], u, A @ M.inverse(u))
            i, j = int(r.integers(0, n)), int(r.integers(0, n))
            M[i, j] = 7.0
            A[i, j] = 7.0
            M.update_csr_values()
            t.ev("same", ["matrix operations: changed entry"], np.ravel(A), np.ravel(dense(M)))
            t.ev("same", ["matrix operations: product after a change"], A @ u, M.dot(u))


def drive(rec):
    r = gen.rng(rec.seed, "C12")
    basis(rec, r)
    spaces(rec, r)
    large(rec, r)
    matrices(rec, r)


def models(rec):
    n = rec.n(300, 4000)
    ok, states, log = qspec.model_run("model_fem", "model_fem.qnt", ["operators", "diffusive", "sameFluxes", "energyKept"], 4, n, rec.seed)
    return [dict(name="model_fem: operators and the energy of the schemes", ok=ok, states=states, transitions=states, text=log)]
