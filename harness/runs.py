"""Whole solver runs: random cases, their description for the specification, and
the events of a run."""
import contextlib
import io

import numpy as np

import gen
from env import CellData, NodeData, SweCellData, SCALAR_FV, SWE, FE, core
from schemes import ODE, all_schemes, Scheme, GETTERS

CLASSES = {"scalar": SCALAR_FV, "swe": SWE, "fem": FE}


class Case:
    """One configured run."""

    def __init__(self, family, name, u, **kw):
        self.family, self.name, self.u = family, name, np.array(u, float)
        self.sub, self.problem, self.method, self.stepping = "", "shallow_water", "heun", "mesh"
        self.bc, self.g, self.dx, self.gamma = "periodic", 1.0, 1.0, 0.0
        self.start, self.stop, self.cfl, self.n, self.p, self.deg = 0.0, 1.0, 0.5, len(self.u), 1, 1
        self.bottom, self.inl, self.inr, self.options, self.cls = None, None, None, {}, None
        self.a = 0.0
        self.explicit_method = True
        self.inside = None
        self.ux = self.uh = 1.0  # units of length and of the values
        self.__dict__.update(kw)
        if self.bottom is None:
            self.bottom = np.zeros(self.n)

    # ---------------------------------------------------------------- units
    # The equations look the same in every system of units. A case, and all events, are in its own units,
    # which are powers of two; the code computes in others.
    def unit(self, k, salt="units"):
        """Choose the units of length and of the values, so that the unit of time is moderate."""
        i = gen.mix(k, 6, salt)
        if self.name in ("reduced", "lw") or self.name == "antidiffusion" and "gamma" not in self.options:
            return self
        if self.family == "swe":
            small = min([1.0, *np.abs(self.u[self.u != 0]), *np.abs(np.diff(self.bottom))[np.diff(self.bottom) != 0]])
            if i < 3 and small > 1e-4:
                self.uh = [2.0 ** -16, 2.0 ** 10, 2.0 ** -30][i]
                self.ux = self.speed * [1.0, 32.0][gen.mix(k, 2, salt + "x")]
        elif i < 3:
            self.uh = [2.0 ** -40, 2.0 ** -20, 2.0 ** 30][i]
            self.ux = self.speed * [1.0, 2.0 ** -8, 2.0 ** 8][gen.mix(k, 3, salt + "x")]
        return self

    @property
    def speed(self):
        return np.sqrt(self.uh) if self.family == "swe" else 1.0 if self.problem == "advection" else self.uh

    @property
    def ut(self):
        return self.ux / self.speed

    @property
    def uv(self):
        """Units of a state's components."""
        return np.array([self.uh, self.uh * self.speed]) if self.family == "swe" else self.uh

    # ------------------------------------------------------------ real code
    def bench(self, u=None):
        u = self.u if u is None else u
        kw = dict(dx=self.dx * self.ux, start_time=self.start * self.ut, end_time=self.stop * self.ut, bc=self.bc,
                  a=self.a * self.ux)
        if self.inside is not None and (self.family == "scalar" or self.family == "swe" and np.min(u[:, 0]) > 0):
            seed, size, signs = self.inside
            kw["inside"] = (seed, size * (np.array([*self.uv, self.uh]) if self.family == "swe" else self.uv), signs)
        v = self.uv
        if self.family == "swe":
            for side, i in (("left", self.inl), ("right", self.inr)):
                if i is not None:
                    kw["inflow_" + side] = lambda t, i=i: v * [i[0] + i[2] * t / self.ut, i[1] + i[3] * t / self.ut]
            return SweCellData(u * v, bottom=np.asarray(self.bottom) * self.uh, g=self.g, **kw)
        for side, i in (("left", self.inl), ("right", self.inr)):
            if i is not None:
                kw["inflow_" + side] = lambda t, i=i: v * (i[0] + i[2] * t / self.ut)
        if self.family == "fem":
            return NodeData(self.problem, u * v, self.n, **kw)
        return CellData(self.problem, u * v, **kw)

    def solver(self, u=None, save_history=True, bench=None):
        cfl = self.cfl * self.ut / self.ux if self.stepping == "mesh" else self.cfl
        kw = dict(self.options, mesh_size=self.n, cfl_number=cfl, save_history=save_history)
        if "gamma" in kw:
            kw["gamma"] = kw["gamma"] * self.speed * self.ux
        if self.name != "lw" and not self.name.startswith("cg-exact") and self.name != "cg" and self.explicit_method:
            kw["ode_solver_type"] = ODE[self.method]
        if self.family == "fem":
            kw["polynomial_degree"] = self.p
            if self.name == "cg-exact":
                kw["exact_flux"] = True
            if self.stepping == "adaptive":
                kw["adaptive"] = True
        cls = self.cls or CLASSES[self.family][self.name.split("-exact")[0]]
        return cls(bench or self.bench(u), **kw)

    # ---------------------------------------------------------- description
    def config(self):
        cl, cr = (self.bc, self.bc) if isinstance(self.bc, str) else self.bc
        return ([self.family, self.name, self.sub, self.problem, self.method, cl, cr, self.stepping],
                [[float(x) for x in (self.g, self.dx, self.gamma, self.start, self.stop, self.cfl)],
                 [self.n, self.p, self.deg], np.array(self.bottom, float),
                 list(map(float, self.inl or [0] * 4)), list(map(float, self.inr or [0] * 4))])

    def vec(self, x):
        """A state of the code."""
        return self.flat(np.asarray(x, float) / self.uv)

    def time(self, t):
        """Times of the code."""
        return np.asarray(t, float) / self.ut

    def flat(self, x):
        x = np.asarray(x, float)
        return np.concatenate([x[:, 0], x[:, 1]]) if x.ndim == 2 else x

    @property
    def fragile(self):
        """Schemes which may produce negative heights."""
        return self.family == "swe" and self.name not in ("llf", "low-order", "mcl", "coarse")

    @property
    def label(self):
        return "%s %s%s %s %s %s" % (self.family, self.name, "/" + self.sub if self.sub else "",
                                     self.problem if self.family != "swe" else "", self.method, self.bc)

    @property
    def note(self):
        return "%s n=%d p=%d deg=%d dx=%g g=%g gamma=%g t=[%g, %g] cfl=%g %s bottom=%s inflow=%s %s inside=%s units=%g %g u=%s" % (
            self.label, self.n, self.p, self.deg, self.dx, self.g, self.gamma, self.start, self.stop, self.cfl,
            self.stepping, np.asarray(self.bottom).tolist(), self.inl, self.inr, self.inside, self.ux, self.uh, self.u.tolist())


def solve(solver, fragile=False):
    """Run a solver; a fragile one may run out of water."""
    solver.broken = False
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            solver.solve(disable=True, leave=False)
        except ValueError:
            if not fragile:
                raise
            solver.broken = True
    return solver


def records(t, case, solver, fixing=None):
    """Events of a finished run."""
    s, v = case.config()
    t.ev("config", s, *v, note=case.note)
    h = solver.solution
    times, values = case.time(h.time_history), h.value_history
    t.ev("init", [], [times[0]], case.vec(values[0]), case.flat(case.u), case.flat(case.u if fixing is None else fixing),
         note=case.note)
    steps = case.time(h.time_step_history)
    for k in range(1, len(times)):
        t.ev("record", [str(k)], [times[k], steps[k - 1]], case.vec(values[k]),
             note="record %d of %s" % (k, case.note))
    if not getattr(solver, "broken", False):
        t.ev("end", [], [float(case.time(h.time))], note=case.note)


# ------------------------------------------------------------------- cases
def span(r, full, steps):
    """An end after the given number of steps, often within the last one."""
    return full * (steps - float(r.choice([0.0, 0.0, 0.5, 0.25, 0.9])))


def times(r, case, steps, rest=None):
    """Start and end; with REST the last step is that part of a step."""
    case.start = float(r.choice([0.0, 0.0, 0.5, -0.25, 1.75]))
    case.stop = case.start + span(r, case.cfl * case.dx, steps)
    if rest is not None:
        case.stop = case.start + case.cfl * case.dx * (steps - 1 + rest)
    return case


def scalar_case(r, k, name=None, method=None, periodic=False, n=None):
    name = name or list(SCALAR_FV)[gen.mix(k, 3)]
    method = method or list(ODE)[gen.mix(k // 3, 4)]
    n = n or int(r.integers(3, 8))
    bc = "periodic" if periodic or k % 2 else [("outflow", "outflow"), ("inflow", "outflow"), ("outflow", "inflow"),
                                              ("inflow", "inflow")][int(r.integers(0, 4))]
    u = gen.scalar_data(r, n, scale=float(r.choice([1.0, 2.0])))
    case = Case("scalar", name, u, problem=["advection", "burgers"][gen.mix(k // 2, 2)], method=method, bc=bc,
                dx=float(r.choice([0.5, 1.0, 0.125, 0.3])), a=float(r.choice([0.0, -1.0])))
    if bc != "periodic":
        i, j = r.uniform(-1, 1, 2), r.uniform(-1, 1, 2)
        case.inl, case.inr = [i[0], 0, i[1], 0], [j[0], 0, j[1], 0]
        case.inl = case.inl if bc[0] == "inflow" else None
        case.inr = case.inr if bc[1] == "inflow" else None
    case.cfl = float(r.choice([0.25, 0.4, 0.1]))
    case.explicit_method = not (method == "heun" and r.integers(0, 2))
    if gen.mix(k, 4, "inside") == 0:
        case.inside = (k, 0.3, [None])
    return times(r, case, 2 if method == "rk8" else int(r.integers(1, 5)))


def fem_case(r, k, name=None, method=None, p=None, n=None):
    name = name or ["cg", "cg-exact", "cg-low", "mcl-fem"][gen.mix(k, 4)]
    p = p or 1 + gen.mix(k // 4, 3)
    n = n or int(r.integers(3, 5 if p > 2 else 6))
    free = name in ("cg-low", "mcl-fem")
    method = (method or ["heun", "ssp3", "euler"][int(r.integers(0, 3))]) if free else {1: "heun", 2: "ssp3"}.get(p, "rk8")
    u = gen.scalar_data(r, n * p, scale=float(r.choice([1.0, 2.0])))
    problem = ["burgers", "advection"][gen.mix(k // 4, 2)]
    if np.max(np.abs(u)) == 0:
        u[0] = 0.5
    case = Case("fem", name, u, problem=problem, method=method, n=n, p=p, dx=float(r.choice([0.5, 1.0, 0.25])),
                a=float(r.choice([0.0, -1.0])))
    case.explicit_method = not (method == "heun" and r.integers(0, 2))
    if free:
        case.stepping = "adaptive" if r.integers(0, 2) else "initial"
        case.cfl = float(r.choice([0.5, 1.0, 0.25]))
        case.start = float(r.choice([0.0, 0.5]))
        speed = 1.0 if problem == "advection" else np.max(np.abs(u))
        case.stop = case.start + case.cfl * case.dx / (2 * p * p * speed) * float(r.choice([1.0, 2.0, 1.7]))
    else:
        case.cfl = 0.05 / p
        times(r, case, 1 if p > 2 else int(r.integers(1, 4)))
    return case


SWE_BCS = ["periodic", ("outflow", "outflow"), ("wall", "wall"), ("wall", "outflow"), ("inflow", "wall"),
           ("outflow", "inflow")]


def swe_case(r, k, scheme, method=None, bc=None, bottom=None, n=None, extreme=False, dry=0.0, steps=None, cfl=None, rest=None):
    n = n or int(r.integers(3, 7))
    method = "euler" if scheme.name == "lw" else method or list(ODE)[int(r.choice([0, 1, 1, 2, 2, 3]))]
    bc = bc or SWE_BCS[k % len(SWE_BCS)]
    if extreme:
        u = gen.swe_data(r, n, dry=dry)
    else:
        u = np.stack([r.uniform(0.8, 1.6, n), r.uniform(-0.4, 0.4, n)], axis=1)
    flat = scheme.name == "lw" or (gen.mix(k, 3, "flat") == 0 if bottom is None else not bottom)
    b = np.full(n, float(r.choice([0.0, 0.5]))) if flat else gen.bottom(r, n, 0.3)
    case = Case("swe", scheme.name, u, sub=scheme.sub, gamma=scheme.gamma, options=dict(scheme.kw), method=method, bc=bc,
                dx=float(r.choice([0.5, 1.0, 0.25])), g=float(r.choice([1.0, 9.812, 2.0])), bottom=b,
                a=float(r.choice([0.0, -2.0])))
    case.inl = [1.0, 0.1, 0.05, 0.2] if bc[0] == "inflow" else None
    case.inr = [1.2, -0.1, 0.1, 0.1] if bc[1] == "inflow" else None
    c = np.max(np.abs(np.divide(u[:, 1], u[:, 0], out=np.zeros(n), where=u[:, 0] > 0)) + np.sqrt(case.g * u[:, 0]))
    c = max(c, 2 * np.sqrt(case.g)) if case.inl or case.inr else max(c, 1e-3)
    case.cfl = float(cfl or r.choice([0.1, 0.2])) / c
    case.explicit_method = not (method == "heun" and r.integers(0, 2))
    if gen.mix(k, 4, "inside") == 0:
        case.inside = (k, 0.2, [None, None, None if not flat else 0])
    return times(r, case, steps or (1 if method == "rk8" else int(r.integers(1, 4))), rest)


# ------------------------------------------------------------- large meshes
LARGE = [("scalar", "llf"), ("scalar", "central"), ("scalar", "mcl-fv"), ("fem", "cg"), ("fem", "cg-low"), ("fem", "mcl-fem")]


def large(r, k, kind, cells=None, **kw):
    """One or two steps on a mesh of hundreds of cells: LARGE, or a scheme of the shallow water equations."""
    cells = cells or int(r.choice([520, 521, 640]))
    if isinstance(kind, Scheme):
        case = swe_case(r, k, kind, method=["euler", "heun"][gen.mix(k, 2, "large")], n=cells, steps=1, **kw)
    elif kind[0] == "scalar":
        case = scalar_case(r, k, kind[1], method=["euler", "heun"][gen.mix(k, 2, "large")], n=cells, **kw)
        case.u = r.uniform(-1, 1, cells)
        times(r, case, 1)
    else:
        case = fem_case(r, k, kind[1], p=1, n=int(r.integers(110, 140)), **kw)
    case.inside = None
    return case
