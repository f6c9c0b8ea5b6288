// A solver run: a state vector advanced by a Runge-Kutta method applied to a scheme.
// Used by the checks which look at whole trajectories.
module runs {
  import prelude.* from "./prelude"
  import boundary.* from "./boundary"
  import scalarfv.* from "./scalarfv"
  import swe.* from "./swe"
  import fem.* from "./fem"
  import ode.* from "./ode"

  // value at time t of inflow data  a + b t  (heights, discharges)
  type Inflow = { a: Cell, b: Cell }
  pure def inflowAt(i: Inflow, t: int): Cell = { h: i.a.h + mul(i.b.h, t), q: i.a.q + mul(i.b.q, t) }

  // family: "scalar" (finite volumes), "swe", "fem"
  type Run = { family: str, problem: str, scheme: Scheme, method: str, cl: str, cr: str,
    inL: Inflow, inR: Inflow, bottom: Vec, fem: Fem,
    start: int, stop: int, cfl: int,
    stepping: str, // "mesh": step length; "initial", "adaptive": optimal step of initial or current state
    full: int,     // the full step as long as it is fixed
    deg: int }     // solutions are shown as averages over deg cells

  pure val NO_INFLOW: Inflow = { a: ZERO, b: ZERO }
  pure val NO_FEM: Fem = { n: 0, p: 0, mass: [], inv: [], grad: [], lumped: [] }
  pure val NO_RUN: Run = { family: "", problem: "", scheme: { name: "", sub: "", g: 0, dx: ONE, dt: 0, gamma: 0 },
    method: "", cl: "", cr: "", inL: NO_INFLOW, inR: NO_INFLOW, bottom: [], fem: NO_FEM,
    start: 0, stop: 0, cfl: 0, stepping: "mesh", full: 0, deg: 1 }

  // s: family, scheme, base scheme, problem, method, conditions, stepping
  // v: [g, dx, gamma, start, stop, cfl], [n, p, coarsening degree], bottom, inflow left (a.h a.q b.h b.q), right
  pure def inflowOf(w: Vec): Inflow = { a: { h: w[0], q: w[1] }, b: { h: w[2], q: w[3] } }
  pure def runOf(s: List[str], v: List[Vec]): Run = {
    family: s[0], problem: s[3], method: s[4], cl: s[5], cr: s[6], stepping: s[7],
    scheme: { name: s[1], sub: s[2], g: v[0][0], dx: v[0][1], dt: 0, gamma: v[0][2] },
    start: v[0][3], stop: v[0][4], cfl: v[0][5], bottom: v[2], inL: inflowOf(v[3]), inR: inflowOf(v[4]),
    fem: if (s[0] == "fem") femOf(v[1][0], v[1][1], v[0][1]) else NO_FEM,
    full: mul(v[0][5], v[0][1]), deg: v[1][2] }

  // shallow water states are heights followed by discharges
  pure def flat2(c: List[Cell]): Vec = heights(c).concat(discharges(c))
  pure def unflat(x: Vec): List[Cell] = cells(x.slice(0, x.length() / 2), x.slice(x.length() / 2, x.length()))

  pure def rhs(r: Run, dt: int, t: int, x: Vec): Vec =
    if (r.family == "fem") femRhs(r.scheme.name, r.problem, r.fem, x)
    else if (r.family == "scalar") scalarRhs(r.scheme.name, r.problem, r.cl, r.cr, x, r.scheme.dx,
      inflowAt(r.inL, t).h, inflowAt(r.inR, t).h)
    else flat2(sweRhs({ ...r.scheme, dt: dt }, r.cl, r.cr, unflat(x), r.bottom, inflowAt(r.inL, t), inflowAt(r.inR, t)))

  // one step of the Runge-Kutta method
  pure def step(r: Run, t: int, dt: int, x: Vec): Vec = {
    val m = tableau(r.method)
    val k = range(0, m.b.length()).foldl([], (k, i) =>
      k.append(rhs(r, dt, stageTime(m, t, dt, i), stageValue(m, x, dt, k, i))))
    endValue(m, x, dt, k)
  }
  // size of the next step from a state
  pure def fullStep(r: Run, x: Vec): int =
    if (r.stepping == "mesh") mul(r.cfl, r.scheme.dx)
    else if (r.stepping == "initial") r.full
    else mul(r.cfl, femOptimal(r.problem, r.fem, x))
  pure def begin(r: Run, x: Vec): Run =
    if (r.stepping == "initial") { ...r, full: mul(r.cfl, femOptimal(r.problem, r.fem, x)) } else r

  // what the run shows of a state
  pure def averaged(v: Vec, d: int): Vec = if (d == 1) v else
    inner(v.length() / d, i => range(0, d).foldl(0, (a, j) => a + v[d * i + j]) / d)
  pure def shown(r: Run, x: Vec): Vec =
    if (r.deg == 1) x
    else if (r.family == "swe") averaged(x.slice(0, x.length() / 2), r.deg).concat(averaged(x.slice(x.length() / 2, x.length()), r.deg))
    else averaged(x, r.deg)
}
