// C02: bound preserving schemes obey the discrete maximum principle.
module C02 {
  import prelude.* from "./prelude"
  import boundary.* from "./boundary"
  import mesh.* from "./mesh"
  import scalarfv.* from "./scalarfv"
  import fem.* from "./fem"
  import runs.* from "./runs"

  type St = { r: Run, x: Vec, t: int }
  pure val ST0: St = { r: NO_RUN, x: [], t: 0 }
  pure def bounding(r: Run): bool = r.scheme.name == "llf" or r.scheme.name == "mcl-fv"
    or r.scheme.name == "cg-low" or r.scheme.name == "mcl-fem"

  // cells with the cells beyond the boundary, during a step (inflow is affine in time)
  pure def ghosts(r: Run, x: Vec, t: int): Vec =
    padded(r.cl, r.cr, x, 1, y => y, inflowAt(r.inL, t).h, inflowAt(r.inR, t).h)
  pure def boundaryData(r: Run, x: Vec, t: int, dt: int): Vec =
    if (r.family == "fem") x else ghosts(r, x, t).concat(ghosts(r, x, t + dt))

  // largest step size for which the scheme is a convex combination
  pure def limit(r: Run, x: Vec, t: int, dt: int): int =
    if (r.family == "fem") {
      if (r.method == "euler") femOptimal(r.problem, r.fem, x)
      else femOptimal(r.problem, r.fem, fill(x.length(), maxabs(x)))
    } else {
      val d = boundaryData(r, x, t, dt)
      val c = d.foldl(0, (m, y) => imax(m, iabs(charSpeed(r.problem, y))))
      if (c == 0) NAN else div(r.scheme.dx, 2 * c)
    }
  // values among which a new value must lie
  pure def lower(r: Run, x: Vec, t: int, dt: int, i: int, d: int): int =
    if (r.method != "euler") bound(boundaryData(r, x, t, dt), d)
    else if (r.family == "fem")
      feNeighbours(r.fem.n, r.fem.p, true, i).fold(x[i], (m, j) => pick(d, m, x[j]))
    else { val p = ghosts(r, x, t) pick(d, x[i], pick(d, p[i], p[i + 2])) }
  pure def bound(v: Vec, d: int): int = v.foldl(v[0], (m, y) => pick(d, m, y))

  pure def judge(st: St, e: Ev): { st: St, vs: List[Verdict] } = {
    val v = dec(e.d)
    if (e.k == "config") { st: { r: runOf(e.s, v), x: [], t: 0 }, vs: [] }
    else if (e.k == "init") { st: { ...st, x: v[1], t: v[0][0] }, vs: [] }
    else if (e.k == "record") {
      val r = st.r
      val dt = v[0][1]
      val lim = limit(r, st.x, st.t, dt)
      val admissible = bounding(r) and dt <= lim + lim / 2^40
      val tol = (ONE + maxabs(st.x)) / 2^40
      val inside = sameLen(v[1], st.x) and allFin(v[1]) and every(st.x.length(), i =>
          v[1][i] <= lower(r, st.x, st.t, dt, i, 1) + tol and v[1][i] >= lower(r, st.x, st.t, dt, i, -1) - tol)
      { st: { ...st, x: v[1], t: v[0][0] },
        vs: List(chk("the step respects the CFL restriction", admissible or r.stepping == "initial"))
          .concat(chkIf(admissible and r.method == "euler", "a forward Euler step keeps every value between those of its neighbours", inside))
          .concat(chkIf(admissible and r.method != "euler", "a step keeps all values in the range of the old ones", inside)) }
    }
    else if (e.k == "end") { st: st, vs: [] }
    else { st: st, vs: List(chk("unknown event", false)) }
  }
}
