// C09: a solver run is its integrator applied to its scheme, start to end.
module C09 {
  import prelude.* from "./prelude"
  import fem.* from "./fem"
  import runs.* from "./runs"

  // the run, its current state (the observed one if the run shows its state),
  // time, number of records
  type St = { r: Run, x: Vec, t: int, count: int }
  pure val ST0: St = { r: NO_RUN, x: [], t: 0, count: 0 }
  pure val EPSILON: int = 1208925819614 // 1e-12
  pure def slop(r: Run): int = (ONE + iabs(r.start) + iabs(r.stop)) / 2^44

  // initial data given by polynomials c0 + c1 x + c2 x^2 + c3 x^3: averages over
  // the cells and values at points
  pure def cubic(c: Vec, x: int): int = mul(mul(mul(c[3], x) + c[2], x) + c[1], x) + c[0]
  pure def antiderivative(c: Vec, x: int): int = mul(mul(mul(mul(c[3] / 4, x) + c[2] / 3, x) + c[1] / 2, x) + c[0], x)
  pure def cellAverages(c: Vec, a: int, h: int, n: int): Vec =
    mapi(n, i => div(antiderivative(c, a + (i + 1) * h) - antiderivative(c, a + i * h), h))

  pure def record(st: St, e: Ev, v: List[Vec]): { st: St, vs: List[Verdict] } = {
    // v: [time, step], state
    val dt = v[0][1]
    val x = step(st.r, st.t, dt, st.x)
    val want = imin(fullStep(st.r, st.x), st.r.stop - st.t)
    { st: { ...st, x: if (st.r.deg == 1) v[1] else x, t: v[0][0], count: st.count + 1 },
      vs: List(
        chk("a record is one step of the integrator applied to the scheme", agreeK(shown(st.r, x), v[1], 26)),
        chk("step size is CFL number times optimal step or the rest", near(dt, want, slop(st.r) + want / 2^30)),
        chk("clock advances by the step", near(v[0][0], st.t + dt, slop(st.r)))) }
  }

  pure def judge(st: St, e: Ev): { st: St, vs: List[Verdict] } = {
    val v = dec(e.d)
    if (e.k == "config") { st: { r: runOf(e.s, v), x: [], t: 0, count: 0 }, vs: [] }
    else if (e.k == "init") {
      // v: [time], shown state, state implied by the initial data, state which fixes the step size
      { st: { ...st, r: begin(st.r, v[3]), x: if (st.r.deg == 1) v[1] else v[2], t: v[0][0], count: 0 },
        vs: List(chk("a run starts at the start time", v[0][0] == st.r.start),
          chk("a run starts with the averages or nodal values of the initial data", agreeK(shown(st.r, v[2]), v[1], 40))) }
    }
    else if (e.k == "poly") // [a, h, n as real], cubics, observed averages or nodal values
      { st: st, vs: List(chk("initial values of polynomial data", agreeK(
          if (e.s[0] == "averages") cellAverages(v[1], v[0][0], v[0][1], v[2][0])
          else mapi(v[2][0], i => cubic(v[1], v[0][0] + i * v[0][1])), v[3], 36))) }
    else if (e.k == "record") record(st, e, v)
    else if (e.k == "end") // [time]
      { st: st, vs: List(chk("a run ends exactly at the end time", near(v[0][0], st.r.stop, slop(st.r)) and near(st.t, st.r.stop, slop(st.r)))) }
    else if (e.k == "stopped") // how, whether all records are finite, whether the solution shows the last one
      { st: st, vs: List(
        chk("a run which becomes non-finite is stopped with an error", e.s[0] != "none"),
        chk("the last finite state is kept", e.s[1] == "finite" and e.s[2] == "current")) }
    else if (e.k == "same") // two trajectories
      { st: st, vs: List(chk(e.s[0], v.length() % 2 == 0 and every(v.length() / 2, i =>
          agreeK(v[i], v[v.length() / 2 + i], 30)))) }
    else { st: st, vs: List(chk("unknown event", false)) }
  }
}
