// C18: solvers made of a base scheme and a modification of it.
module C18 {
  import prelude.* from "./prelude"
  import swe.* from "./swe"
  import runs.* from "./runs"
  import corrections.* from "./corrections"

  // x: state on the mesh of the base scheme, seen: records so far
  type St = { how: Run, net: Net, x: Vec, t: int }
  pure val ST0: St = { how: NO_RUN, net: NO_NET, x: [], t: 0 }

  pure def netOf(cells: int, w: Vec, v: Vec): Net = { cells: cells, w: w, v: v }
  // networks work in single precision
  pure def bits(n: Net): int = if (n.cells == 0) 26 else 19
  pure def agreeCells(a: List[Cell], h: Vec, q: Vec, k: int): bool = agreeK(heights(a), h, k) and agreeK(discharges(a), q, k)
  pure def lefts(n: List[Node]): List[Cell] = n.foldl([], (a, x) => a.append(x.l))
  pure def rights(n: List[Node]): List[Cell] = n.foldl([], (a, x) => a.append(x.r))
  pure def rowOf(p: List[Cell], i: int, k: int): Vec = inner(2 * k, j => inputOf(p, 2 * i + j))
  pure def gather(p: List[Cell], k: int): Vec =
    range(0, p.length() - k + 1).foldl([], (a, i) => a.concat(rowOf(p, i, k)))

  // curvature of the parabola through three values in a distance of h: |u''| / (1 + u'^2)^(3/2), in units of h
  pure def curvature(h: int, x: Vec, i: int): int = {
    val slope = x[i] - x[i + 4]
    val q = mul(h, h) + mul(slope, slope) / 4
    div(mul(iabs(x[i] - 2 * x[i + 2] + x[i + 4]), h), mul(q, sqrt(q)))
  }

  pure def judge(st: St, e: Ev): { st: St, vs: List[Verdict] } = {
    val v = dec(e.d)
    if (e.k == "config") {
      // run as in runs.qnt; then [cells], w, v of the network
      { st: { how: runOf(e.s, v), net: netOf(v[5][0], v[6], v[7]), x: [], t: 0 }, vs: [] }
    }
    else if (e.k == "init") {
      // [time], shown state, state of the problem on the base mesh, [cells shown]
      val x = v[2]
      { st: st.with("x", x).with("t", v[0][0]), vs: List(
        chk("a run starts at the start time", v[0][0] == st.how.start),
        chk("the size of the mesh shown", v[3][0] * 2 * st.how.deg == x.length()),
        chk("initially the (averaged) data of the problem is shown", agreeK(v[1], shown(st.how, x), 30))) }
    }
    else if (e.k == "record") { // [time, step], shown state
      val x = correctedStep(st.how, st.net, st.t, v[0][1], st.x)
      val exact = st.how.deg == 1
      { st: st.with("x", if (exact and v[1].length() == x.length()) v[1] else x).with("t", v[0][0]), vs: List(
        chk("steps lead from record to record", near(v[0][0], st.t + v[0][1], tolAt(v[0][0], 40))),
        chk("states follow base flux plus correction", agreeK(v[1], shown(st.how, x), bits(st.net)))) }
    }
    else if (e.k == "predicted") { // [time, step], state, correction at the nodes (heights, discharges)
      val x = givenStep(st.how, cells(v[2], v[3]), st.t, v[0][1], st.x)
      { st: st.with("x", v[1]).with("t", v[0][0]), vs: List(
        chk("states follow base flux plus the network's prediction", agreeK(v[1], x, 15))) }
    }
    else if (e.k == "end") // [time]
      { st: st, vs: List(chk("a run ends at the end time", near(v[0][0], st.how.stop, tolAt(st.how.stop, 40)))) }
    else if (e.k == "asked") { // [cells], inputs of a network for the current state
      val p = surroundings(st.how, st.t, st.x, v[0][0] / 2)
      { st: st, vs: List(chk("networks are asked about the surrounding cells", agreeK(v[1], gather(p, v[0][0]), 20))) }
    }
    else if (e.k == "loads") // [number]
      { st: st, vs: List(chk("networks are loaded once, when first needed", v[0][0] == v[0][1])) }
    else if (e.k == "flux") {
      // config of the run; p: heights, discharges with ghosts cells; bottom with one; fluxes
      // [network cells], w, v; [ghosts]
      val r = runOf(e.s, v)
      val n = netOf(v[5][0], v[6], v[7])
      val g = v[8][0]
      val p = cells(v[9], v[10])
      val base = nodesOf(r.scheme, p.slice(g - 1, p.length() - g + 1), bottomPadded(r.bottom), r.cl == "periodic")
      val all_ = if (n.cells == 0) base
        else corrected(base, predictions(n, p.slice(g - n.cells / 2, p.length() - g + n.cells / 2)))
      { st: st, vs: List(
        chk("node fluxes are base flux plus correction (left)", agreeCells(lefts(all_), v[11], v[12], bits(n))),
        chk("node fluxes are base flux plus correction (right)", agreeCells(rights(all_), v[13], v[14], bits(n)))) }
    }
    else if (e.k == "sum") { // base left, right, correction left, right, corrected left, right
      { st: st, vs: List(
        chk("corrected fluxes are sums", agreeK(vadd(v[0], v[2]), v[4], 44) and agreeK(vadd(v[1], v[3]), v[5], 44))) }
    }
    else if (e.k == "dimension") // [base, correction, found]
      { st: st, vs: List(chk("a corrected flux asks for the larger neighbourhood", v[0][2] == imax(v[0][0], v[0][1]))) }
    else if (e.k == "centred") // expected inputs, found inputs
      { st: st, vs: List(chk("base and correction see the centred inputs", v[0] == v[1])) }
    else if (e.k == "skew") // left, right
      { st: st, vs: List(chk("corrections are skew-symmetric", v[0].length() > 0 and v[0] == vneg(v[1]))) }
    else if (e.k == "slope") // [gamma, dx], left values, right values, flux left, flux right
      { st: st, vs: List(
        chk("the antidiffusive flux is gamma times the slope", agreeK(v[4],
          mapi(v[1].length(), i => mul(v[0][0], div(v[2][i] - v[1][i], v[0][1]))), 40)),
        chk("corrections are skew-symmetric", v[3].length() > 0 and v[3] == vneg(v[4]))) }
    else if (e.k == "curvature") { // [step length], rows of four states, the same with curvatures
      val m = v[1].length() / 8
      { st: st, vs: List(
        chk("curvatures are appended to the inputs", v[2].length() == 10 * m and m > 0 and
          every(m, i => each(8, j => v[2][10 * i + j] == v[1][8 * i + j]))),
        chk("curvatures are those of the two triples", v[2].length() == 10 * m and every(m, i => each(2, j => {
          val c = (curvature(v[0][0], v[1], 8 * i + j) + curvature(v[0][0], v[1], 8 * i + j + 2)) / 2
          near(v[2][10 * i + 8 + j], c, iabs(c) / 2^36 + ONE / 2^44) })))) }
    }
    else if (e.k == "alike") // two things which must be the same
      { st: st, vs: List(chk(e.s[0], v[0].length() > 0 and agreeK(v[0], v[1], 40))) }
    else { st: st, vs: [chk("harness: unknown event", false)] }
  }
}
