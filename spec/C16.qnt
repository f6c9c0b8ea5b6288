// C16: errors, orders of convergence, error evolutions.
module C16 {
  import prelude.* from "./prelude"
  import calculus.* from "./calculus"
  import mesh.* from "./mesh"
  import fem.* from "./fem"
  import errors.* from "./errors"

  // a refinement study: degrees of freedom and errors of the levels so far
  type St = { dofs: Vec, errs: List[Vec], eocs: List[Vec], entries: int, ok: List[int] }
  pure val ST0: St = { dofs: [], errs: [], eocs: [], entries: 0, ok: [] }

  pure def settingOf(v: Vec): Setting = { a: v[0], dx: v[1], n: v[2], p: v[3], q: v[4] }
  pure def fine(a: int, b: int, scale: int): bool = near(a, b, tolAt(scale, 30))
  // orders expected from the errors of two levels; undefined if an error vanishes
  pure def orderOk(old: int, new: int, seen: int): bool =
    if (old <= 0 or new <= 0) true else near(log2(div(old, new)), seen, ONE / 2^18)
  // text shows the value with three significant digits, or two decimals
  pure def showsError(x: int, shown: int): bool = near(x, shown, iabs(x) / 180)
  pure def showsOrder(x: int, shown: int): bool =
    if (isFin(x)) near(x, shown, ONE / 190) else not(isFin(shown))
  // largest entry of plotted data at each time
  pure def peakAt(xs: Vec, ys: Vec, t: int): int =
    range(0, xs.length()).foldl(-NAN, (m, i) => if (near(xs[i], t, ONE / 2^36)) imax(m, ys[i]) else m)
  pure def leastAt(xs: Vec, ys: Vec, t: int): int =
    range(0, xs.length()).foldl(NAN, (m, i) => if (near(xs[i], t, ONE / 2^36)) imin(m, ys[i]) else m)
  pure def averageAt(runs: List[{ t: Vec, e: Vec }], z: int): int =
    fdiv(runs.foldl(0, (s, r) => s + linear(r.t, r.e, z)), runs.length())
  pure def largestAt(runs: List[{ t: Vec, e: Vec }], z: int): int =
    runs.foldl(-NAN, (s, r) => imax(s, linear(r.t, r.e, z)))

  pure def judge(st: St, e: Ev): { st: St, vs: List[Verdict] } = {
    val v = dec(e.d)
    if (e.k == "error") {
      // [a, dx, n, p, q], polynomial, values, [time of the solution, time, error]
      val x = errorAgainst(e.s[0], settingOf(v[0]), v[1], v[2])
      { st: st, vs: List(
        chk("the time of an error is the time of the solution", v[3][0] == v[3][1]),
        chk("an error is the norm of the difference to the exact solution", fine(x, v[3][2], maxabs(v[1]) * 8 + maxabs(v[2])))) }
    }
    else if (e.k == "distance") {
      // [a, dx, n, p, q], values, values, [time of the second, time, distance, other way round, distance to itself]
      val x = errorBetween(e.s[0], settingOf(v[0]), v[1], v[2])
      { st: st, vs: List(
        chk("the time of an error is the time of the solution", v[3][0] == v[3][1]),
        chk("an error is the norm of the difference of two discrete solutions", fine(x, v[3][2], maxabs(v[1]) + maxabs(v[2]))),
        chk("the error between two discrete solutions is symmetric", v[3][2] == v[3][3]),
        chk("identical solutions have error zero", v[3][4] == 0),
        chk("different solutions have an error", v[1] == v[2] or v[3][2] > 0)) }
    }
    else if (e.k == "study") // a new refinement study
      { st: { dofs: [], errs: [], eocs: [], entries: 0, ok: [] }, vs: [] }
    else if (e.k == "level") {
      // [a, dx, n, p, q], polynomial, values, [dofs], errors L1 L2 Linf, orders
      val s = settingOf(v[0])
      val scale = maxabs(v[1]) * 8 + maxabs(v[2])
      val first = st.errs.length() == 0
      { st: st.with("dofs", st.dofs.append(v[3][0])).with("errs", st.errs.append(v[4])).with("eocs", st.eocs.append(v[5])),
        vs: List(
          chk("degrees of freedom of a refinement", v[3][0] == v[2].length() * ONE),
          chk("errors of a refinement study", v[4].length() == 3
            and fine(errorAgainst("L1", s, v[1], v[2]), v[4][0], scale)
            and fine(errorAgainst("L2", s, v[1], v[2]), v[4][1], scale)
            and fine(errorAgainst("Linf", s, v[1], v[2]), v[4][2], scale)),
          chk("an order needs two levels", not(first) or vevery(v[5], x => not(isFin(x)))),
          chk("the order is the binary logarithm of the error ratio",
            first or every(3, i => orderOk(st.errs[st.errs.length() - 1][i], v[4][i], v[5][i])))) }
    }
    else if (e.k == "shape") // expected and found
      { st: st, vs: List(chk("shape of the results", v[0] == v[1])) }
    else if (e.k == "row") {
      // [index of the row, number of rows], shown numbers: dofs, (error, order) per norm
      val i = v[0][0]
      val ok = i < st.dofs.length() and v[0][1] == st.dofs.length() and v[1].length() == 7
      { st: st, vs: List(
        chk("the table has one row per refinement", ok),
        chk("the table shows the degrees of freedom", ok and v[1][0] == st.dofs[i]),
        chk("the table shows the errors", ok and every(3, j => showsError(st.errs[i][j], v[1][1 + 2 * j]))),
        chk("the table shows the orders", ok and every(3, j => showsOrder(st.eocs[i][j], v[1][2 + 2 * j])))) }
    }
    else if (e.k == "names") // expected, found
      { st: st, vs: List(chk("names of the norms and titles", e.s[0] == e.s[1])) }
    else if (e.k == "evolution") {
      // [a, dx, n, p, q], times, times of the reference, times and errors returned, values..., values of the reference...
      val s = settingOf(v[0])
      val m = v[1].length()
      val k = v[2].length()
      val u = v.slice(5, 5 + m)
      val w = v.slice(5 + m, 5 + m + k)
      val ok = v[4].length() == v[3].length()
      val times = if (m > k) v[3] == v[1] else if (m < k) v[3] == v[2] else v[3] == v[1] or v[3] == v[2]
      { st: st, vs: List(
        chk("the error evolution is taken at the times of the longer run", times and ok),
        chk("the error evolution is the relative error at each time", not(ok) or every(v[3].length(), i => {
          val x = relativeAt(s, e.s[0], v[1], u, v[2], w, v[3][i])
          near(x, v[4][i], tolAt(x, 28))
        }))) }
    }
    else if (e.k == "plotted") // expected times and errors, plotted ones
      { st: st, vs: List(chk("plotted error evolutions are the computed ones",
        agreeTol(v[0], v[2], ONE / 2^40) and agreeTol(v[1], v[3], tolAt(maxabs(v[1]), 40)))) }
    else if (e.k == "average") {
      // times, mean; corners of the band; then times and errors of every run
      val runs = range(0, (v.length() - 4) / 2).foldl([], (acc, i) => acc.append({ t: v[4 + 2 * i], e: v[5 + 2 * i] }))
      val least = runs.foldl(runs[0].t.length(), (m, r) => imin(m, r.t.length()))
      val scale = runs.foldl(0, (m, r) => imax(m, maxabs(r.e)))
      val short = runs.foldl(false, (found, r) => found or (r.t.length() == least and r.t == v[0]))
      val ok = v[0].length() == v[1].length()
      { st: st, vs: List(
        chk("averages are taken at the times of the shortest run", short and ok),
        chk("the average is the mean over the runs", not(ok) or every(v[0].length(), i => near(averageAt(runs, v[0][i]), v[1][i], tolAt(scale, 34)))),
        chk("the band reaches from the mean to the largest error", every(v[0].length(), i =>
          near(peakAt(v[2], v[3], v[0][i]), largestAt(runs, v[0][i]), tolAt(scale, 34))
            and near(leastAt(v[2], v[3], v[0][i]), averageAt(runs, v[0][i]), tolAt(scale, 34))))) }
    }
    else if (e.k == "series") // a new series
      { st: ST0, vs: [] }
    else if (e.k == "problem") // a drawn problem: [fails]; expected and actual problem
      { st: if (v[0][0] == 0) st.with("ok", st.ok.append(st.entries)).with("entries", st.entries + 1) else st.with("entries", st.entries + 1),
        vs: List(chk("a series draws its problems from the seeded generator", v[1] == v[2])) }
    else if (e.k == "outcome") // [problems wanted], number of entries (times, errors)
      { st: st, vs: List(
        chk("a series goes through all problems", st.entries == v[0][0]),
        chk("a series keeps one entry per successful run", vevery(v[1], x => x == st.ok.length()))) }
    else // "raised"
      { st: st, vs: List(chk(e.s[0], false)) }
  }
}
