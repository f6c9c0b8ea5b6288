// C08: lives of discrete solutions.
module C08 {
  import prelude.* from "./prelude"
  import solution.* from "./solution"

  type St = Sol
  pure val ST0: St = newSolution(false, 1, 1, [0], 0)
  pure def dimensionOf(s: Sol): Vec =
    rowsBy(s.fine.length() / s.deg / s.cols, s.cols)
  pure def rowsBy(n: int, cols: int): Vec = if (cols == 1) [n] else [n, cols]

  // v: [degree, columns, time or step], value handed in, [clock], value, dimension,
  // times, steps, states (one vector each)
  pure def judge(st: St, e: Ev): { st: St, vs: List[Verdict] } = {
    val v = dec(e.d)
    if (e.k == "quiet") {
      // an update of which only the clock is read
      val x = update(st, v[1], v[0][2])
      { st: { ...x, time: v[2][0], times: x.times.replaceAt(x.times.length() - 1, v[2][0]) },
        vs: List(chk("clock", near(x.time, v[2][0], tolAt(maxabs(v[2]), 44)))) }
    } else if (e.k == "part") {
      // some of the recorded times, steps and states: v[0] = [first, number of all]
      val m = v.length() - 3
      { st: st, vs: List(
          chk("recorded times", v[0][1] == st.times.length() and v[1] == st.times.slice(v[0][0], v[0][0] + m)),
          chk("recorded steps", agreeK(stepsOf(st.times.slice(v[0][0], v[0][0] + m)), v[2], 44)),
          chk("recorded states", v[0][1] == st.shown.length() and every(m, i => agreeK(st.shown[v[0][0] + i], v[3 + i], 44)))) }
    } else
    val x = if (e.k == "new") newSolution(e.s[1] == "history", v[0][0], v[0][1], v[1], v[0][2])
      else if (e.k == "update") update(st, v[1], v[0][2])
      else if (e.k == "set") setValue(st, v[1], v[0][2])
      else st
    val accepted = e.k == "mutate" or e.k == "new" or finite(v[1])
    val eps = tolAt(imax(maxabs(v[2]), iabs(st.time)), 44)
    // follow the observed clock: rounding does not accumulate
    val y = if (e.k != "mutate" and accepted) { ...x, time: v[2][0], times: x.times.replaceAt(x.times.length() - 1, v[2][0]) } else x
    { st: y, vs: List(
        chk("non-finite values are rejected, others accepted", (e.s[0] == "accepted") == accepted),
        chk(if (not(accepted)) "a rejected value leaves the clock alone" else "clock", near(x.time, v[2][0], eps)),
        chk(if (not(accepted)) "a rejected value leaves the value alone" else
          if (e.k == "mutate") "value is not shared with the caller" else "value", agreeK(show(x, x.fine), v[3], 44)),
        chk("dimension", dimensionOf(x) == v[4])).concat(
      if (x.kept) List(
        chk(if (not(accepted)) "a rejected value leaves the recorded times alone" else "recorded times", y.times == v[5]),
        chk("recorded steps", agreeK(stepsOf(y.times), v[6], 44)),
        chk(if (not(accepted)) "a rejected value leaves the recorded states alone" else
          if (e.k == "mutate") "recorded states are not shared with the caller" else "recorded states",
          v.length() == 7 + y.shown.length() and every(y.shown.length(), i => agreeK(y.shown[i], v[7 + i], 44)))) else []) }
  }
}
