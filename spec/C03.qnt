// C03: time stepping.  Observed iterations are judged by timestepping.qnt; the
// clock of the specification follows the observed clock, which must agree with
// it up to rounding, so that rounding never accumulates.
module C03 {
  import prelude.* from "./prelude"
  import timestepping.* from "./timestepping"

  type St = { s: Stepping, calls: int, announced: int }
  pure val EPSILON: int = 1208925819614 // 1e-12
  pure val ST0: St = { s: newStepping(0, 0, 0, false, EPSILON), calls: 0, announced: -1 }

  pure def slop(s: Stepping): int = (ONE + iabs(s.start) + iabs(s.stop)) / 2^48
  pure def widen(s: Stepping, d: int): Stepping = { ...s, eps: s.eps + d }
  pure def fixFrom(s: Stepping, calls: Vec): Stepping = if (calls.length() == 0) s else fixStep(s, calls[0])
  pure def once(st: St, calls: Vec): List[Verdict] =
    chkIf(not(st.s.adaptive), "without adaptivity the optimal step is determined once", st.calls + calls.length() <= 1)

  pure def judge(st: St, e: Ev): { st: St, vs: List[Verdict] } = {
    val v = dec(e.d)
    if (e.k == "new") {
      val s = fixFrom(newStepping(v[0][0], v[0][1], v[0][2], e.s[0] == "adaptive", EPSILON), v[1])
      { st: { s: s, calls: v[1].length(), announced: -1 },
        vs: if (s.adaptive) [] else List(chk("without adaptivity the optimal step is determined once", v[1].length() <= 1)) }
    }
    else if (e.k == "iter")
      { st: { ...st, s: iter(fixFrom(st.s, v[1])), calls: st.calls + v[1].length() },
        vs: List(chk("iterating starts anew at the start time", v[0][0] == st.s.start and v[0][1] == 0)).concat(once(st, v[1])) }
    else if (e.k == "next") {
      // v[0] = [step, clock, count], v[1]: optimal steps determined during this call
      val s = fixFrom(st.s, v[1])
      val o = if (v[1].length() > 0) v[1][v[1].length() - 1] else 0
      def matches(d: int): bool = {
        val r = advanced(widen(s, d), o, mul)
        r.kind == e.s[0] and (if (r.kind == "step")
          near(r.step, v[0][0], slop(s)) and near(r.s.time, v[0][1], slop(s)) and v[0][2] == r.s.count
            and (r.s.done implies v[0][1] == s.stop)
          else v[0][1] == s.time and v[0][2] == s.count)
      }
      val full = mul(s.cfl, optimal(s, o))
      val r = advanced(if (matches(0)) s else if (matches(slop(s))) widen(s, slop(s)) else widen(s, -slop(s)), o, mul).s
      val fresh = s.adaptive and not(s.done) implies v[1].length() > 0
      { st: { ...st, s: { ...r, time: if (e.s[0] == "step") v[0][1] else s.time, eps: EPSILON, count: v[0][2] },
              calls: st.calls + v[1].length() },
        vs: List(
          chk("with adaptivity the optimal step is determined anew before each step", fresh),
          chk("steps, clock and counter follow the specification of the iterator", matches(0) or matches(slop(s)) or matches(-slop(s))))
          .concat(chkIf(e.s[0] == "step", "steps are positive and at most CFL number times optimal step",
            v[0][0] > 0 and v[0][0] <= full + full / 2^50))
          .concat(chkIf(e.s[0] == "stop", "iteration ends exactly at the end time", v[0][1] == s.stop))
          .concat(chkIf(e.s[0] == "stop" and st.announced >= 0,
            "the announced number of steps is the number made", if (s.adaptive) st.announced == 0 else st.announced == v[0][2]))
          .concat(once(st, v[1])) }
    }
    else if (e.k == "len") {
      val s = fixFrom(st.s, v[1])
      val full = mul(s.cfl, s.fixed)
      { st: { ...st, s: s, calls: st.calls + v[1].length(), announced: v[0][0] },
        vs: List(chk("announced number of steps", if (s.adaptive) v[0][0] == 0 else
          v[0][0] == announced(widen(s, -slop(s)), full) or v[0][0] == announced(widen(s, slop(s)), full)))
          .concat(once(st, v[1])) }
    }
    else if (e.k == "solved") {
      // [start, end, full step], times of the history, [time of the solution]
      val m = v[1].length()
      val t = tolAt(imax(iabs(v[0][0]), iabs(v[0][1])), 48)
      { st: st, vs: List(
        chk("a run records its start", v[1][0] == v[0][0]),
        chk("a run reaches the end time", near(v[1][m - 1], v[0][1], t) and v[2][0] == v[1][m - 1]),
        chk("a run's steps are full, but for the last one", every(m - 1, i =>
          v[1][i + 1] > v[1][i] and v[1][i + 1] - v[1][i] <= v[0][2] + t and (i < m - 2 implies near(v[1][i + 1] - v[1][i], v[0][2], t))))) }
    }
    else if (e.k == "dependent")
      { st: st, vs: List(chk("state dependent step uses current time and value", v[0] == v[2] and v[1] == v[3] and v[4] == v[5])) }
    else // "cfl": v[0] = step, v[1] = optimal step of each stage, v[2], v[3] = stage times and those asked for
      { st: st, vs: List(
        chk("CFL violations are reported exactly if a stage violates", (e.s[0] == "violated") == v[1].foldl(false, (a, o) => a or v[0][0] > o)),
        chk("CFL checker asks for the stage times and values", if (e.s[0] == "violated") v[3] == v[2].slice(0, v[3].length()) else v[2] == v[3]),
        chk("CFL checker asks with the stage values", e.s[0] == "violated" or v[4] == v[5])) }
  }
}
