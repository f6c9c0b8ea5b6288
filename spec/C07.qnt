// C07: time integrators.  The state machine holds the clock and the solution of
// one integrator; the right-hand side is whatever the driver returned (logged).
module C07 {
  import prelude.* from "./prelude"
  import ode.* from "./ode"

  type St = { m: str, t: int, x: Vec }
  pure val ST0: St = { m: "euler", t: 0, x: [] }
  // coefficients of the eleven-stage method reach 30: 2^-36 relative
  pure def tight(scale: int): int = tolAt(scale, 36)
  pure def eqv(a: Vec, b: Vec, scale: int): bool = agreeTol(a, b, tight(scale)) and allFin(a) and allFin(b)

  pure def judge(st: St, e: Ev): { st: St, vs: List[Verdict] } = {
    val v = dec(e.d)
    if (e.k == "init" or e.k == "reinit")
      // v: initial value, initial time; published value and clock
      { st: { m: if (e.k == "init") e.s[0] else st.m, t: v[1][0], x: v[0] },
        vs: List(chk("a (re-)initialised integrator starts with the given value and time", v[2] == v[0] and v[3][0] == v[1][0])) }
    else if (e.k == "step") {
      // v: [step, clock after], value after, flattened [times asked], [published times],
      // then asked stage values, published stage values, derivatives (s vectors each)
      val tb = tableau(st.m)
      val s = tb.b.length()
      val dt = v[0][0]
      val shape = v.length() == 4 + 3 * s and v[2].length() == s and v[3].length() == s
      val asked = v.slice(4, imin(4 + s, v.length()))
      val published = if (shape) v.slice(4 + s, 4 + 2 * s) else []
      val k = if (shape) v.slice(4 + 2 * s, 4 + 3 * s) else []
      val scale = k.foldl(maxabs(st.x), (a, x) => imax(a, mul(iabs(dt), maxabs(x)) + maxabs(x)))
      val ok = shape and every(s, i => sameLen(k[i], st.x))
      val x1 = if (ok) endValue(tb, st.x, dt, k) else st.x
      { st: { ...st, t: v[0][1], x: v[1] },
        vs: List(
          chk("one evaluation of the right-hand side per stage", ok),
          chk("stage times", not(ok) or every(s, i => near(stageTime(tb, st.t, dt, i), v[2][i], tight(iabs(st.t) + iabs(dt))))),
          chk("stage values", not(ok) or every(s, i => eqv(stageValue(tb, st.x, dt, k, i), asked[i], scale))),
          chk("published stage times and values are those of the evaluations", not(ok) or (v[2] == v[3] and asked == published)),
          chk("new value is the Runge-Kutta step", ok and eqv(x1, v[1], scale)),
          chk("the clock advances by the step", near(st.t + dt, v[0][1], tight(iabs(st.t) + iabs(dt))))) }
    }
    else if (e.k == "tableau") {
      // rows of A, weights, nodes as observed through unit derivatives
      val tb = tableau(e.s[0])
      val s = tb.b.length()
      { st: st, vs: List(
        chk("number of stages", v.length() == s + 2),
        chk("coefficients of the tableau", v.length() == s + 2 and every(s, i => eqv(tb.a[i], v[i], 32 * ONE))),
        chk("weights of the tableau", v.length() == s + 2 and eqv(tb.b, v[s], ONE)),
        chk("nodes of the tableau", v.length() == s + 2 and eqv(tb.c, v[s + 1], ONE))) }
    }
    else if (e.k == "optimal")
      { st: st, vs: List(chk("integrator of continuous Galerkin spaces", e.s[0] == optimalMethod(v[0][0]))) }
    else // "untouched": value handed in before and after
      { st: st, vs: List(chk("initial values handed in are not modified", v[0] == v[1])) }
  }
}
