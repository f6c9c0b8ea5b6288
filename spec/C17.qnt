// C17: the problems the code is run on.
module C17 {
  import prelude.* from "./prelude"
  import elementary.* from "./elementary"

  type St = { table: Vec }
  pure val ST0: St = { table: [] }

  pure def fine(a: int, b: int): bool = near(a, b, tolAt(b, 20))
  // between the smallest and the largest of the values
  pure def within(x: int, v: Vec): bool =
    isFin(x) and allFin(v) and x >= minv(v) - ONE / 2^40 and x <= maxv(v) + ONE / 2^40
  pure def same(a: Vec, b: Vec): bool = sameLen(a, b) and allFin(a) and allFin(b) and agreeTol(a, b, 0)
  pure def alike(a: Vec, b: Vec): bool = agreeK(a, b, 30)

  // energy per mass: u^2 / 2 + g (h + b)
  pure def energy(g: int, h: int, q: int, b: int): int = sq(div(q, h)) / 2 + mul(g, h + b)
  // mean + amplitude * sin(2 pi k x / L + shift), parameters [mean, amplitude, shift, k]
  pure def wave(p: Vec, l: int, x: int): int =
    p[0] + mul(p[1], sinOf(div(2 * mul(mul(p[3], PI), x), l) + p[2]))

  pure def damHolds(d: Dam, hm: int, xi: int, h: int, q: int): bool = {
    val cl = celerity(d, d.hl)
    val c = celerity(d, h)
    val um = boreVelocity(d, hm)
    val foot = um - celerity(d, hm)
    val s = boreSpeed(d, hm)
    val gap = ONE / 2^16 // undecided next to the fronts
    if (xi < -cl - gap) fine(h, d.hl) and fine(q, 0)
    else if (xi > -cl + gap and xi < foot - gap) {
      val u = div(q, h)
      near(u - c, xi, tolAt(cl, 18)) and near(u + 2 * c, 2 * cl, tolAt(cl, 18))
    }
    else if (xi > foot + gap and xi < s - gap) near(h, hm, tolAt(d.hl, 18)) and near(q, mul(hm, um), tolAt(mul(d.hl, cl), 18))
    else if (xi > s + gap) fine(h, d.hr) and fine(q, 0)
    else true
  }

  pure def judge(st: St, e: Ev): { st: St, vs: List[Verdict] } = {
    val v = dec(e.d)
    if (e.k == "table") { st: { table: v[0] }, vs: [] } // values at j / 64
    else if (e.k == "shifted") // [j], [m], values at place j / 64 and time m / 64
      { st: st, vs: List(chk("advected data moves with unit speed",
        every(v[0].length(), i => isFin(v[2][i]) and v[2][i] == st.table[wrap(v[0][i] - v[1][i], 64)]))) }
    else if (e.k == "moved") // [x, t, origin], value, values next to the origin
      { st: st, vs: List(
        chk("harness: the origin of a wave", near(fmod(v[0][2] - origin(v[0][0], v[0][1]) + HALF, ONE), HALF, ONE / 2^44)),
        chk("advected data moves with unit speed", within(v[1][0], v[2]))) }
    else if (e.k == "start") // exact solution at the start, initial data
      { st: st, vs: List(chk("an exact solution starts as the initial data", agreeK(v[0], v[1], 24))) }
    else if (e.k == "characteristic") // [x, t, value, foot, value at the foot]
      { st: st, vs: List(
        chk("harness: the foot of a characteristic", not(isFin(v[0][2])) or near(v[0][3], v[0][0] - mul(v[0][2], v[0][1]), ONE / 2^36)),
        chk("values are carried along characteristics", near(v[0][2], v[0][4], ONE / 2^20))) }
    else if (e.k == "order") // initial places and values, in this order: [t], values
      { st: st, vs: List(chk("characteristics do not cross",
        every(v[1].length() - 1, i => v[1][i] - mul(v[0][0], v[2][i]) < v[1][i + 1] - mul(v[0][0], v[2][i + 1])))) }
    else if (e.k == "shock") { // [dx, end time, refused], values on a fine grid
      val tc = crossing(v[1], v[0][0])
      { st: st, vs: List(chk("exact solutions are refused after shock formation",
        if (v[0][1] > tc + tc / 200) v[0][2] == ONE else if (v[0][1] < tc - tc / 200) v[0][2] == 0 else true)) }
    }
    else if (e.k == "steady") // [g], heights, discharges, bottoms
      { st: st, vs: List(
        chk("heights are positive", vevery(v[1], h => isFin(h) and h > 0)),
        chk("a steady discharge is constant", allFin(v[2]) and vevery(v[2], q => fine(q, v[2][0]))),
        chk("a steady state balances kinetic and potential energy", allFin(v[3])
          and every(v[1].length(), i => near(energy(v[0][0], v[1][i], v[2][i], v[3][i]), energy(v[0][0], v[1][0], v[2][0], v[3][0]),
            tolAt(energy(v[0][0], v[1][0], v[2][0], v[3][0]), 18))))) }
    else if (e.k == "level") // expected discharge and energy, found: [g, h, q, b]
      { st: st, vs: List(chk("a steady state has the discharge and energy asked for",
        fine(v[1][2], v[0][0]) and near(energy(v[1][0], v[1][1], v[1][2], v[1][3]), v[0][1], tolAt(v[0][1], 18)))) }
    else if (e.k == "dam") { // [hl, hr, g, dam, t], places, heights, discharges
      val d = { hl: v[0][0], hr: v[0][1], g: v[0][2] }
      val hm = middle(d)
      { st: st, vs: List(
        chk("heights are positive", vevery(v[2], h => isFin(h) and h > 0)),
        chk("a dam break is a rarefaction followed by a bore", allFin(v[3]) and every(v[1].length(), i =>
          damHolds(d, hm, div(v[1][i] - v[0][3], v[0][4]), v[2][i], v[3][i])))) }
    }
    else if (e.k == "released") // [hl, hr, dam], places, heights, discharges
      { st: st, vs: List(chk("a dam break starts from two heights at rest", every(v[1].length(), i =>
        v[3][i] == 0 and (v[1][i] == v[0][2] or v[2][i] == (if (v[1][i] < v[0][2]) v[0][0] else v[0][1]))))) }
    else if (e.k == "oscillation") // [length], [height: mean, amplitude, shift, number], [velocity], places, heights, discharges
      { st: st, vs: List(
        chk("heights oscillate as given", every(v[3].length(), i => near(v[4][i], wave(v[1], v[0][0], v[3][i]), tolAt(v[1][0], 36)))),
        chk("velocities oscillate as given", every(v[3].length(), i =>
          near(v[5][i], mul(v[4][i], wave(v[2], v[0][0], v[3][i])), tolAt(v[1][0], 34))))) }
    else if (e.k == "kept") // given, found
      { st: st, vs: List(chk("explicit parameters are kept", near(v[0][0], v[1][0], ONE / 2^70))) }
    else if (e.k == "same") // parameters of the same random problem
      { st: st, vs: List(chk("random problems are determined by their seed and parameters", v[0].length() > 0 and same(v[0], v[1]))) }
    else if (e.k == "other") // parameters of two random problems with different seeds
      { st: st, vs: List(chk("different seeds give different problems", not(same(v[0], v[1])))) }
    else if (e.k == "sequence") // parameters drawn one after another by generators with the same seed
      { st: st, vs: List(chk("seeded generators produce the same sequence", v[0].length() > 0 and same(v[0], v[1]))) }
    else if (e.k == "ends") // left condition, right condition; data and bottom at the left and right end
      { st: st, vs: List(chk("periodic problems have matching ends",
        e.s[0] != "periodic" or (agreeK(v[0], v[1], 30) and agreeK(v[2], v[3], 30)))) }
    else if (e.k == "conditions") // the conditions; [number of them]
      { st: st, vs: List(
        chk("boundary conditions are periodic or one per end", if (v[0][0] == 1) e.s[0] == "periodic"
          else v[0][0] == 2 and e.s[0] != "periodic" and e.s[1] != "periodic"),
        chk("boundary conditions are known", e.s.foldl(true, (ok, c) =>
          ok and (c == "periodic" or c == "outflow" or c == "wall" or c == "inflow")))) }
    else if (e.k == "inflow") // needed or not; [refused], values, initial data at that end (at the start only)
      { st: st, vs: List(
        chk("inflow conditions have inflow data", v[0][0] == (if (e.s[0] == "inflow") 0 else 1)))
        .concat(chkIf(e.s[0] == "inflow" and e.s[1] == "start", "inflow data continues the initial data", agreeK(v[1], v[2], 30)))
        .concat(chkIf(e.s[0] == "inflow" and e.s[2] == "shallow_water", "heights are positive", v[1].length() == 2 and allFin(v[1]) and v[1][0] > 0)) }
    else if (e.k == "positive") // heights
      { st: st, vs: List(chk("heights are positive", v[0].length() > 0 and vevery(v[0], h => isFin(h) and h > 0))) }
    else if (e.k == "finite")
      { st: st, vs: List(chk("initial data is finite", v[0].length() > 0 and allFin(v[0]))) }
    else if (e.k == "span") // [a, b, start, end]
      { st: st, vs: List(chk("domains and time spans are not empty", allFin(v[0]) and v[0][0] < v[0][1] and v[0][2] < v[0][3])) }
    else if (e.k == "names") // expected and found
      { st: st, vs: List(chk("problems are what they are called", e.s[0] == e.s[1])) }
    else if (e.k == "end") // solution at the end time by name, and by time
      { st: st, vs: List(chk("the solution at the end time is the solution at that time", same(v[0], v[1]))) }
    else if (e.k == "absent") // [refused]
      { st: st, vs: List(chk("what a problem does not have is refused", v[0][0] == 1)) }
    else if (e.k == "recorded") // parameters as attributes and as recorded
      { st: st, vs: List(chk("problems are recorded with their parameters", same(v[0], v[1]))) }
    else { st: st, vs: [chk("harness: unknown event", false)] }
  }
}
