// C06: positive water heights and bounded MCL corrections.
module C06 {
  import prelude.* from "./prelude"
  import boundary.* from "./boundary"
  import swe.* from "./swe"
  import runs.* from "./runs"

  type St = { r: Run, x: Vec, t: int }
  pure val ST0: St = { r: NO_RUN, x: [], t: 0 }
  pure def hs(x: Vec): Vec = x.slice(0, x.length() / 2)
  pure def qs(x: Vec): Vec = x.slice(x.length() / 2, x.length())

  pure def cellsAround(r: Run, x: Vec, t: int): List[Cell] =
    padded(r.cl, r.cr, unflat(x), 1, c => mirror(c), inflowAt(r.inL, t), inflowAt(r.inR, t))
  // largest step size for which the height is a convex combination
  pure def fastest(r: Run, p: List[Cell]): int = p.foldl(0, (m, c) => imax(m, speedOf(r.scheme.g, c)))
  pure def lows(g: int, p: List[Cell], b: Vec): List[Low] =
    tab(p.length() - 1, i => low(g, p[i], p[i + 1], b[i + 1] - b[i]))
  pure def small(x: Vec): int = (ONE + maxabs(x)) / 2^40

  // MCL: intermediate states bound the new height of every cell
  pure def bounds(r: Run, x: Vec, y: Vec, lo: List[Low]): List[Verdict] =
    List(chk("an MCL step keeps heights between the low order intermediate states and the old height",
      sameLen(x, y) and every(hs(x).length(), i =>
        y[i] <= imax(x[i], heightBound(lo, r.cl == "periodic", i + 1, 1)) + small(x) and
        y[i] >= imin(x[i], heightBound(lo, r.cl == "periodic", i + 1, -1)) - small(x))))

  // states at which the fluxes of one step are evaluated, as Euler steps see them
  pure def stages(r: Run, t: int, dt: int, x: Vec): List[{ t: int, x: Vec }] = {
    val y = axpy(dt, rhs(r, dt, t, x), x)
    if (r.method == "euler") List({ t: t, x: x })
    else if (r.method == "heun") List({ t: t, x: x }, { t: t + dt, x: y })
    else List({ t: t, x: x }, { t: t + dt, x: y },
      { t: t + dt / 2, x: vadd(vscale(3 * ONE / 4, x), vscale(ONE / 4, axpy(dt, rhs(r, dt, t + dt, y), y))) })
  }
  // a step is admissible if every cell has two nodes' worth of room at each of its stages
  pure def slow(r: Run, dt: int, s: { t: int, x: Vec }): bool =
    minv(hs(s.x)) >= 0 and mul(dt, 2 * fastest(r, cellsAround(r, s.x, s.t))) <= r.scheme.dx
  pure def admissible(r: Run, t: int, dt: int, x: Vec): bool =
    slow(r, dt, { t: t, x: x }) and (r.method == "euler" or stages(r, t, dt, x).foldl(true, (a, s) => a and slow(r, dt, s)))

  pure def record(st: St, v: List[Vec]): { st: St, vs: List[Verdict] } = {
    val r = st.r
    val p = cellsAround(r, st.x, st.t)
    val ok = admissible(r, st.t, v[0][1], st.x)
    { st: { ...st, x: v[1], t: v[0][0] },
      vs: chkIf(ok, "heights stay non-negative", allFin(v[1]) and minv(hs(v[1])) >= -small(st.x))
        .concat(if (ok and r.scheme.name == "mcl" and r.method == "euler")
          bounds(r, st.x, v[1], lows(r.scheme.g, p, bottomPadded(r.bottom))) else [])
        .concat(chkIf(ok and r.scheme.name != "llf" and every(p.length(), i => p[i].h == 0), "dry beds stay dry", maxabs(v[1]) == 0)) }
  }

  // one flux evaluation: s = [base scheme, periodic or open], v = [g], cells, bottom, observed fluxes (lh lq rh rq)
  pure def limiter(e: Ev, v: List[Vec]): List[Verdict] = {
    val g = v[0][0]
    val p = cells(v[1], v[2])
    val b = bottomPadded(v[3])
    val lo = lows(g, p, b)
    val target = plainNodes(e.s[0], g, ONE, 0, p, b)
    val n = p.length() - 1
    val per = e.s[1] == "periodic"
    val ok = v.length() == 8 and every(4, k => v[4 + k].length() == n)
    val tol = (ONE + maxabs(v[6]) + maxabs(v[7])) / 2^30
    def dh(i: int): int = v[6][i] - lo[i].f.r.h
    def full(i: int): int = target[i].r.h - lo[i].f.r.h
    // heights of the limited intermediate states left and right of a node
    def hl(i: int): int = mul(lo[i].s, lo[i].hl) - dh(i)
    def hr(i: int): int = mul(lo[i].s, lo[i].hr) + dh(i)
    List(
      chk("corrections of both sides are opposite", ok and every(n, i =>
        near(v[4][i] - lo[i].f.l.h, -dh(i), tol) and near(v[5][i] - lo[i].f.l.q, lo[i].f.r.q - v[7][i], tol))),
      chk("the limited height flux lies between the low order and the target flux", ok and every(n, i =>
        dh(i) <= imax(0, full(i)) + tol and dh(i) >= imin(0, full(i)) - tol)),
      chk("limited intermediate heights respect the bounds of their cells", ok and every(n, i =>
        hl(i) <= mul(lo[i].s, heightBound(lo, per, i, 1)) + tol and hl(i) >= mul(lo[i].s, heightBound(lo, per, i, -1)) - tol and
        hr(i) <= mul(lo[i].s, heightBound(lo, per, i + 1, 1)) + tol and hr(i) >= mul(lo[i].s, heightBound(lo, per, i + 1, -1)) - tol)),
      chk("without room between the bounds the height flux is the low order one", ok and every(n, i =>
        List(i, i + 1).foldl(false, (a, j) => a or heightBound(lo, per, j, 1) == heightBound(lo, per, j, -1)) implies near(dh(i), 0, tol))),
      chk("a target height flux within all bounds is taken", ok and every(n, i => {
        val x = mul(lo[i].s, lo[i].hl) - full(i)
        val y = mul(lo[i].s, lo[i].hr) + full(i)
        x <= mul(lo[i].s, heightBound(lo, per, i, 1)) and x >= mul(lo[i].s, heightBound(lo, per, i, -1)) and
        y <= mul(lo[i].s, heightBound(lo, per, i + 1, 1)) and y >= mul(lo[i].s, heightBound(lo, per, i + 1, -1))
          implies near(dh(i), full(i), tol) })))
  }

  pure def judge(st: St, e: Ev): { st: St, vs: List[Verdict] } = {
    val v = dec(e.d)
    if (e.k == "config") { st: { r: runOf(e.s, v), x: [], t: 0 }, vs: [] }
    else if (e.k == "init") { st: { ...st, x: v[1], t: v[0][0] }, vs: [] }
    else if (e.k == "record") record(st, v)
    else if (e.k == "end") { st: st, vs: [] }
    else if (e.k == "broken") // the next step was refused for want of water
      { st: st, vs: List(chk("admissible steps do not run out of water", not(admissible(st.r, st.t, v[0][0], st.x)))) }
    else if (e.k == "limiter") { st: st, vs: limiter(e, v) }
    else if (e.k == "fix") // heights, jumps of the bottom, height corrections
      { st: st, vs: List(chk("the bottom moves no more water than there is", sameLen(v[0], v[2]) and every(v[0].length(), i =>
          iabs(v[2][i]) <= v[0][i] and iabs(v[2][i]) <= iabs(v[1][i]) / 2 + 1 and sgn(v[2][i]) * sgn(v[1][i]) >= 0))) }
    else { st: st, vs: List(chk("unknown event", false)) }
  }
}
