// What plots and animations show: curves over x, of functions and of solvers'
// histories, frame by frame.
module pictures {
  import prelude.* from "./prelude"

  type Curve = { label: str, x: Vec, y: Vec }
  // a solver's own grid and what it has recorded (scalar values in h)
  type Source = { label: str, x: Vec, times: Vec, h: List[Vec], q: List[Vec], ground: Vec }
  // functions are given by c0 + c1 x + c2 x^2 + t (c3 + c4 x): initial data and
  // exact solution, heights and discharges, and the bottom; or by tables of
  // their values at the points they are drawn at (exact: at the time of the frame)
  type Show = { moving: bool, table: bool, water: bool, initial: bool, exact: bool, a: int, b: int, start: int, stop: int, first: int,
    points: int, steps: int, ih: Vec, iq: Vec, eh: Vec, eq: Vec, bottom: Vec }
  pure val NO_SHOW: Show = { moving: false, table: false, water: false, initial: false, exact: false, a: 0, b: 0, start: 0, stop: 0, first: 0,
    points: 0, steps: 0, ih: [], iq: [], eh: [], eq: [], bottom: [] }

  pure val EPS: int = 1208925819 // 1e-15
  pure def valueOf(c: Vec, x: int, t: int): int =
    c[0] + mul(mul(c[2], x) + c[1], x) + mul(t, c[3] + mul(c[4], x))
  pure def valuesOf(c: Vec, x: Vec, t: int): Vec = mapi(x.length(), i => valueOf(c, x[i], t))
  // the points functions are drawn at
  pure def lin(a: int, b: int, m: int): Vec =
    if (m == 1) [a] else mapi(m, i => a + (b - a) * i / (m - 1))
  pure def pointsOf(p: Show): Vec = lin(p.a, p.b, p.points)
  // cells (averaged by twos, threes, ...) and nodes
  pure def centres(a: int, dx: int, n: int, deg: int): Vec = mapi(n / deg, i => a + (2 * i + 1) * deg * dx / 2)
  pure def nodes(a: int, dx: int, n: int, p: int): Vec = mapi(n * p, i => a + i * dx / p)

  // water: surface, discharge, velocity
  pure def velocityOf(h: int, q: int): int = {
    val m = imax(h, EPS)
    if (h >= EPS) div(q, h) // what the formula below gives
    else if (h == 0) 0 else div(2 * mul(h, q), sq(h) + sq(m))
  }
  pure def shown(axis: str, h: Vec, q: Vec, b: Vec): Vec =
    if (axis == "u") h
    else if (axis == "h") vadd(h, b)
    else if (axis == "q") q
    else mapi(h.length(), i => velocityOf(h[i], q[i]))
  pure def flatBottom(p: Show): bool = not(p.water) or (if (p.table) vevery(p.bottom, y => y == p.bottom[0])
    else p.bottom[1] == 0 and p.bottom[2] == 0)
  pure def tabled(p: Show, c: Vec, x: Vec, t: int): Vec = if (p.table) c else valuesOf(c, x, t)
  pure def ground(p: Show): Vec = if (p.water) tabled(p, p.bottom, pointsOf(p), 0) else fill(p.points, 0)
  pure def groundOf(p: Show, s: Source): Vec =
    if (not(p.water)) fill(s.x.length(), 0) else if (p.table) s.ground else valuesOf(p.bottom, s.x, 0)

  // records are joined by straight lines, the first and the last one kept
  pure def between(times: Vec, v: List[Vec], t: int): Vec = {
    val k = times.length() - 1
    if (t <= times[0]) v[0] else if (t >= times[k]) v[k] else {
      val j = range(0, k).foldl(0, (at, i) => if (times[i] <= t) i else at)
      val w = div(t - times[j], times[j + 1] - times[j])
      vadd(v[j], vscale(w, vsub(v[j + 1], v[j])))
    }
  }
  pure def curveOf(p: Show, s: Source, axis: str, t: int): Curve = {
    val last = s.times.length() - 1
    val h = if (p.moving) between(s.times, s.h, t) else s.h[last]
    val q = if (not(p.water)) [] else if (p.moving) between(s.times, s.q, t) else s.q[last]
    { label: s.label, x: s.x, y: shown(axis, h, q, groundOf(p, s)) }
  }
  pure def functionCurve(p: Show, axis: str, ch: Vec, cq: Vec, t: int): Curve = {
    val x = pointsOf(p)
    { label: "", x: x, y: shown(axis, tabled(p, ch, x, t), if (p.water) tabled(p, cq, x, t) else [], ground(p)) }
  }
  pure def initialCurve(p: Show, axis: str): Curve = functionCurve(p, axis, p.ih, p.iq, 0)
  pure def exactCurve(p: Show, axis: str, t: int): Curve = functionCurve(p, axis, p.eh, p.eq, if (p.moving) t else p.stop)
  pure def bottomCurve(p: Show): Curve = { label: "", x: pointsOf(p), y: ground(p) }

  pure def same(a: Curve, b: Curve): bool =
    (a.label == "" or a.label == b.label) and agreeK(a.x, b.x, 40) and agreeK(a.y, b.y, 36)
  pure def among(a: Curve, list: List[Curve]): bool = list.foldl(false, (ok, c) => ok or same(a, c))

  // the times shown: the regular ones and all records', from the first one on
  pure def insert(list: Vec, t: int): Vec =
    if (list.foldl(false, (ok, x) => ok or x == t)) list
    else list.foldl({ done: false, o: [] }, (a, x) =>
      if (not(a.done) and t < x) { done: true, o: a.o.append(t).append(x) } else { ...a, o: a.o.append(x) }).o
        .concat(if (list.length() == 0 or t > maxv(list)) [t] else [])
  pure def frameTimes(p: Show, solvers: List[Source]): Vec = {
    val regular = lin(p.start, p.stop, p.steps)
    solvers.foldl(regular, (list, s) => s.times.foldl(list, (l, t) => insert(l, t))).select(t => t >= p.first)
  }
}
