// Laws of the finite volume schemes themselves: the schemes as they are specified
// conserve, are bound preserving, equivariant, keep constants, lakes and positive heights.
module model_scalar {
  import prelude.* from "./prelude"
  import scalarfv.* from "./scalarfv"

  var u: Vec
  var before: Vec
  var scheme: str
  var problem: str
  var cl: str
  var cr: str

  pure val DX: int = ONE / 4
  pure val DT: int = ONE / 8 // speeds do not exceed one
  pure val TINY: int = ONE / 2^60

  pure def rhs(s: str, p: str, a: str, b: str, x: Vec): Vec =
    scalarRhs(s, p, a, b, x, DX, IN_L, IN_R)
  pure val IN_L: int = ONE / 2
  pure val IN_R: int = -3 * ONE / 4
  pure def advanced(x: Vec, d: Vec): Vec = axpy(DT, d, x)

  action init = {
    nondet n = 3.to(6).oneOf()
    nondet a = (-4).to(4).oneOf()
    nondet b = (-4).to(4).oneOf()
    nondet c = (-4).to(4).oneOf()
    nondet d = (-4).to(4).oneOf()
    nondet e = (-4).to(4).oneOf()
    nondet f = (-4).to(4).oneOf()
    nondet s = Set("llf", "mcl-fv", "central").oneOf()
    nondet p = Set("advection", "burgers").oneOf()
    nondet l = Set("periodic", "outflow", "inflow").oneOf()
    nondet r = Set("outflow", "inflow").oneOf()
    val x = List(a, b, c, d, e, f).slice(0, n).foldl([], (v, y) => v.append(y * ONE / 4))
    all { u' = x, before' = x, scheme' = s, problem' = p, cl' = l, cr' = if (l == "periodic") l else r }
  }
  action step = all {
    before' = u,
    u' = advanced(u, rhs(scheme, problem, cl, cr, u)),
    scheme' = scheme, problem' = problem, cl' = cl, cr' = cr
  }

  val n = u.length()
  val ringed = cl == "periodic"
  val conserved = ringed implies near(sumv(u), sumv(before), TINY)
  def around(i: int): Vec = List(
    if (i > 0) before[i - 1] else if (ringed) before[n - 1] else if (cl == "inflow") IN_L else before[0],
    before[i],
    if (i < n - 1) before[i + 1] else if (ringed) before[0] else if (cr == "inflow") IN_R else before[n - 1])
  val bounded = (scheme != "central" and maxabs(before) <= ONE) implies
    every(n, i => minv(around(i)) - TINY <= u[i] and u[i] <= maxv(around(i)) + TINY)
  val slope = rhs(scheme, problem, cl, cr, u)
  val shifted = ringed implies agreeTol(rhs(scheme, problem, cl, cr, rot(u, 1)), rot(slope, 1), 0)
  val mirrored = (problem == "burgers" and cl != "inflow" and cr != "inflow") implies
    agreeTol(rhs(scheme, problem, cr, cl, vneg(rev(u))), vneg(rev(slope)), TINY)
  val constant = (cl != "inflow" and cr != "inflow") implies
    agreeTol(rhs(scheme, problem, cl, cr, fill(n, u[0])), fill(n, 0), 0)
  // a limited flux without active bounds is the target's, with closed bounds the low order one
  val limits = every(n, i => limited(u[i], ONE, 0, 0, NAN, NAN, -NAN, -NAN) == u[i]
    and limited(u[i], ONE, u[0], u[0], u[0], u[0], u[0], u[0]) == 0)
  val inv = conserved and bounded and shifted and mirrored and constant and limits
}

module model_water {
  import prelude.* from "./prelude"
  import swe.* from "./swe"

  var u: List[Cell]
  var before: List[Cell]
  var b: Vec
  var scheme: Scheme
  var cl: str
  var cr: str

  pure val G: int = ONE
  pure val DX: int = ONE / 4
  pure val TINY: int = ONE / 2^40

  pure def rhs(s: Scheme, p: str, r: str, c: List[Cell], ground: Vec): List[Cell] =
    sweRhs(s, p, r, c, ground, cellOf(ONE, 0), cellOf(ONE, 0))
  pure def fastest(c: List[Cell]): int = c.foldl(ONE / 4, (m, x) => imax(m, speedOf(G, x)))
  pure def mirroredCells(c: List[Cell]): List[Cell] = lrev(tab(c.length(), i => mirror(c[i])))
  pure def cellsAgree(x: List[Cell], y: List[Cell]): bool =
    agreeTol(heights(x), heights(y), TINY) and agreeTol(discharges(x), discharges(y), TINY)
  pure def named(name: str, sub: str): Scheme = { name: name, sub: sub, g: G, dx: DX, dt: 0, gamma: ONE / 16 }
  pure def still(n: int): List[Cell] = tab(n, _ => ZERO)

  // water of quarter heights and half velocities over a bottom of quarters
  action init = {
    nondet n = 3.to(5).oneOf()
    nondet h = tuples(0.to(4), 0.to(4), 0.to(4), 0.to(4), 0.to(4)).oneOf()
    nondet v = tuples((-2).to(2), (-2).to(2), (-2).to(2), (-2).to(2), (-2).to(2)).oneOf()
    nondet z = tuples(0.to(2), 0.to(2), 0.to(2), 0.to(2), 0.to(2)).oneOf()
    nondet uneven = Set(true, false).oneOf()
    nondet s = Set("llf", "low-order", "mcl", "central", "es", "antidiffusion").oneOf()
    nondet p = Set("periodic", "outflow", "wall").oneOf()
    nondet r = Set("outflow", "wall").oneOf()
    val hs = List(h._1, h._2, h._3, h._4, h._5)
    val vs = List(v._1, v._2, v._3, v._4, v._5)
    val zs = List(z._1, z._2, z._3, z._4, z._5)
    val x = tab(n, i => cellOf(hs[i] * ONE / 4, hs[i] * vs[i] * ONE / 8))
    all { u' = x, before' = x, b' = mapi(n, i => if (uneven) zs[i] * ONE / 4 else 0),
      scheme' = named(s, if (s == "antidiffusion") "llf" else "central"), cl' = p, cr' = if (p == "periodic") p else r }
  }
  action step = all {
    vevery(heights(u), y => y >= 0), // the other schemes may leave the admissible states
    before' = u,
    u' = euler(u, div(DX, 2 * fastest(u)), rhs(scheme, cl, cr, u, b)),
    b' = b, scheme' = scheme, cl' = cl, cr' = cr
  }

  val n = u.length()
  val ringed = cl == "periodic"
  val closed = ringed or (cl == "wall" and cr == "wall")
  val wet = vevery(heights(u), y => y >= 0)
  val conservedHeight = closed implies near(sumv(heights(u)), sumv(heights(before)), TINY)
  val conservedDischarge = (ringed and flat(b)) implies near(sumv(discharges(u)), sumv(discharges(before)), TINY)
  // Lax-Friedrichs: the bottom has no effect on the heights
  val positive = Set("llf", "low-order", "mcl").contains(scheme.name) implies vevery(heights(u), y => y >= -TINY)
  val slope = rhs(scheme, cl, cr, u, b)
  val shifted = (wet and ringed and flat(b)) implies cellsAgree(rhs(scheme, cl, cr, lrot(u, 1), b), lrot(slope, 1))
  // shores: the low order scheme cuts the source off, a target scheme does not
  val submerged = every(n - 1, i => iabs(b[i + 1] - b[i]) < 2 * bar(G, u[i], u[i + 1]).h)
  // (velocities of dry cells depend on the rounding)
  val mirrored = ((scheme.name == "mcl" implies submerged) and vevery(heights(u), y => y >= ONE / 16) and (not(ringed) or b[0] == b[n - 1])) implies
    cellsAgree(rhs(scheme, cr, cl, mirroredCells(u), rev(b)), mirroredCells(slope))
  // a constant state over flat ground
  val kept = (wet and cl != "wall" and cr != "wall") implies
    cellsAgree(rhs(scheme, cl, cr, tab(n, _ => u[0]), fill(n, 0)), still(n))
  // a lake at rest covering the ground
  val lake = tab(n, i => cellOf(2 * ONE - b[i], 0))
  val rest = (Set("low-order", "mcl", "central").contains(scheme.name) and (not(ringed) or b[0] == b[n - 1])) implies
    cellsAgree(rhs(scheme, cl, cr, lake, b), still(n))
  val pool = flat(b) implies cellsAgree(rhs(scheme, cl, cr, tab(n, _ => cellOf(ONE, 0)), b), still(n))
  val inv = conservedHeight and conservedDischarge and positive and shifted and mirrored and kept and rest and pool
}
