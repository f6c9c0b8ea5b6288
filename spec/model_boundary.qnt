// Laws of the ghost cells: wrapping around, reflecting, mirroring.
module model_boundary {
  import prelude.* from "./prelude"
  import boundary.* from "./boundary"

  var c: List[{ h: int, q: int }]
  var cl: str
  var cr: str
  var g: int

  pure def flip(x: { h: int, q: int }): { h: int, q: int } = { h: x.h, q: -x.q }
  pure def mirrored(v: List[{ h: int, q: int }]): List[{ h: int, q: int }] = lrev(tab(v.length(), i => flip(v[i])))
  pure val IN_L = { h: 7, q: 1 }
  pure val IN_R = { h: 9, q: 2 }

  action init = {
    nondet h = 0.to(3).oneOf()
    nondet q = (-2).to(2).oneOf()
    nondet r = 1.to(3).oneOf()
    nondet a = Set("periodic", "outflow", "wall", "inflow").oneOf()
    nondet b = Set("outflow", "wall", "inflow").oneOf()
    all { c' = tab(r, _ => { h: h, q: q }), cl' = a, cr' = if (a == "periodic") a else b, g' = r }
  }
  action step = {
    nondet h = 0.to(3).oneOf()
    nondet q = (-2).to(2).oneOf()
    all { c.length() < 6, c' = c.append({ h: h, q: q }), cl' = cl, cr' = cr, g' = g }
  }
  def pad(x: List[{ h: int, q: int }], a: str, b: str, l: { h: int, q: int }, r: { h: int, q: int }): List[{ h: int, q: int }] =
    padded(a, b, x, g, y => flip(y), l, r)
  val ghosts = pad(c, cl, cr, IN_L, IN_R)
  val n = c.length()
  // mirrored data between swapped conditions has mirrored ghost cells
  val mirrorLaw = pad(mirrored(c), cr, cl, flip(IN_R), flip(IN_L)) == mirrored(ghosts)
  val inside = every(n, i => ghosts[g + i] == c[i])
  val wrapLaw = (cl == "periodic") implies every(2 * g, i => ghosts[i] == ghosts[i + n])
  val reflectLaw = (cl == "wall" implies every(g, i => ghosts[i] == flip(c[0]))) and (cl == "outflow" implies every(g, i => ghosts[i] == c[0]))
  // from nodes back to cells: node i of n + 2g - 1 nodes is named i; periodic lists continue
  val nodes = mapi(n + 2 * g - 1, i => wrap(i - g + 1, n))
  val backLaw = (cl == "periodic") implies {
    val left = cellNeighbourLeft(true, g, nodes, nodes, NAN)
    val right = cellNeighbourRight(true, g, nodes, nodes, NAN)
    every(n + 2 * g, i => left[i] == wrap(i - g, n) and right[i] == wrap(i - g + 1, n))
  }
  val inv = mirrorLaw and inside and wrapLaw and reflectLaw and backLaw
}
