// Flux corrections: networks with known weights in the place of trained ones, and
// runs of a base scheme plus a correction.
module corrections {
  import prelude.* from "./prelude"
  import boundary.* from "./boundary"
  import swe.* from "./swe"
  import ode.* from "./ode"
  import runs.* from "./runs"

  // output k of a stand-in network: sum over the inputs of w[i, k] x + v[i, k] x^2;
  // weights row by row, inputs h, q of the cells from left to right
  type Net = { cells: int, w: Vec, v: Vec }
  pure val NO_NET: Net = { cells: 0, w: [], v: [] }
  pure def inputOf(c: List[Cell], i: int): int = if (i % 2 == 0) c[i / 2].h else c[i / 2].q
  pure def output(n: Net, c: List[Cell], k: int): int =
    range(0, 2 * n.cells).foldl(0, (a, i) => {
      val x = inputOf(c, i)
      a + mul(n.w[2 * i + k], x) + mul(n.v[2 * i + k], sq(x))
    })
  pure def prediction(n: Net, c: List[Cell]): Cell = cellOf(output(n, c, 0), output(n, c, 1))
  // p: cells with cells / 2 ghosts on either side
  pure def predictions(n: Net, p: List[Cell]): List[Cell] =
    range(0, p.length() - n.cells + 1).foldl([], (a, i) => a.append(prediction(n, p.slice(i, i + n.cells))))

  // surroundings of the nodes: state with r ghosts on either side
  pure def surroundings(r: Run, t: int, x: Vec, ghosts: int): List[Cell] =
    padded(r.cl, r.cr, unflat(x), ghosts, c => mirror(c), inflowAt(r.inL, t), inflowAt(r.inR, t))
  pure def baseNodes(r: Run, dt: int, t: int, x: Vec): List[Node] =
    nodesOf({ ...r.scheme, dt: dt }, surroundings(r, t, x, 1), bottomPadded(r.bottom), r.cl == "periodic")
  // base flux plus correction
  pure def correctedRhs(r: Run, n: Net, dt: int, t: int, x: Vec): Vec = {
    val base = baseNodes(r, dt, t, x)
    flat2(rhsOf(if (n.cells == 0) base else corrected(base, predictions(n, surroundings(r, t, x, n.cells / 2))), r.scheme.dx))
  }
  pure def correctedStep(r: Run, n: Net, t: int, dt: int, x: Vec): Vec = {
    val m = tableau(r.method)
    val k = range(0, m.b.length()).foldl([], (k, i) =>
      k.append(correctedRhs(r, n, dt, stageTime(m, t, dt, i), stageValue(m, x, dt, k, i))))
    endValue(m, x, dt, k)
  }
  // one Euler step with a correction known at the nodes
  pure def givenStep(r: Run, g: List[Cell], t: int, dt: int, x: Vec): Vec =
    axpy(dt, flat2(rhsOf(corrected(baseNodes(r, dt, t, x), g), r.scheme.dx)), x)
}
