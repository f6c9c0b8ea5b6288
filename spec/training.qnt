// Training data: windows around a node, subgrid fluxes, and the files they go to.
module training {
  import prelude.* from "./prelude"
  import swe.* from "./swe"
  import solution.* from "./solution"

  // -------------------------------------------------------------- the windows
  // rows [lo, hi) of a state stored row by row (h and q per cell)
  pure def rowsOf(v: Vec, lo: int, hi: int): Vec = v.slice(2 * lo, 2 * hi)
  type Look = { node: int, radius: int, deg: int, reach: int }
  pure def coarseWindow(k: Look, v: Vec): Vec =
    coarsen(rowsOf(v, (k.node - k.radius) * k.deg, (k.node + k.radius) * k.deg), k.deg, 2)
  pure def fineWindow(k: Look, v: Vec): Vec = rowsOf(v, k.node * k.deg - k.reach, k.node * k.deg + k.reach)
  pure def cellAt(v: Vec, i: int): Cell = { h: v[2 * i], q: v[2 * i + 1] }

  // flux through the node between cells l and r over a flat bottom
  pure def nodeFlux(s: Scheme, l: Cell, r: Cell): Cell = nodesOf(s, List(l, r), List(0, 0), false)[0].r
  // flux through node i of a periodic state over a flat bottom
  pure def fluxWithin(s: Scheme, v: Vec, i: int): Cell = {
    val u = tab(v.length() / 2, j => cellAt(v, j))
    nodesOf(s, [u[u.length() - 1]].concat(u).append(u[0]), fill(u.length() + 2, 0), true)[i].r
  }
  // what the fine scheme transports through the node and the coarse one does not
  pure def subgridFlux(fine: Scheme, coarse: Scheme, k: Look, v: Vec): Cell = {
    val u = rowsOf(v, k.node * k.deg - 1, k.node * k.deg + 1)
    val w = coarseWindow(k, v)
    csub(nodeFlux(fine, cellAt(u, 0), cellAt(u, 1)), nodeFlux(coarse, cellAt(w, k.radius - 1), cellAt(w, k.radius)))
  }

  // ---------------------------------------------------------------- the files
  // a solution in a file is the k-th random problem of a seed, under some settings
  type Piece = { how: str, seed: int, k: int }
  type Order = { how: str, seed: int, number: int, overwrite: bool }
  pure def piecesOf(o: Order): List[Piece] = tab(o.number, k => { how: o.how, seed: o.seed, k: k })
  pure def afterOrder(file: List[Piece], o: Order): List[Piece] =
    if (o.overwrite) piecesOf(o) else file.concat(piecesOf(o))
}
