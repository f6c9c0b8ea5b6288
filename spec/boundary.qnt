// Boundary conditions: ghost cells, neighbours of nodes, neighbours of cells.
// A cell is anything (a number, a pair of height and discharge, a vector).
module boundary {
  import prelude.* from "./prelude"

  // k counts the ghost cells away from the boundary, starting with 0
  pure def ghostLeft(c: str, cells: List[a], k: int, mirror: a => a, inflow: a): a =
    if (c == "periodic") cells[cells.length() - 1 - k]
    else if (c == "wall") mirror(cells[0])
    else if (c == "inflow") inflow
    else cells[0]
  pure def ghostRight(c: str, cells: List[a], k: int, mirror: a => a, inflow: a): a =
    if (c == "periodic") cells[k]
    else if (c == "wall") mirror(cells[cells.length() - 1])
    else if (c == "inflow") inflow
    else cells[cells.length() - 1]

  // cells with r ghost cells on either side
  pure def padded(cl: str, cr: str, cells: List[a], r: int, mirror: a => a, inL: a, inR: a): List[a] =
    tab(r, k => ghostLeft(cl, cells, r - 1 - k, mirror, inL))
      .concat(cells)
      .concat(tab(r, k => ghostRight(cr, cells, k, mirror, inR)))

  // neighbour number j (0 .. 2 radius - 1, from left to right) of each node
  pure def nodeNeighbour(p: List[a], radius: int, j: int): List[a] =
    p.slice(j, p.length() - 2 * radius + 1 + j)

  // conditions which can be built at all
  pure def knownCondition(c: str, walls: bool): bool =
    c == "periodic" or c == "outflow" or c == "inflow" or (walls and c == "wall")
  pure def conditionsAccepted(cl: str, cr: str, walls: bool, inflowL: bool, inflowR: bool): bool =
    knownCondition(cl, walls) and knownCondition(cr, walls)
      and (cl == "inflow" implies inflowL) and (cr == "inflow" implies inflowR)

  // Values of the nodes which bound each cell, including one ghost cell per side:
  // L holds the value of each node as seen from the left, R as seen from the right.
  // Beyond the boundary the nodes are wrapped around (periodic, ghosts per side)
  // or undefined.
  pure def cellNeighbourLeft(periodic: bool, ghosts: int, L: List[a], R: List[a], undef: a): List[a] =
    [if (periodic) R[R.length() - 2 * ghosts] else undef].concat(R)
  pure def cellNeighbourRight(periodic: bool, ghosts: int, L: List[a], R: List[a], undef: a): List[a] =
    L.append(if (periodic) L[2 * ghosts - 1] else undef)
}
