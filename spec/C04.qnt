// C04: boundary conditions.
module C04 {
  import prelude.* from "./prelude"
  import boundary.* from "./boundary"

  type St = int
  pure val ST0: St = 0
  // cells with several components; the second one is reversed by a wall
  pure def reflect(c: Vec): Vec = mapi(c.length(), i => if (i == 1) -c[i] else c[i])
  // components given as one vector each
  pure def cellsOf(v: List[Vec]): List[Vec] = tab(v[0].length(), i => mapi(v.length(), k => v[k][i]))
  pure def component(w: List[Vec], k: int): Vec = w.foldl([], (acc, x) => acc.append(x[k]))

  pure def judge(st: St, e: Ev): { st: St, vs: List[Verdict] } = {
    val v = dec(e.d)
    { st: st, vs:
      if (e.k == "nodes") {
        val m = v[0][0] // components
        val g = v[0][1] // ghost cells per side
        val r = v[0][2] // radius asked for
        val c = cellsOf(v.slice(1, 1 + m))
        val p = padded(e.s[0], e.s[1], c, g, x => reflect(x), v[1 + m], v[2 + m])
        val o = v.slice(3 + m, v.length())
        List(
          chk("number of neighbours of a node", o.length() == 2 * r * m),
          chk("neighbours of the nodes", o.length() == 2 * r * m and every(2 * r, j => each(m, k =>
            component(nodeNeighbour(p, r, j), k) == o[j * m + k]))))
      }
      else if (e.k == "cells") {
        val m = v[0][0]
        val g = v[0][1]
        val ok = v.length() == 1 + 4 * m
        List(
          chk("neighbouring nodes of the cells", ok and every(m, k => {
            val L = v[1 + k]
            val R = v[1 + m + k]
            cellNeighbourLeft(e.s[0] == "periodic", g, L, R, NAN) == v[1 + 2 * m + k]
              and cellNeighbourRight(e.s[0] == "periodic", g, L, R, NAN) == v[1 + 3 * m + k]
          })),
          chk("every cell has two nodes", ok and v[1 + 2 * m].length() == v[1].length() + 1 and sameLen(v[1 + 2 * m], v[1 + 3 * m])))
      }
      else if (e.k == "build")
        List(chk("unknown conditions and missing inflow data are rejected, others accepted",
          (e.s[3] == "accepted") == conditionsAccepted(e.s[0], e.s[1], e.s[2] == "walls", v[0][0] == 1, v[0][1] == 1)),
          chk("periodicity is recognised", e.s[3] != "accepted" or (v[0][2] == 1) == (e.s[0] == "periodic" and v[0][3] == 1)))
      else // "kept"
        List(chk("the given data is not modified", v[0] == v[1])) }
  }
}
