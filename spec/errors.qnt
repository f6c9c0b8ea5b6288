// Errors of discrete solutions, orders of convergence, error evolutions.
module errors {
  import prelude.* from "./prelude"
  import calculus.* from "./calculus"
  import mesh.* from "./mesh"
  import fem.* from "./fem"

  // --------------------------------------------------- Gauss rules on [0, 1]
  // nodes (n = 1 .. 4) as offsets from 1/2 in halves, and weights
  pure def symmetricRule(x: Vec): Vec = x.foldl([], (a, y) => a.append(HALF + y / 2))
  pure def gaussNodes(n: int): Vec =
    if (n == 1) symmetricRule([0])
    else if (n == 2) { val r = sqrt(ONE / 3) symmetricRule(List(-r, r)) }
    else if (n == 3) { val r = sqrt(3 * ONE / 5) symmetricRule(List(-r, 0, r)) }
    else {
      val q = 2 * sqrt(6 * ONE / 5) / 7
      val outer = sqrt(3 * ONE / 7 + q)
      val near_ = sqrt(3 * ONE / 7 - q)
      symmetricRule(List(-outer, -near_, near_, outer))
    }
  pure def gaussWeights(n: int): Vec =
    if (n == 1) [ONE]
    else if (n == 2) List(HALF, HALF)
    else if (n == 3) List(5 * ONE / 18, 4 * ONE / 9, 5 * ONE / 18)
    else {
      val r = sqrt(real(30))
      List((real(18) - r) / 72, (real(18) + r) / 72, (real(18) + r) / 72, (real(18) - r) / 72)
    }

  // ------------------------------------------------------------ the functions
  // p = 0: cell averages; p > 0: periodic elements of degree p
  pure def discreteAt(n: int, p: int, u: Vec, cell: int, s: int): int =
    if (p == 0) u[cell]
    else range(0, p + 1).foldl(0, (a, k) => a + mul(u[dof(n, p, true, cell, k)], basisAt(p, k, s)))
  pure def pointOf(a: int, dx: int, cell: int, s: int): int = a + cell * dx + mul(dx, s)

  // a norm of a function of (cell, local coordinate), given as its list of values:
  // row by row, the values at the nodes of one cell
  pure def rowL1(row: Vec, w: Vec): int = range(0, row.length()).foldl(0, (t, j) => t + mul(w[j], iabs(row[j])))
  pure def rowSquare(row: Vec, w: Vec): int = range(0, row.length()).foldl(0, (t, j) => t + mul(w[j], sq(row[j])))
  pure def normOf(name: str, rows: List[Vec], w: Vec, dx: int): int =
    if (name == "L1") rows.foldl(0, (t, r) => t + mul(dx, rowL1(r, w)))
    else if (name == "L2") sqrt(rows.foldl(0, (t, r) => t + mul(dx, rowSquare(r, w))))
    else rows.foldl(0, (t, r) => imax(t, maxabs(r)))
  // where a norm looks: Gauss nodes, or equidistant points for the maximum norm
  pure def looksAt(name: str, q: int): Vec = if (name == "Linf") mapi(10, j => fdiv(j * ONE, 9)) else gaussNodes(q)

  type Setting = { a: int, dx: int, n: int, p: int, q: int }
  // difference to a polynomial, and to another discrete function
  pure def rowAgainst(s: Setting, c: Vec, u: Vec, cell: int, x: Vec): Vec =
    x.foldl([], (t, y) => t.append(poly(c, pointOf(s.a, s.dx, cell, y)) - discreteAt(s.n, s.p, u, cell, y)))
  pure def rowBetween(s: Setting, v: Vec, u: Vec, cell: int, x: Vec): Vec =
    x.foldl([], (t, y) => t.append(discreteAt(s.n, s.p, v, cell, y) - discreteAt(s.n, s.p, u, cell, y)))
  pure def errorAgainst(name: str, s: Setting, c: Vec, u: Vec): int = {
    val x = looksAt(name, s.q)
    normOf(name, tab(s.n, i => rowAgainst(s, c, u, i, x)), gaussWeights(s.q), s.dx)
  }
  pure def errorBetween(name: str, s: Setting, v: Vec, u: Vec): int = {
    val x = looksAt(name, s.q)
    normOf(name, tab(s.n, i => rowBetween(s, v, u, i, x)), gaussWeights(s.q), s.dx)
  }
  pure def sizeOf(name: str, s: Setting, u: Vec): int = errorBetween(name, s, u, fill(u.length(), 0))

  // ----------------------------------------------------------- binary logarithm
  // of a positive real: integer part, then 36 bits by repeated squaring
  pure def log2(x: int): int = {
    val up = range(0, 80).foldl({ y: x, e: 0 }, (s, _) => if (s.y < ONE) { y: 2 * s.y, e: s.e - 1 } else s)
    val dn = range(0, 80).foldl(up, (s, _) => if (s.y >= 2 * ONE) { y: s.y / 2, e: s.e + 1 } else s)
    val r = range(1, 37).foldl({ y: dn.y, f: 0 }, (s, k) => {
      val z = sq(s.y)
      if (z >= 2 * ONE) { y: z / 2, f: s.f + ONE / 2^k } else { y: z, f: s.f }
    })
    dn.e * ONE + r.f
  }

  // ---------------------------------------------------------- error evolutions
  pure def column(rows: List[Vec], i: int): Vec = rows.foldl([], (t, r) => t.append(r[i]))
  pure def rowsAt(times: Vec, rows: List[Vec], z: int): Vec =
    inner(rows[0].length(), i => linear(times, column(rows, i), z))
  // relative difference of two histories at time z
  pure def relativeAt(s: Setting, name: str, t1: Vec, u1: List[Vec], t2: Vec, u2: List[Vec], z: int): int = {
    val x = rowsAt(t1, u1, z)
    val y = rowsAt(t2, u2, z)
    div0(errorBetween(name, s, x, y), sizeOf(name, s, y))
  }
}
