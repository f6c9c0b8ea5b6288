// Polynomials, Gaussian quadrature, interpolation, norms.
module calculus {
  import prelude.* from "./prelude"

  // polynomial with coefficients c (constant first)
  pure def poly(c: Vec, x: int): int =
    range(0, c.length()).foldl(0, (acc, i) => mul(acc, x) + c[c.length() - 1 - i])
  pure def primitive(c: Vec): Vec = List(0).concat(mapi(c.length(), i => fdiv(c[i], i + 1)))
  pure def integral(c: Vec, a: int, b: int): int = {
    val q = primitive(c)
    poly(q, b) - poly(q, a)
  }
  pure def product(c: Vec, d: Vec): Vec = inner(c.length() + d.length() - 1, k =>
    range(0, c.length()).foldl(0, (acc, i) => if (k - i >= 0 and k - i < d.length()) acc + mul(c[i], d[k - i]) else acc))

  // a quadrature is exact for all polynomials up to this degree
  pure def exactUpTo(nodes: Vec, weights: Vec, a: int, b: int, degree: int, tol: int): bool = {
    val c = (a + b) / 2
    val h = (b - a) / 2
    val t = mapi(nodes.length(), i => div(nodes[i] - c, h))
    range(0, degree + 1).foldl({ ok: true, w: weights }, (s, k) => {
      val exact = if (k % 2 == 1) 0 else fdiv(2 * h, k + 1)
      { ok: s.ok and iabs(sumv(s.w) - exact) <= mul(tol, h), w: inner(nodes.length(), i => mul(s.w[i], t[i])) }
    }).ok
  }

  // piecewise linear through (x_i, y_i), constant beyond the ends
  pure def linear(x: Vec, y: Vec, z: int): int = {
    val n = x.length()
    if (z <= x[0]) y[0]
    else if (z >= x[n - 1]) y[n - 1]
    else {
      val i = range(0, n - 1).foldl(0, (a, j) => if (x[j] <= z) j else a)
      y[i] + ((y[i + 1] - y[i]) * (z - x[i])) / (x[i + 1] - x[i])
    }
  }

  // norms of piecewise polynomials: coefficients per cell in the local coordinate [0, 1]
  pure def l2square(cells: List[Vec], dx: int): int =
    cells.foldl(0, (s, c) => s + mul(dx, integral(product(c, c), 0, ONE)))
  pure def l1(cells: List[Vec], dx: int): int = // of one sign on each cell
    cells.foldl(0, (s, c) => s + mul(dx, iabs(integral(c, 0, ONE))))
  pure def sampledMax(cells: List[Vec], points: int): int =
    cells.foldl(0, (m, c) => imax(m, range(0, points).foldl(0, (u, j) =>
      imax(u, iabs(poly(c, fdiv(j * ONE, points - 1)))))))
}
