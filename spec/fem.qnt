// Continuous Lagrange elements on periodic uniform meshes: basis, matrices,
// semi-discrete schemes for u_t + f(u)_x = 0.
module fem {
  import prelude.* from "./prelude"
  import mesh.* from "./mesh"
  import scalarfv.* from "./scalarfv"

  type Mat = List[Vec]

  // ------------------------------------------------- basis on the cell [0, 1]
  // The basis polynomial of node i/p is  prod_{j != i} (p x - j) / (i - j):
  // integer coefficients over an integer denominator.
  pure def timesLinear(c: Vec, a: int, b: int): Vec = inner(c.length() + 1, k =>
    (if (k < c.length()) b * c[k] else 0) + (if (k > 0) a * c[k - 1] else 0))
  pure def numerator(p: int, i: int): Vec =
    range(0, p + 1).foldl([1], (c, j) => if (j == i) c else timesLinear(c, p, -j))
  pure def denominator(p: int, i: int): int =
    range(0, p + 1).foldl(1, (d, j) => if (j == i) d else d * (i - j))
  pure def times(c: Vec, d: Vec): Vec = inner(c.length() + d.length() - 1, k =>
    range(0, c.length()).foldl(0, (acc, i) => if (k - i >= 0 and k - i < d.length()) acc + c[i] * d[k - i] else acc))
  pure def derived(c: Vec): Vec = inner(c.length() - 1, k => (k + 1) * c[k + 1])
  // integral over [0, 1] of a polynomial with integer coefficients, divided by d
  pure def unitIntegral(c: Vec, d: int): int =
    range(0, c.length()).foldl(0, (s, k) => s + (c[k] * ONE * ONE) / (k + 1)) / (d * ONE)
  pure def basisAt(p: int, i: int, x: int): int = {
    val n = range(0, p + 1).foldl(ONE, (a, j) => if (j == i) a else (a * (p * x - j * ONE)) / ONE)
    n / denominator(p, i)
  }
  pure def basisSlopeAt(p: int, i: int, x: int): int = {
    val c = derived(numerator(p, i))
    range(0, c.length()).foldl(0, (a, k) => mul(a, x) + c[c.length() - 1 - k] * ONE) / denominator(p, i)
  }

  // ------------------------------------------------------------ cell matrices
  pure def cellMass(p: int): Mat = tab(p + 1, i => mapi(p + 1, j =>
    unitIntegral(times(numerator(p, i), numerator(p, j)), denominator(p, i) * denominator(p, j))))
  pure def cellGradient(p: int): Mat = tab(p + 1, i => mapi(p + 1, j =>
    unitIntegral(times(numerator(p, i), derived(numerator(p, j))), denominator(p, i) * denominator(p, j))))

  // ---------------------------------------------------------- global matrices
  pure def zeroMat(n: int): Mat = tab(n, _ => fill(n, 0))
  pure def assembled(n: int, p: int, loc: Mat, scale: int): Mat =
    range(0, n * (p + 1) * (p + 1)).foldl(zeroMat(n * p), (m, k) => {
      val c = k / ((p + 1) * (p + 1))
      val i = (k / (p + 1)) % (p + 1)
      val j = k % (p + 1)
      val gi = dof(n, p, true, c, i)
      val gj = dof(n, p, true, c, j)
      m.replaceAt(gi, m[gi].replaceAt(gj, m[gi][gj] + mul(scale, loc[i][j])))
    })
  pure def massOf(n: int, p: int, h: int): Mat = assembled(n, p, cellMass(p), h)
  pure def gradientOf(n: int, p: int): Mat = assembled(n, p, cellGradient(p), ONE)
  pure def apply(m: Mat, v: Vec): Vec = mapi(m.length(), i => dot(m[i], v))
  pure def rowSums(m: Mat): Vec = mapi(m.length(), i => sumv(m[i]))
  pure def entry(m: Mat, i: int, j: int): int = m[i][j]
  pure def transposed(m: Mat): Mat = tab(m.length(), i => mapi(m.length(), j => m[j][i]))
  // inverse of a symmetric positive definite matrix by Gauss-Jordan elimination
  pure def augmented(m: Mat): Mat = tab(m.length(), i => m[i].concat(mapi(m.length(), j => if (i == j) ONE else 0)))
  pure def eliminate(a: Mat, i: int, w: int, row: Vec): Mat = a.replaceAt(i, axpy(-w, row, a[i]))
  pure def pivoted(a: Mat, k: int): Mat = {
    val row = a[k].foldl([], (acc, x) => acc.append(div(x, a[k][k])))
    range(0, a.length()).foldl(a, (b, i) => if (i == k) b.replaceAt(i, row) else eliminate(b, i, b[i][k], row))
  }
  pure def rightHalf(m: Mat): Mat = tab(m.length(), i => m[i].slice(m.length(), 2 * m.length()))
  pure def inverted(m: Mat): Mat = rightHalf(range(0, m.length()).foldl(augmented(m), (a, k) => pivoted(a, k)))

  // ------------------------------------------------------ artificial diffusion
  pure def diffusionOf(problem: str, c: Mat, u: Vec): Mat = {
    val n = c.length()
    def speedAt(i: int): int = charSpeed(problem, u[i])
    tab(n, i => {
      val off = inner(n, j => if (i == j) 0 else imax(iabs(mul(c[i][j], speedAt(j))), iabs(mul(c[j][i], speedAt(i)))))
      off.replaceAt(i, -sumv(off))
    })
  }

  // ------------------------------------------------------------ flux gradients
  // (f(u_h), phi_i') with f(u_h) replaced by its interpolant
  pure def groupGradient(problem: str, c: Mat, u: Vec): Vec =
    vneg(apply(c, vmap(u, x => scalarFlux(problem, x))))
  // the same with the exact f(u_h)
  pure def plus(a: Vec, w: int, c: Vec, d: int): Vec = inner(a.length(), l => a[l] + (w * c[l]) / d)
  pure def elementPoly(n: int, p: int, u: Vec, cell: int): Vec =
    range(0, p + 1).foldl(fill(p + 1, 0), (acc, k) =>
      plus(acc, u[dof(n, p, true, cell, k)], numerator(p, k), denominator(p, k)))
  pure def exactGradient(problem: str, n: int, p: int, u: Vec): Vec =
    range(0, n).foldl(fill(n * p, 0), (acc, cell) => {
      val v = elementPoly(n, p, u, cell)
      val f = if (problem == "advection") v else times(v, v).foldl([], (a, x) => a.append(x / (2 * ONE)))
      range(0, p + 1).foldl(acc, (b, k) => {
        val g = dof(n, p, true, cell, k)
        val c = times(f, derived(numerator(p, k)))
        val s = range(0, c.length()).foldl(0, (a, l) => a + c[l] / (l + 1)) / denominator(p, k)
        b.replaceAt(g, b[g] + s)
      })
    })

  // ------------------------------------------------------ semi-discrete schemes
  type Fem = { n: int, p: int, mass: Mat, inv: Mat, grad: Mat, lumped: Vec }
  pure def femOf(n: int, p: int, h: int): Fem = {
    val m = massOf(n, p, h)
    { n: n, p: p, mass: m, inv: inverted(m), grad: gradientOf(n, p), lumped: rowSums(m) }
  }
  pure def cgRhs(problem: str, exact: bool, s: Fem, u: Vec): Vec =
    apply(s.inv, if (exact) exactGradient(problem, s.n, s.p, u) else groupGradient(problem, s.grad, u))
  pure def cgLowRhs(problem: str, s: Fem, u: Vec): Vec = {
    val r = vadd(apply(diffusionOf(problem, s.grad, u), u), groupGradient(problem, s.grad, u))
    mapi(r.length(), i => div(r[i], s.lumped[i]))
  }
  // monolithic convex limiting: antidiffusive fluxes of all pairs sharing a cell,
  // limited such that no intermediate state leaves the local range
  pure def femBound(s: Fem, u: Vec, d: int): Vec = mapi(u.length(), i =>
    feNeighbours(s.n, s.p, true, i).fold(u[i], (m, j) => pick(d, m, u[j])))
  pure def withFluxes(low: Vec, c: Vec, lumped: Vec): Vec = mapi(low.length(), i => low[i] + div(c[i], lumped[i]))
  pure def femMclRhs(problem: str, s: Fem, u: Vec): Vec = {
    val low = cgLowRhs(problem, s, u)
    val d = diffusionOf(problem, s.grad, u)
    val f = vmap(u, x => scalarFlux(problem, x))
    val hi = femBound(s, u, 1)
    val lo = femBound(s, u, -1)
    val m = s.p + 1
    val corrections = range(0, s.n * m * m).foldl(fill(u.length(), 0), (acc, k) => {
      val a = (k / m) % m
      val b = k % m
      if (a >= b) acc else {
        val i = dof(s.n, s.p, true, k / (m * m), a)
        val j = dof(s.n, s.p, true, k / (m * m), b)
        val w = mul(d[i][j], u[i] + u[j]) + mul(f[i] - f[j], s.grad[i][j])
        val target = mul(s.mass[i][j], low[i] - low[j]) + mul(d[i][j], u[i] - u[j])
        val least = imax(2 * mul(d[i][j], lo[i]) - w, w - 2 * mul(d[i][j], hi[j]))
        val most = imin(2 * mul(d[i][j], hi[i]) - w, w - 2 * mul(d[i][j], lo[j]))
        val flux = imax(least, imin(most, target))
        acc.replaceAt(i, acc[i] + flux).replaceAt(j, acc[j] - flux)
      }
    })
    withFluxes(low, corrections, s.lumped)
  }
  pure def femRhs(scheme: str, problem: str, s: Fem, u: Vec): Vec =
    if (scheme == "cg") cgRhs(problem, false, s, u)
    else if (scheme == "cg-exact") cgRhs(problem, true, s, u)
    else if (scheme == "cg-low") cgLowRhs(problem, s, u)
    else femMclRhs(problem, s, u)
  // step size for which one Euler step is bound preserving
  pure def femOptimal(problem: str, s: Fem, u: Vec): int = {
    val d = diffusionOf(problem, s.grad, u)
    range(0, u.length()).foldl(NAN, (m, i) => if (d[i][i] == 0) m else imin(m, div(s.lumped[i], -2 * d[i][i])))
  }
}
