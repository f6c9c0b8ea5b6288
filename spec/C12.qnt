// C12: finite element operators.
module C12 {
  import prelude.* from "./prelude"
  import mesh.* from "./mesh"
  import scalarfv.* from "./scalarfv"
  import fem.* from "./fem"

  // mesh the trace is about, with its matrices
  type St = { n: int, p: int, h: int, mass: Mat, grad: Mat }
  pure val ST0: St = { n: 0, p: 0, h: 0, mass: [], grad: [] }

  // largest entries decide the tolerance: mass scales with h, the gradient with one
  pure def agreeMat(a: Mat, b: Mat, scale: int): bool =
    a.length() == b.length() and every(a.length(), i => agreeTol(a[i], b[i], scale / 2^28))
  pure def symmetric(m: Mat, scale: int): bool =
    every(m.length(), i => each(m.length(), j => near(m[i][j], m[j][i], scale / 2^40)))
  pure def square(m: Mat, n: int): bool = m.length() == n and every(n, i => m[i].length() == n)
  pure def colSums(m: Mat): Vec = rowSums(transposed(m))

  // integral over the cell of a polynomial (coefficients in fixed point, local
  // coordinate) times the polynomial c / d
  pure def cellProduct(f: Vec, c: Vec, d: int): int = {
    val g = times(f, c)
    range(0, g.length()).foldl(0, (a, k) => a + g[k] / (k + 1)) / d
  }
  pure def l2(st: St, f: List[Vec], slopes: bool): Vec =
    range(0, st.n).foldl(fill(st.n * st.p, 0), (acc, cell) =>
      range(0, st.p + 1).foldl(acc, (b, k) => {
        val g = dof(st.n, st.p, true, cell, k)
        val c = numerator(st.p, k)
        val x = cellProduct(f[cell], if (slopes) derived(c) else c, denominator(st.p, k))
        b.replaceAt(g, b[g] + (if (slopes) x else mul(st.h, x)))
      }))
  // value of the element function and of its derivative, z local coordinate
  pure def elementAt(st: St, u: Vec, c: int, z: int): int =
    range(0, st.p + 1).foldl(0, (a, k) => a + mul(u[dof(st.n, st.p, true, c, k)], basisAt(st.p, k, z)))
  pure def elementSlope(st: St, u: Vec, c: int, z: int): int =
    div(range(0, st.p + 1).foldl(0, (a, k) => a + mul(u[dof(st.n, st.p, true, c, k)], basisSlopeAt(st.p, k, z))), st.h)

  pure def basis(v: List[Vec]): List[Verdict] = {
    val p = v[0][0]
    val x = v[1]
    val m = x.length()
    val ok = v.length() == 2 * p + 4 and every(2 * p + 2, k => v[2 + k].length() == m)
    val big = 40 * 4^p
    List(
      chk("basis functions are the Lagrange polynomials", ok and every(p + 1, k => each(m, j =>
        near(v[2 + k][j], basisAt(p, k, x[j]), big * ONE / 2^40)))),
      chk("derivatives of the basis functions", ok and every(p + 1, k => each(m, j =>
        near(v[3 + p + k][j], basisSlopeAt(p, k, x[j]), p * big * ONE / 2^40)))),
      chk("the basis sums up to one", ok and every(m, j =>
        near(range(0, p + 1).foldl(0, (a, k) => a + v[2 + k][j]), ONE, big * ONE / 2^40))),
      chk("basis functions are one at their own and zero at the other nodes", ok and every(p + 1, k => each(p + 1, j =>
        near(v[2 + k][j], if (k == j) ONE else 0, big * ONE / 2^40)))))
  }

  pure def diffusion(st: St, problem: str, u: Vec, m: Mat): List[Verdict] = {
    val n = st.n * st.p
    val ok = square(m, n)
    val scale = ONE + maxabs(u)
    val tol = scale / 2^40
    List(chk("artificial diffusion is the discrete upwind one", ok and agreeMat(diffusionOf(problem, st.grad, u), m, scale)),
      chk("artificial diffusion is symmetric", ok and symmetric(m, scale)),
      chk("artificial diffusion has zero row sums", ok and vevery(rowSums(m), x => iabs(x) <= tol)),
      chk("artificial diffusion is non-negative off the diagonal", ok and every(n, i => each(n, j => i == j or m[i][j] >= -tol))),
      chk("artificial diffusion dominates the transport", ok and every(n, i => each(n, j => i == j or
        m[i][j] + scale / 2^30 >= iabs(mul(st.grad[i][j], imax(iabs(charSpeed(problem, u[i])), iabs(charSpeed(problem, u[j]))))))))
    )
  }

  pure def judge(st: St, e: Ev): { st: St, vs: List[Verdict] } = {
    val v = dec(e.d)
    if (e.k == "space") {
      // [n, p], [a, b, h], degrees of freedom, grid
      val n = v[0][0]
      val p = v[0][1]
      val h = v[1][2]
      { st: { n: n, p: p, h: h, mass: massOf(n, p, h), grad: gradientOf(n, p) },
        vs: List(chk("dimension of the space", v[2] == [n * p]),
          chk("nodes of the space", agreeK(mapi(n * p, i => v[1][0] + fdiv((v[1][1] - v[1][0]) * i, n * p)), v[3], 40))) }
    } else { st: st, vs:
      if (e.k == "basis") basis(v)
      else if (e.k == "mass") {
        val n = st.n * st.p
        val ok = square(v, n)
        List(chk("mass matrix", ok and agreeMat(st.mass, v, st.h)),
          chk("mass matrix is symmetric", ok and symmetric(v, st.h)),
          chk("total mass is the length of the domain", ok and near(sumv(rowSums(v)), st.n * st.h, st.n * st.h / 2^36)))
      }
      else if (e.k == "gradient") {
        val ok = square(v, st.n * st.p)
        List(chk("gradient matrix", ok and agreeMat(st.grad, v, ONE)),
          chk("gradient has zero row sums", ok and vevery(rowSums(v), x => iabs(x) <= ONE / 2^32)),
          chk("gradient has zero column sums", ok and vevery(colSums(v), x => iabs(x) <= ONE / 2^32)))
      }
      else if (e.k == "lumped")
        List(chk("lumped mass is the row sum of the mass", agreeTol(rowSums(st.mass), v[0], st.h / 2^30)))
      else if (e.k == "diffusion") diffusion(st, e.s[0], v[0], v.slice(1, v.length()))
      else if (e.k == "apply") {
        val m = if (e.s[0] == "mass") st.mass else if (e.s[0] == "gradient") st.grad
          else diffusionOf(e.s[1], st.grad, v[0])
        List(chk("matrix vector product", agreeTol(apply(m, v[1]), v[2], tolAt(mul(ONE + maxabs(v[0]), maxabs(v[1])), 28))))
      }
      else if (e.k == "inverse") // right hand side, solution
        List(chk("inverse of the mass matrix", sameLen(v[0], v[1]) and agreeTol(apply(st.mass, v[1]), v[0], tolAt(maxabs(v[0]), 24))))
      else if (e.k == "flux") {
        val g = if (e.s[1] == "exact") exactGradient(e.s[0], st.n, st.p, v[0]) else groupGradient(e.s[0], st.grad, v[0])
        List(chk("flux gradient", agreeTol(g, v[1], tolAt(maxabs(g), 26))),
          chk("flux gradients sum up to zero", near(sumv(v[1]), 0, v[1].length() * tolAt(maxabs(g), 28))))
      }
      else if (e.k == "approximation")
        List(chk("flux approximation", agree(vmap(v[0], x => scalarFlux(e.s[0], x)), v[1])))
      else if (e.k == "l2")
        List(chk("products with the basis", agreeTol(l2(st, v.slice(1, v.length()), false), v[0], ONE / 2^26)))
      else if (e.k == "l2-slopes")
        List(chk("products with the derivatives of the basis", agreeTol(l2(st, v.slice(1, v.length()), true), v[0], 8^(st.p) * ONE / 2^32)))
      else if (e.k == "element") {
        // coefficients, [cells], local coordinates, values, slopes
        val m = v[1].length()
        val big = 40 * 4^(st.p)
        val scale = ONE + maxabs(v[0])
        List(chk("values of element functions", v[3].length() == m and every(m, j =>
            near(v[3][j], elementAt(st, v[0], v[1][j], v[2][j]), big * scale / 2^38))),
          chk("derivatives of element functions", v[4].length() == m and every(m, j =>
            near(v[4][j], elementSlope(st, v[0], v[1][j], v[2][j]), div(st.p * big * scale / 2^38, imin(ONE, st.h))))))
      }
      else if (e.k == "same") List(chk(e.s[0], agreeTol(v[0], v[1], tolAt(maxabs(v[0]), 32))))
      else List(chk("unknown event", false)) }
  }
}
