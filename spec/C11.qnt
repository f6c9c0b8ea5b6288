// C11: quadrature, interpolation, norms.
module C11 {
  import prelude.* from "./prelude"
  import calculus.* from "./calculus"
  import mesh.* from "./mesh"

  type St = int
  pure val ST0: St = 0

  pure def judge(st: St, e: Ev): { st: St, vs: List[Verdict] } = {
    val v = dec(e.d)
    { st: st, vs:
      if (e.k == "quadrature") {
        // [a, b, n], nodes, weights
        val a = v[0][0]
        val b = v[0][1]
        val n = v[0][2]
        val ok = v[1].length() == n and v[2].length() == n
        List(chk("number of quadrature nodes", ok),
          chk("Gaussian quadrature is exact up to degree 2n-1", ok and exactUpTo(v[1], v[2], a, b, 2 * n - 1, ONE / 2^38)),
          chk("weights are positive and sum up to the length", vevery(v[2], w => w > 0) and near(sumv(v[2]), b - a, tolAt(b - a, 40))),
          chk("nodes lie inside", vevery(v[1], x => a < x and x < b)),
          chk("domain of the quadrature", v[3] == List(a, b, n)))
      }
      else if (e.k == "integral") // [a, b], coefficients, [result]
        List(chk("integrals of polynomials within reach are exact",
          near(integral(v[1], v[0][0], v[0][1]), v[2][0], tolAt(maxabs(v[1]) * 16, 32))))
      else if (e.k == "values") // weights, values, [result]
        List(chk("an integral is the weighted sum of the values", near(dot(v[0], v[1]), v[2][0], tolAt(maxabs(v[1]), 36))))
      else if (e.k == "averages") {
        // [a, b, n], coefficients, averages
        val a = v[0][0]
        val b = v[0][1]
        val n = v[0][2]
        val x = meshNodes(a, b, n)
        val q = primitive(v[1])
        List(chk("cell averages of polynomials", v[2].length() == n and every(n, i =>
          near(div(poly(q, x[i + 1]) - poly(q, x[i]), x[i + 1] - x[i]), v[2][i], tolAt(maxabs(v[1]) * 16, 30)))))
      }
      else if (e.k == "nodal") // nodes, coefficients, values
        List(chk("nodal values of polynomials", agreeTol(mapi(v[0].length(), i => poly(v[1], v[0][i])), v[2], tolAt(maxabs(v[1]) * 16, 36))))
      else if (e.k == "linear") // old grid, old values, new grid, new values
        List(chk("interpolation is piecewise linear", agreeTol(mapi(v[2].length(), i => linear(v[0], v[1], v[2][i])), v[3], tolAt(maxabs(v[1]), 36))))
      else if (e.k == "norm") {
        // [dx, points, norm of f, norm of alpha f, alpha], one vector of coefficients per cell
        val c = v.slice(1, v.length())
        val f = v[0][2]
        val scale = c.foldl(0, (m, x) => imax(m, maxabs(x)))
        val t = tolAt(scale * 8, 32)
        List(
          if (e.s[0] == "L2") chk("L2 norm is the exact integral", near(l2square(c, v[0][0]), sq(f), mul(t, ONE + scale + v[0][0])) and f >= 0)
          else if (e.s[0] == "L1") chk("L1 norm is the exact integral", near(l1(c, v[0][0]), f, t + mul(t, v[0][0]) * 16))
          else chk("maximum norm is the largest sampled value", near(sampledMax(c, v[0][1]), f, t)),
          chk("norms are homogeneous", near(mul(iabs(v[0][4]), f), v[0][3], tolAt(v[0][3], 36) + tolAt(f, 36))))
      }
      else // "shape": expected and found
        List(chk("shape of vector-valued results", v[0] == v[1])) }
  }
}
