// Finite volume schemes for scalar conservation laws u_t + f(u)_x = 0.
module scalarfv {
  import prelude.* from "./prelude"
  import boundary.* from "./boundary"

  pure def scalarFlux(problem: str, u: int): int = if (problem == "advection") u else sq(u) / 2
  pure def charSpeed(problem: str, u: int): int = if (problem == "advection") ONE else u
  pure def speed(problem: str, l: int, r: int): int =
    imax(iabs(charSpeed(problem, l)), iabs(charSpeed(problem, r)))

  pure def centralNode(problem: str, l: int, r: int): int =
    (scalarFlux(problem, l) + scalarFlux(problem, r)) / 2
  pure def llfNode(problem: str, l: int, r: int): int =
    centralNode(problem, l, r) - mul(speed(problem, l, r), r - l) / 2
  // intermediate state of the Riemann problem
  pure def barState(problem: str, l: int, r: int): int = {
    val s = speed(problem, l, r)
    if (s == 0) 0 else (l + r) / 2 - div(scalarFlux(problem, r) - scalarFlux(problem, l), 2 * s)
  }

  pure def clip(lo: int, hi: int, x: int): int = imax(lo, imin(hi, x))

  // limited antidiffusive flux of one node: states and bounds of both cells
  pure def limited(f: int, s: int, barL: int, barR: int,
                   maxL: int, maxR: int, minL: int, minR: int): int =
    clip(mul(s, imax(minR - barR, barL - maxL)), mul(s, imin(maxR - barR, barL - minL)), f)

  // p: cells with one ghost cell per side; node i lies between p[i] and p[i + 1];
  // the ghost cell of a periodic mesh has the neighbours of the cell it copies
  pure def mclBound(p: Vec, periodic: bool, i: int, d: int): int = {
    val n = p.length()
    val left = if (i > 0) p[i - 1] else if (periodic) p[n - 3] else p[i]
    val right = if (i < n - 1) p[i + 1] else if (periodic) p[2] else p[i]
    pick(d, p[i], pick(d, left, right))
  }
  pure def mclNode(problem: str, p: Vec, periodic: bool, i: int): int = {
    val l = p[i]
    val r = p[i + 1]
    val low = llfNode(problem, l, r)
    val bar = barState(problem, l, r)
    low + limited(centralNode(problem, l, r) - low, speed(problem, l, r), bar, bar,
      mclBound(p, periodic, i, 1), mclBound(p, periodic, i + 1, 1),
      mclBound(p, periodic, i, -1), mclBound(p, periodic, i + 1, -1))
  }
  pure def scalarNodes(scheme: str, problem: str, p: Vec, periodic: bool): Vec =
    mapi(p.length() - 1, i =>
      if (scheme == "llf") llfNode(problem, p[i], p[i + 1])
      else if (scheme == "central") centralNode(problem, p[i], p[i + 1])
      else mclNode(problem, p, periodic, i))

  pure def differences(f: Vec, dx: int): Vec = mapi(f.length() - 1, i => div(f[i] - f[i + 1], dx))
  // time derivative of the cell averages
  pure def scalarRhs(scheme: str, problem: str, cl: str, cr: str, u: Vec, dx: int, inL: int, inR: int): Vec = {
    val p = padded(cl, cr, u, 1, x => x, inL, inR)
    differences(scalarNodes(scheme, problem, p, cl == "periodic"), dx)
  }
}
