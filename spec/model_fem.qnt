// Laws of the finite element operators and schemes as they are specified.
module model_fem {
  import prelude.* from "./prelude"
  import mesh.* from "./mesh"
  import scalarfv.* from "./scalarfv"
  import fem.* from "./fem"

  var s: Fem
  var u: Vec
  var before: Vec
  var scheme: str
  var problem: str

  pure val H: int = ONE / 4
  pure val TINY: int = ONE / 2^50
  pure val LOW: Set[str] = Set("cg-low", "mcl-fem")

  // (inverting the mass matrix is what takes the time: few meshes)
  action init = {
    nondet mesh = Set((2, 1), (3, 1), (4, 1), (5, 1), (2, 2), (3, 2), (2, 3)).oneOf()
    nondet a = tuples((-4).to(4), (-4).to(4), (-4).to(4)).oneOf()
    nondet b = tuples((-4).to(4), (-4).to(4), (-4).to(4)).oneOf()
    nondet k = Set("cg", "cg-exact", "cg-low", "mcl-fem").oneOf()
    nondet f = Set("advection", "burgers").oneOf()
    val x = List(a._1, a._2, a._3, b._1, b._2, b._3).foldl([], (v, y) => v.append(y * ONE / 4)).slice(0, mesh._1 * mesh._2)
    all { s' = femOf(mesh._1, mesh._2, H), u' = x, before' = x, scheme' = k, problem' = f }
  }
  pure def stepSize(k: str, f: str, m: Fem, x: Vec): int =
    if (LOW.contains(k)) imin(ONE, femOptimal(f, m, x)) else ONE / 64
  action step = all {
    maxabs(u) <= 64 * ONE, // central schemes may grow
    before' = u,
    u' = axpy(stepSize(scheme, problem, s, u), femRhs(scheme, problem, s, u), u),
    s' = s, scheme' = scheme, problem' = problem
  }

  val n = u.length()
  val scale = ONE + sq(maxabs(u)) + maxabs(u)
  val tol = mul(scale, TINY)
  pure def unit(m: int, i: int): Vec = fill(m, 0).replaceAt(i, ONE)
  // mass symmetric with total length, its inverse, gradient skew-symmetric without constants
  val massSymmetric = every(n, i => each(n, j => near(s.mass[i][j], s.mass[j][i], TINY))) and near(sumv(s.lumped), s.n * H, TINY)
  val massInverse = every(n, i => agreeTol(apply(s.mass, s.inv[i]), unit(n, i), TINY))
  val skew = every(n, i => each(n, j => near(s.grad[i][j], -s.grad[j][i], TINY))) and every(n, i => near(sumv(s.grad[i]), 0, TINY))
  val operators = massSymmetric and massInverse and skew
  // all schemes conserve the integral, linear combinations of which are the lumped masses
  val conserved = near(dot(s.lumped, u), dot(s.lumped, before), tol)
  // new values between the old ones of the elements around
  def around(i: int, d: int): int = femBound(s, before, d)[i]
  val bounded = LOW.contains(scheme) implies every(n, i =>
    around(i, -1) - tol <= u[i] and u[i] <= around(i, 1) + tol)
  val slope = femRhs(scheme, problem, s, u)
  val constant = agreeTol(femRhs(scheme, problem, s, fill(n, u[0])), fill(n, 0), tol)
  val shifted = agreeTol(femRhs(scheme, problem, s, rot(u, s.p)), rot(slope, s.p), tol)
  pure def imaged(v: Vec): Vec = vneg(rot(rev(v), 1))
  val mirrored = problem == "burgers" implies agreeTol(femRhs(scheme, problem, s, imaged(u)), imaged(slope), tol)
  // interpolated and exact fluxes are the same where the flux is linear
  val sameFluxes = (problem == "advection" and scheme == "cg") implies agreeTol(slope, femRhs("cg-exact", problem, s, u), tol)
  // the diffusion is conservative, symmetric and nonnegative
  pure def symmetricDiffusion(d: Mat): bool = every(d.length(), i => near(sumv(d[i]), 0, TINY) and each(d.length(), j =>
    near(d[i][j], d[j][i], TINY) and (i == j or d[i][j] >= 0)))
  val diffusive = symmetricDiffusion(diffusionOf(problem, s.grad, u))
  // what the exact scheme does to the energy: nothing
  val energyKept = (scheme == "cg-exact" or (scheme == "cg" and problem == "advection")) implies
    near(dot(apply(s.mass, slope), u), 0, mul(scale, tol))
  val laws = operators and conserved and bounded and constant and shifted and mirrored and sameFluxes and diffusive and energyKept
}
