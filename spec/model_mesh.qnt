// Neighbourhoods and coarsenings on all small meshes: one mesh per step.
module model_mesh {
  import prelude.* from "./prelude"
  import mesh.* from "./mesh"
  import solution.* from "./solution"

  var n: int
  var p: int
  action init = all { n' = 1, p' = 1 }
  action step = all { n <= 7, if (p < 5) all { n' = n, p' = p + 1 } else all { n' = n + 1, p' = 1 } }

  val pers = Set(true, false)
  val feSymmetric = pers.forall(q => 0.to(dofNumber(n, p, q) - 1).forall(i => {
    val s = feNeighbours(n, p, q, i)
    s.contains(i) and s.forall(j => feNeighbours(n, p, q, j).contains(i)) }))
  val fvSymmetric = pers.forall(q => 0.to(n - 1).forall(i => {
    val s = fvNeighbours(n, q, i)
    s.contains(i) and s.forall(j => fvNeighbours(n, q, j).contains(i)) }))
  // every number is used, neighbouring cells share exactly one
  val partition = pers.forall(q => {
    val used = 0.to(n - 1).map(c => 0.to(p).map(j => dof(n, p, q, c, j))).flatten()
    used == 0.to(dofNumber(n, p, q) - 1)
      and (n > 2 implies 0.to(n - 2).forall(c => 0.to(p).map(j => dof(n, p, q, c, j)).intersect(0.to(p).map(j => dof(n, p, q, c + 1, j))).size() == 1)) })
  // linear elements on a closed ring see the same neighbours as cells
  val ring = p == 1 implies 0.to(n - 1).forall(i => feNeighbours(n, 1, true, i) == fvNeighbours(n, true, i))
  // coarsening twice is coarsening once by the product; totals are kept
  pure def data(k: int): Vec = mapi(k, i => 720 * ((i * 7 + 3) % 11) - 1440)
  val composition = coarsen(coarsen(data(n * p * 2), p, 1), 2, 1) == coarsen(data(n * p * 2), 2 * p, 1)
    and sumv(coarsen(data(n * p), p, 1)) * p == sumv(data(n * p))
  val fineCellsPartition = 0.to(n - 1).map(i => setOf(fineCells(p, i))).flatten() == 0.to(n * p - 1)
  // refining keeps the coarse nodes
  val nested = every(n + 1, i => meshNode(0, 5040, n, i) == meshNode(0, 5040, n * p, i * p))
  val inv = feSymmetric and fvSymmetric and partition and ring and composition and fineCellsPartition and nested
}
