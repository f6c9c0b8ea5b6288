// Uniform meshes, degrees of freedom and their neighbourhoods, coarsening.
module mesh {
  import prelude.* from "./prelude"

  // node i of a uniform mesh of n cells on [a, b]
  pure def meshNode(a: int, b: int, n: int, i: int): int = a + fdiv((b - a) * i, n)
  pure def meshNodes(a: int, b: int, n: int): Vec = mapi(n + 1, i => meshNode(a, b, n, i))
  pure def containing(lo: Vec, hi: Vec, x: int): Vec =
    range(0, lo.length()).foldl([], (acc, i) => if (lo[i] <= x and x <= hi[i]) acc.append(i) else acc)
  pure def divisible(n: int, k: int): bool = k > 0 and n % k == 0

  // fine cells of coarse cell i
  pure def fineCells(k: int, i: int): Vec = mapi(k, j => k * i + j)

  // degrees of freedom of continuous elements of degree p
  pure def dofNumber(n: int, p: int, periodic: bool): int = if (periodic) n * p else n * p + 1
  pure def dof(n: int, p: int, periodic: bool, cell: int, local: int): int =
    if (periodic) wrap(cell * p + local, n * p) else cell * p + local
  // (only cells next to the degree of freedom can contain it)
  pure def cellsOfDof(n: int, p: int, periodic: bool, i: int): Vec =
    range(imax(0, i / p - 1), imin(n, i / p + 2)).append(n - 1).foldl([], (acc, c) =>
      if (not(acc.foldl(false, (o, x) => o or x == c)) and
          range(0, p + 1).foldl(false, (any_, j) => any_ or dof(n, p, periodic, c, j) == i)) acc.append(c) else acc)
  // all degrees of freedom sharing a cell
  pure def feNeighbours(n: int, p: int, periodic: bool, i: int): Set[int] =
    cellsOfDof(n, p, periodic, i).foldl(Set(), (s, c) =>
      range(0, p + 1).foldl(s, (u, j) => u.union(Set(dof(n, p, periodic, c, j)))))
  // cells sharing a node
  pure def fvNeighbours(n: int, periodic: bool, i: int): Set[int] =
    if (periodic) Set(wrap(i - 1, n), i, wrap(i + 1, n)) else Set(imax(i - 1, 0), i, imin(i + 1, n - 1))
  pure def setOf(v: Vec): Set[int] = v.foldl(Set(), (s, x) => s.union(Set(x)))
  pure def extremum(d: int, u: Vec, s: Vec): int = s.foldl(u[s[0]], (m, i) => pick(d, m, u[i]))
}
