// The tableaus of ode.qnt satisfy the order conditions: for every rooted tree
// with at most eight vertices (as parent lists, one per step) the elementary
// weight of the method is one over the density of the tree.
module model_rk {
  import prelude.* from "./prelude"
  import ode.* from "./ode"

  var n: int // vertices of the tree
  var code: int // mixed radix number of its parent list, below (n - 1)!

  pure def factorial(k: int): int = range(1, k + 1).foldl(1, (a, i) => a * i)
  // parent of vertex i (i >= 1) is a vertex below i
  pure def parents(nv: int, c: int): Vec =
    range(1, nv).foldl({ r: c, o: [-1] }, (a, i) => { r: a.r / i, o: a.o.append(a.r % i) }).o
  pure def subtree(p: Vec): Vec = // number of vertices below and including each vertex
    range(0, p.length()).foldl(fill(p.length(), 1), (s, j) => {
      val i = p.length() - 1 - j
      if (i > 0) s.replaceAt(p[i], s[p[i]] + s[i]) else s
    })
  pure def density(p: Vec): int = subtree(p).foldl(1, (a, x) => a * x)
  // product over children of A * (weights of the child), all stages
  pure def elementary(t: Tableau, p: Vec): int = {
    val s = t.b.length()
    val w = range(0, p.length()).foldl(tab(p.length(), _ => fill(s, ONE)), (acc, j) => {
      val i = p.length() - 1 - j
      if (i == 0) acc
      else acc.replaceAt(p[i], mapi(s, k => mul(acc[p[i]][k], dot(t.a[k], acc[i]))))
    })
    dot(t.b, w[0])
  }
  pure def satisfied(t: Tableau, p: Vec): bool = iabs(elementary(t, p) * density(p) - ONE) < ONE / 2^50

  action init = all { n' = 1, code' = 0 }
  action step = all {
    n <= 8,
    if (code + 1 < factorial(n - 1)) all { n' = n, code' = code + 1 }
    else all { n' = n + 1, code' = 0 }
  }
  pure def holdsFor(m: str, nv: int, c: int): bool =
    nv <= orderOf(m) implies satisfied(tableau(m), parents(nv, c))
  val order_conditions = List("euler", "heun", "ssp3", "rk8").foldl(true, (ok, m) => ok and holdsFor(m, n, code))
  // row sums are the nodes
  val nodes_are_row_sums = List("euler", "heun", "ssp3", "rk8").foldl(true, (ok, m) =>
    ok and every(tableau(m).c.length(), i => iabs(sumv(tableau(m).a[i]) - tableau(m).c[i]) < 2^20))
}
