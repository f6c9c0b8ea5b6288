// C10: meshes, coarsening, numberings, neighbourhoods.
module C10 {
  import prelude.* from "./prelude"
  import mesh.* from "./mesh"
  import solution.* from "./solution"

  type St = int
  pure val ST0: St = 0
  pure def fits(a: Vec, b: Vec, scale: int): bool = agreeTol(a, b, tolAt(scale, 44))

  // v[0] = [a, b, n], left ends, right ends, steps [step length, ...]
  pure def isMesh(v: List[Vec]): List[Verdict] = {
    val a = v[0][0]
    val b = v[0][1]
    val n = v[0][2]
    val nodes = meshNodes(a, b, n)
    val ok = v[1].length() == n and v[2].length() == n
    val scale = imax(iabs(a), iabs(b))
    List(
      chk("number of cells", ok),
      chk("the mesh is a partition without gaps", ok and v[1][0] == a and v[2][n - 1] == b and every(n - 1, i => v[2][i] == v[1][i + 1])),
      chk("cells are equal", ok and fits(nodes.slice(0, n), v[1], scale) and fits(nodes.slice(1, n + 1), v[2], scale)),
      chk("step lengths", v[3].length() == n + 1 and vevery(v[3], x => near(x, fdiv(b - a, n), tolAt(scale, 44)))))
  }

  pure def judge(st: St, e: Ev): { st: St, vs: List[Verdict] } = {
    val v = dec(e.d)
    { st: st, vs:
      if (e.k == "mesh") isMesh(v)
      else if (e.k == "refused") // v[0] = [size, degree]
        List(chk("indivisible coarsening degrees are refused, others accepted", (e.s[0] == "refused") == not(divisible(v[0][0], v[0][1]))))
      else if (e.k == "find")
        List(chk("a point is found in exactly the cells containing it", containing(v[0], v[1], v[2][0]) == v[3]),
          chk("found cells are the cells of the found indices", every(v[3].length(), i => v[0][v[3][i]] == v[4][i] and v[1][v[3][i]] == v[5][i]) and sameLen(v[3], v[4])))
      else if (e.k == "equal")
        List(chk("meshes are equal exactly if domain and size are", (e.s[0] == "True") == (v[0] == v[1])))
      else if (e.k == "interval") {
        // [a, b, x], [length, center, contains, inner, boundary]
        val a = v[0][0]
        val b = v[0][1]
        val x = v[0][2]
        val t = tolAt(imax(iabs(a), iabs(b)), 48)
        List(chk("length and centre of an interval", near(b - a, v[1][0], t) and near((a + b) / 2, v[1][1], t)),
          chk("points in an interval", (v[1][2] == 1) == (a <= x and x <= b) and (v[1][3] == 1) == (a < x and x < b)
            and (v[1][4] == 1) == (a == x or b == x)))
      }
      else if (e.k == "affine") {
        // [a, b, x], [map, inverse of map, derivative, inverse derivative, inverse(y), map of it, y]
        val a = v[0][0]
        val b = v[0][1]
        val t = tolAt(iabs(a) + iabs(b) + div(ONE + iabs(a), b - a), 40)
        List(chk("mapping from the reference cell", near(a + mul(b - a, v[0][2]), v[1][0], t)),
          chk("mappings from and to the reference cell are inverse", near(v[0][2], v[1][1], t) and near(v[1][6], v[1][5], t)),
          chk("derivatives of the mappings", near(b - a, v[1][2], t) and near(ONE, mul(v[1][2], v[1][3]), t)))
      }
      else if (e.k == "coarsen") {
        // [degree, columns], fine, coarse
        val c = coarsen(v[1], v[0][0], v[0][1])
        List(chk("coarsening averages the fine cells of each coarse cell", agreeK(c, v[2], 44)),
          chk("coarsening keeps the total", near(sumv(v[1]), v[0][0] * sumv(v[2]), tolAt(maxabs(v[1]), 36))))
      }
      else if (e.k == "coarse-shape") // [degree], shape before and after
        List(chk("coarsening keeps the shape but for the number of cells", sameLen(v[1], v[2])
          and every(v[1].length(), i => v[2][i] == (if (i == 0) v[1][0] / v[0][0] else v[1][i]))))
      else if (e.k == "fine-cells") // [degree, index], result; coarse cell ends, fine left ends, fine right ends
        List(chk("fine cells of a coarse cell", v[1] == fineCells(v[0][0], v[0][1])),
          chk("fine cells lie in their coarse cell", vevery(v[1], j => j < v[3].length() and
            v[3][j] >= v[2][0] - tolAt(v[2][0], 44) and v[4][j] <= v[2][1] + tolAt(v[2][1], 44))))
      else if (e.k == "global") // [cells, degree, periodic, cell, local, result, dimension]
        List(chk("global number of a degree of freedom", v[0][5] == dof(v[0][0], v[0][1], v[0][2] == 1, v[0][3], v[0][4])),
          chk("number of degrees of freedom", v[0][6] == dofNumber(v[0][0], v[0][1], v[0][2] == 1)))
      else if (e.k == "neighbours") {
        // [cells, degree (0: finite volumes), periodic, index], neighbours, row of the array
        val s = if (v[0][1] == 0) fvNeighbours(v[0][0], v[0][2] == 1, v[0][3])
          else feNeighbours(v[0][0], v[0][1], v[0][2] == 1, v[0][3])
        List(chk("neighbours are those sharing a cell", setOf(v[1]) == s and v[1].length() == s.size()),
          chk("array of neighbours", setOf(v[2]) == s))
      }
      else if (e.k == "extrema") {
        // [cells, degree, periodic], data, maxima, minima
        val n = v[1].length()
        def nb(i: int): Set[int] = if (v[0][1] == 0) fvNeighbours(v[0][0], v[0][2] == 1, i) else feNeighbours(v[0][0], v[0][1], v[0][2] == 1, i)
        List(chk("local extrema are those of the neighbours", v[2].length() == n and v[3].length() == n and every(n, i => {
          val s = range(0, n).foldl([], (acc, j) => if (nb(i).contains(j)) acc.append(j) else acc)
          v[2][i] == extremum(1, v[1], s) and v[3][i] == extremum(-1, v[1], s) })))
      }
      else if (e.k == "grid") {
        // [a, b, cells, degree (0: cell centres)], grid, [dimension]
        val a = v[0][0]
        val b = v[0][1]
        val n = v[0][2]
        val p = v[0][3]
        val g = if (p == 0) mapi(n, i => meshNode(a, b, 2 * n, 2 * i + 1)) else mapi(n * p, i => meshNode(a, b, n * p, i))
        List(chk("grid of the space", fits(g, v[1], imax(iabs(a), iabs(b)))),
          chk("dimension of the space", v[2][0] == g.length()))
      }
      else [] }
  }
}
