// C13: numerical fluxes are the published formulas.
module C13 {
  import prelude.* from "./prelude"
  import boundary.* from "./boundary"
  import scalarfv.* from "./scalarfv"
  import swe.* from "./swe"

  // the only state is the recorded history of a flux with history
  type St = { left: List[Vec], right: List[Vec] }
  pure val ST0: St = { left: [], right: [] }

  pure def nodesL(n: List[Node]): List[Cell] = tab(n.length(), i => n[i].l)
  pure def nodesR(n: List[Node]): List[Cell] = tab(n.length(), i => n[i].r)
  pure def agreeCells(c: List[Cell], h: Vec, q: Vec): bool = agree(heights(c), h) and agree(discharges(c), q)

  pure def shallowNodes(e: Ev, v: List[Vec]): List[Verdict] = {
    val s = { name: e.s[0], sub: e.s[1], g: v[0][0], dx: v[0][1], dt: v[0][2], gamma: v[0][3] }
    val p = cells(v[1], v[2])
    val b = bottomPadded(v[3])
    val n = nodesOf(s, p, b, e.s[2] == "periodic")
    val ok = sameLen(v[4], v[6]) and v[4].length() == p.length() - 1
      and sameLen(v[5], v[4]) and sameLen(v[7], v[4])
    List(chk("node flux seen from the left cell is the published one", agreeCells(nodesL(n), v[4], v[5])),
     chk("node flux seen from the right cell is the published one", agreeCells(nodesR(n), v[6], v[7])),
     chk("height fluxes of a node are opposite", agree(v[4], vneg(v[6]))))
      .concat(chkIf(flat(v[3]) and ok, "over a flat bottom discharge fluxes of a node are opposite", agree(v[5], vneg(v[7]))))
      .concat(chkIf(flat(v[3]) and ok, "equal states have the physical flux", every(p.length() - 1, i =>
        p[i] == p[i + 1] and s.name != "mcl" implies {
          val f = flux(s.g, p[i])
          close(f.h, v[6][i]) and close(f.q, v[7][i]) })))
      .concat(chkIf(ok, "nothing flows between dry cells", every(p.length() - 1, i =>
        p[i] == ZERO and p[i + 1] == ZERO and s.name != "mcl" implies
          v[4][i] == 0 and v[5][i] == 0 and v[6][i] == 0 and v[7][i] == 0)))
  }

  pure def scalarNodesEv(e: Ev, v: List[Vec]): List[Verdict] = {
    val f = scalarNodes(e.s[0], e.s[1], v[0], e.s[2] == "periodic")
    val lo = scalarNodes("llf", e.s[1], v[0], false)
    val hi = scalarNodes("central", e.s[1], v[0], false)
    List(chk("scalar node flux is the published one", agree(f, v[2]) and agree(vneg(f), v[1])))
      .concat(chkIf(sameLen(v[2], f), "scalar: equal states have the physical flux", every(f.length(), i =>
        v[0][i] == v[0][i + 1] implies close(v[2][i], scalarFlux(e.s[1], v[0][i])))))
      // the limited flux lies between the low order and the target flux
      .concat(chkIf(sameLen(v[2], f) and e.s[0] == "mcl-fv", "limited flux lies between low order and target flux",
        every(f.length(), i => v[2][i] <= imax(lo[i], hi[i]) + tolAt(hi[i], 30)
          and v[2][i] >= imin(lo[i], hi[i]) - tolAt(hi[i], 30))))
  }

  pure def physical(e: Ev, v: List[Vec]): List[Verdict] = {
    val g = v[0][0]
    val c = cells(v[1], v[2])
    val f = tab(c.length(), i => flux(g, c[i]))
    List(chk("physical shallow water flux", agreeCells(f, v[3], v[4])))
  }

  pure def speeds(e: Ev, v: List[Vec]): List[Verdict] = {
    val g = v[0][0]
    val l = cells(v[1], v[2])
    val r = cells(v[3], v[4])
    val n = l.length()
    val ok = every(4, k => v[5 + k].length() == n)
    def t(i: int): int = tolAt(v[6][i], 30)
    List(chk("maximum wave speed", agree(mapi(n, i => waveSpeed(g, l[i], r[i])), v[6]) and agree(vneg(v[6]), v[5])),
     chk("one-sided wave speeds", agree(mapi(n, i => oneSided(g, l[i], r[i]).l), v[7])
       and agree(mapi(n, i => oneSided(g, l[i], r[i]).r), v[8])),
     chk("maximum wave speed bounds all characteristic speeds", ok and every(n, i =>
       speedOf(g, l[i]) <= v[6][i] + t(i) and speedOf(g, r[i]) <= v[6][i] + t(i))),
     chk("one-sided wave speeds bound all characteristic speeds", ok and every(n, i =>
       List(l[i], r[i]).foldl(true, (a, c) => a
         and v[7][i] <= vel(c) - cel(g, c.h) + t(i) and v[8][i] >= vel(c) + cel(g, c.h) - t(i)))))
  }

  pure def scalarSpeeds(e: Ev, v: List[Vec]): List[Verdict] = {
    val n = v[0].length()
    List(chk("scalar wave speed", agree(mapi(n, i => speed(e.s[0], v[0][i], v[1][i])), v[3]) and agree(vneg(v[3]), v[2])),
     chk("scalar wave speed bounds both characteristic speeds", v[3].length() == n and every(n, i =>
       iabs(charSpeed(e.s[0], v[0][i])) <= v[3][i] + tolAt(v[3][i], 30) and
       iabs(charSpeed(e.s[0], v[1][i])) <= v[3][i] + tolAt(v[3][i], 30))),
     chk("scalar physical flux", agree(vmap(v[0], x => scalarFlux(e.s[0], x)), v[4])))
  }

  // Riemann solver with any flux values and wave speeds sl <= 0 <= sr
  pure def riemann(e: Ev, v: List[Vec]): List[Verdict] = {
    val n = v[0].length()
    // v: fl fr l r sl sr flux state
    List(chk("Riemann solver: intermediate state", agree(mapi(n, i => hllState(v[0][i], v[1][i], v[2][i], v[3][i], v[4][i], v[5][i])), v[7])),
     chk("Riemann solver: flux", agree(mapi(n, i => hllFlux(v[0][i], v[1][i], v[2][i], v[3][i], v[4][i], v[5][i])), v[6])),
     // integral consistency of the approximate solution
     chk("Riemann solver: fluxes of both sides match", sameLen(v[6], v[7]) and every(n, i =>
       v[4][i] == v[5][i] or near(v[6][i], v[1][i] - mul(v[5][i], v[3][i] - v[7][i]), tolAt(maxabs(v[6]) + maxabs(v[1]), 27)))))
  }

  pure def rejection(e: Ev, v: List[Vec]): List[Verdict] =
    List(chk("negative heights are rejected, others are not",
      (e.s[0] == "rejected") == (minv(v[0]) < 0)))

  // node values between cells: chosen centrally
  pure def required(e: Ev, v: List[Vec]): List[Verdict] = {
    val k = v[0][0]
    val n = v[0][1]
    val d = (n - k) / 2
    List(chk("central selection of the inputs", v.length() == 1 + n + k
      and every(k, j => v[1 + n + j] == v[1 + d + j])))
  }
  pure def dofVector(e: Ev, v: List[Vec]): List[Verdict] = {
    val n = v.length() - 1
    List(chk("cell values from node neighbours", v[n] == v[0].concat(mapi(n - 1, j => v[1 + j][v[1 + j].length() - 1]))))
  }
  // base flux + correction: bl br cl cr and the result
  pure def sum(e: Ev, v: List[Vec]): List[Verdict] =
    List(chk("corrected flux is flux plus correction", agree(vadd(v[0], v[2]), v[4]) and agree(vadd(v[1], v[3]), v[5])))
  pure def antidiffusive(e: Ev, v: List[Vec]): List[Verdict] = {
    val f = mapi(v[1].length(), i => div(mul(v[0][0], v[2][i] - v[1][i]), v[0][1]))
    List(chk("antidiffusive flux is gamma times the slope", agree(f, v[4]) and agree(vneg(f), v[3])))
  }
  // half of the bottom source is added to both sides of any flux
  pure def sourced(e: Ev, v: List[Vec]): List[Verdict] = {
    val b = bottomPadded(v[1])
    val n = v[2].length()
    val s = mapi(imin(n, b.length()), i => source(v[0][0], cellOf(v[2][i], 0), cellOf(v[3][i], 0), b[i + 1] - b[i]).q)
    // v[4..7]: base lh lq rh rq, v[8..11]: result
    List(chk("bottom source is added to the discharge flux of both sides",
      agree(v[4], v[8]) and agree(v[6], v[10]) and agree(vsub(v[5], s), v[9]) and agree(vsub(v[7], s), v[11])))
  }

  // right-hand side of finite volumes for given node fluxes
  pure def rightHandSide(e: Ev, v: List[Vec]): List[Verdict] = {
    // v[0] = [dx, radius], v[1] cells, v[2] inflow, v[3] left fluxes, v[4] right fluxes, v[5] result, v[6..] inputs
    val r = v[0][1]
    val p = padded(e.s[0], e.s[1], v[1], r, x => x, v[2][0], v[2][1])
    List(chk("flux is evaluated with the neighbours of all nodes", v.length() == 6 + 2 * r
       and every(2 * r, j => agree(nodeNeighbour(p, r, j), v[6 + j]))),
     chk("time derivative is the flux difference over the step length",
       v[3].length() == v[1].length() + 1 and sameLen(v[3], v[4])
       and agree(mapi(v[1].length(), i => div(v[4][i] + v[3][i + 1], v[0][0])), v[5])))
  }

  pure def optimalStep(e: Ev, v: List[Vec]): List[Verdict] = {
    val p = padded(e.s[0], e.s[1], cells(v[1], v[2]), 1, c => mirror(c), ZERO, ZERO)
    val m = maxv(mapi(p.length() - 1, i => waveSpeed(v[0][0], p[i], p[i + 1])))
    List(chk("optimal time step is step length over maximal wave speed", close(div(v[0][1], m), v[3][0])))
  }

  pure def helpers(e: Ev, v: List[Vec]): List[Verdict] = {
    val g = v[0][0]
    val c = cells(v[1], v[2])
    val n = c.length()
    if (e.s[0] == "velocity") [chk("velocity", agree(mapi(n, i => vel(c[i])), v[3]))]
    else if (e.s[0] == "entropy") [chk("entropy variables",
      agree(mapi(n, i => mul(g, c[i].h + v[3][i]) - sq(vel(c[i])) / 2), v[4]) and agree(mapi(n, i => vel(c[i])), v[5]))]
    else if (e.s[0] == "potential") [chk("potential", agree(mapi(n, i => mul(mul(g, sq(c[i].h)) / 2, vel(c[i]))), v[3]))]
    else if (e.s[0] == "fix") [chk("height positivity fix", agree(mapi(n, i => heightFix(v[1][i], v[2][i])), v[3]))]
    else if (e.s[0] == "flat") [chk("flat bottoms are recognised", (v[3][0] == 1) == vevery(v[1], x => iabs(x - v[1][0]) < v[0][1]))]
    else [chk("nullify",
      agree(mapi(n, i => if (c[i].h > v[0][1]) c[i].h else 0), v[3])
      and agree(mapi(n, i => if (c[i].h > v[0][1] and iabs(c[i].q) > v[0][1]) c[i].q else 0), v[4]))]
  }

  // flux with history: call by call
  pure def history(st: St, v: List[Vec]): { st: St, vs: List[Verdict] } = {
    // v[0], v[1]: flux returned; v[2..]: flattened left then right history, one vector per call
    val s = { left: st.left.append(v[0]), right: st.right.append(v[1]) }
    val n = s.left.length()
    { st: s, vs: [chk("history holds every flux in the order of the calls", v.length() == 2 + 2 * n
      and every(n, i => v[2 + i] == s.left[i] and v[2 + n + i] == s.right[i]))] }
  }

  // flux with history after very many calls at once
  // v[0], v[1]: number of recorded left and right fluxes; v[2], v[3]: fluxes returned; v[4], v[5]: fluxes recorded
  pure def manyCalls(v: List[Vec]): List[Verdict] =
    List(chk("history holds every flux of a long run in the order of the calls",
      v[2].length() > 0 and v[0][0] == v[1][0] and v[4] == v[2] and v[5] == v[3]))

  pure def judge(st: St, e: Ev): { st: St, vs: List[Verdict] } = {
    val v = dec(e.d)
    if (e.k == "history") history(st, v)
    else if (e.k == "manyCalls") { st: st, vs: manyCalls(v) }
    else {
      st: st,
      vs: if (e.k == "nodes") shallowNodes(e, v)
        else if (e.k == "scalar") scalarNodesEv(e, v)
        else if (e.k == "physical") physical(e, v)
        else if (e.k == "speeds") speeds(e, v)
        else if (e.k == "scalar-speeds") scalarSpeeds(e, v)
        else if (e.k == "riemann") riemann(e, v)
        else if (e.k == "rejection") rejection(e, v)
        else if (e.k == "required") required(e, v)
        else if (e.k == "dofs") dofVector(e, v)
        else if (e.k == "sum") sum(e, v)
        else if (e.k == "antidiffusive") antidiffusive(e, v)
        else if (e.k == "sourced") sourced(e, v)
        else if (e.k == "rhs") rightHandSide(e, v)
        else if (e.k == "optimal") optimalStep(e, v)
        else helpers(e, v)
    }
  }
}
