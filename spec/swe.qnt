// Shallow water equations: h_t + q_x = 0, q_t + (q^2/h + g h^2/2)_x = -g h b_x.
module swe {
  import prelude.* from "./prelude"
  import boundary.* from "./boundary"
  import scalarfv.* from "./scalarfv"

  type Cell = { h: int, q: int }
  type Node = { l: Cell, r: Cell } // flux seen from the left and from the right cell
  type Scheme = { name: str, sub: str, g: int, dx: int, dt: int, gamma: int }

  pure val EPS: int = 1208925819 // 1e-15

  pure def cellOf(h: int, q: int): Cell = { h: h, q: q }
  pure val ZERO: Cell = { h: 0, q: 0 }
  pure def cells(h: Vec, q: Vec): List[Cell] = tab(h.length(), i => cellOf(h[i], q[i]))
  pure def heights(c: List[Cell]): Vec = c.foldl([], (a, x) => a.append(x.h))
  pure def discharges(c: List[Cell]): Vec = c.foldl([], (a, x) => a.append(x.q))
  pure def cadd(a: Cell, b: Cell): Cell = { h: a.h + b.h, q: a.q + b.q }
  pure def csub(a: Cell, b: Cell): Cell = { h: a.h - b.h, q: a.q - b.q }
  pure def cneg(a: Cell): Cell = { h: -a.h, q: -a.q }
  pure def cmul(s: int, a: Cell): Cell = { h: mul(s, a.h), q: mul(s, a.q) }
  pure def cdiv(a: Cell, s: int): Cell = { h: div(a.h, s), q: div(a.q, s) }
  pure def cavg(a: Cell, b: Cell): Cell = { h: (a.h + b.h) / 2, q: (a.q + b.q) / 2 }
  pure def mirror(a: Cell): Cell = { h: a.h, q: -a.q }

  // ------------------------------------------------------------ point values
  pure def vel(c: Cell): int = {
    val m = imax(c.h, EPS)
    val d = c.h * c.h + m * m
    (2 * c.h * c.q * ONE) / d
  }
  pure def cel(g: int, h: int): int = sqrt(mul(g, h))
  pure def flux(g: int, c: Cell): Cell =
    if (c.h < EPS) ZERO else { h: c.q, q: (c.q * c.q) / c.h + mul(g, sq(c.h)) / 2 }
  // characteristic speeds of one state and a common bound for two states
  pure def speedOf(g: int, c: Cell): int = iabs(vel(c)) + cel(g, c.h)
  pure def waveSpeed(g: int, l: Cell, r: Cell): int = imax(speedOf(g, l), speedOf(g, r))
  pure def oneSided(g: int, l: Cell, r: Cell): { l: int, r: int } = {
    l: imin(0, imin(vel(l) - cel(g, l.h), vel(r) - cel(g, r.h))),
    r: imax(0, imax(vel(l) + cel(g, l.h), vel(r) + cel(g, r.h)))
  }
  pure def bar(g: int, l: Cell, r: Cell): Cell = {
    val s = waveSpeed(g, l, r)
    if (s == 0) ZERO else csub(cavg(l, r), cdiv(csub(flux(g, r), flux(g, l)), 2 * s))
  }
  // general two-wave solver with wave speeds sl <= 0 <= sr
  pure def hllState(fl: int, fr: int, l: int, r: int, sl: int, sr: int): int =
    if (sr == sl) 0 else div(mul(sr, r) - mul(sl, l) - (fr - fl), sr - sl)
  pure def hllFlux(fl: int, fr: int, l: int, r: int, sl: int, sr: int): int =
    fl - mul(sl, l - hllState(fl, fr, l, r, sl, sr))

  // ------------------------------------------------------------- node fluxes
  pure def bothSides(f: Cell): Node = { l: cneg(f), r: f }
  pure def llf(g: int, l: Cell, r: Cell): Cell =
    csub(cavg(flux(g, l), flux(g, r)), cmul(waveSpeed(g, l, r), csub(r, l)).half())
  pure def half(a: Cell): Cell = { h: a.h / 2, q: a.q / 2 }
  pure def central(g: int, l: Cell, r: Cell): Cell = cavg(flux(g, l), flux(g, r))
  pure def es(g: int, l: Cell, r: Cell): Cell = flux(g, cavg(l, r))

  // entropy stable flux with diffusion R |Lambda| R^T of the jump of the entropy
  // variables (g (h + b) - v^2/2, v)
  pure def es1(g: int, l: Cell, r: Cell, bl: int, br: int): Cell = {
    val e0 = mul(g, (r.h + br) - (l.h + bl)) - (sq(vel(r)) - sq(vel(l))) / 2
    val e1 = vel(r) - vel(l)
    val a = cavg(l, r)
    val c = cel(g, a.h)
    val m = vel(a) - c
    val p = vel(a) + c
    val s = 2 * sqrt(2 * g) // (1/2) (2g)^(-3/2) = 1 / (2 sqrt(2g) 2g)
    val d = mul(s, 2 * g)
    val am = mul(iabs(m), e0 + mul(m, e1))
    val ap = mul(iabs(p), e0 + mul(p, e1))
    csub(es(g, l, r), { h: div(am + ap, d), q: div(mul(m, am) + mul(p, ap), d) })
  }
  // Lax-Friedrichs with antidiffusion proportional to the step size
  pure def lw(g: int, dx: int, dt: int, l: Cell, r: Cell): Cell =
    cadd(llf(g, l, r), cdiv(cmul(mul(dt, waveSpeed(g, l, r)), csub(r, l)), dx))

  // bottom source, half of it to both cells of the node
  pure def source(g: int, l: Cell, r: Cell, db: int): Cell =
    { h: 0, q: mul(mul(g / 2, (l.h + r.h) / 2), db) }
  pure def withSource(f: Cell, s: Cell): Node = { l: csub(cneg(f), s), r: csub(f, s) }

  // ---------------------------------------------- low order scheme with bottom
  // (intermediate states of the two cells, common height and discharge)
  type Low = { s: int, hb: int, qb: int, hl: int, hr: int, ql: int, qr: int, f: Node }
  pure def heightFix(hb: int, db: int): int = imin(iabs(db) / 2, hb) * sgn(db)
  pure def low(g: int, l: Cell, r: Cell, db: int): Low = {
    val s = waveSpeed(g, l, r)
    val b = bar(g, l, r)
    val fix = heightFix(b.h, db)
    val v = (vel(l) + vel(r)) / 2
    val src = -div0(mul(mul(g, (l.h + r.h) / 2), fix), s)
    val hl = b.h + fix
    val hr = b.h - fix
    val ql = b.q + mul(v, fix) + src
    val qr = b.q - mul(v, fix) + src
    { s: s, hb: b.h, qb: b.q, hl: hl, hr: hr, ql: ql, qr: qr,
      f: { l: csub(cmul(s, csub(cellOf(hl, ql), l)), flux(g, l)),
           r: cadd(cmul(s, csub(cellOf(hr, qr), r)), flux(g, r)) } }
  }

  // -------------------------------------------------------------- MCL limiter
  // low: low order quantities of all nodes, target: node fluxes of the target scheme
  // bounds of cell j (with one ghost cell per side, node j - 1 left, node j right)
  pure def nodeLeftOf(n: int, periodic: bool, j: int): int =
    if (j > 0) j - 1 else if (periodic) n - 2 else 0
  pure def nodeRightOf(n: int, periodic: bool, j: int): int =
    if (j < n) j else if (periodic) 1 else n - 1
  pure def heightBound(lo: List[Low], periodic: bool, j: int, d: int): int = {
    val n = lo.length()
    pick(d, lo[nodeLeftOf(n, periodic, j)].hr, lo[nodeRightOf(n, periodic, j)].hl)
  }
  pure def velBar(x: Low): int = div0(x.ql + x.qr, x.hl + x.hr)
  pure def velBound(lo: List[Low], vb: Vec, periodic: bool, j: int, d: int): int = {
    val n = lo.length()
    val a = nodeLeftOf(n, periodic, j)
    val b = nodeRightOf(n, periodic, j)
    pick(d, pick(d, vb[a], vb[b]), pick(d, div0(lo[a].qr, lo[a].hb), div0(lo[b].ql, lo[b].hb)))
  }
  pure def mcl(lo: List[Low], target: List[Node], periodic: bool): List[Node] = {
    val n = lo.length()
    val vb = lo.foldl([], (acc, x) => acc.append(velBar(x)))
    val hmax = mapi(n + 1, j => heightBound(lo, periodic, j, 1))
    val hmin = mapi(n + 1, j => heightBound(lo, periodic, j, -1))
    val vmax = mapi(n + 1, j => velBound(lo, vb, periodic, j, 1))
    val vmin = mapi(n + 1, j => velBound(lo, vb, periodic, j, -1))
    tab(n, i => {
      val x = lo[i]
      val fh = limited(target[i].r.h - x.f.r.h, x.s, x.hl, x.hr,
        hmax[i], hmax[i + 1], hmin[i], hmin[i + 1])
      val dh = div0(fh, x.s)
      val hr = x.hb + dh
      val hl = x.hb - dh
      val shift = mul(x.s, x.qr - mul(hr, vb[i]))
      val fv = clip(
        mul(x.s, imax(mul(hr, vmin[i + 1] - vb[i]), mul(hl, vb[i] - vmax[i]))),
        mul(x.s, imin(mul(hr, vmax[i + 1] - vb[i]), mul(hl, vb[i] - vmin[i]))),
        target[i].r.q - x.f.r.q + shift)
      val f = { h: fh, q: fv - shift }
      { l: csub(x.f.l, f), r: cadd(x.f.r, f) }
    })
  }

  // ------------------------------------------------------------------ schemes
  pure def flat(b: Vec): bool = vevery(b, x => iabs(x - b[0]) < EPS)
  // bottom with one more cell on each side
  pure def bottomPadded(b: Vec): Vec = if (flat(b)) fill(b.length() + 2, 0)
    else [b[0]].concat(b).append(b[b.length() - 1])

  // two-point fluxes; l, r: cells of the node, bl, br: bottom of these cells
  pure def plainNode(name: str, g: int, dx: int, dt: int, l: Cell, r: Cell, bl: int, br: int): Node =
    if (name == "low-order") low(g, l, r, br - bl).f
    else if (name == "central") withSource(central(g, l, r), source(g, l, r, br - bl))
    else if (name == "es") withSource(es(g, l, r), source(g, l, r, br - bl))
    else if (name == "es1") withSource(es1(g, l, r, bl, br), source(g, l, r, br - bl))
    else if (name == "lw") bothSides(lw(g, dx, dt, l, r))
    else withSource(llf(g, l, r), source(g, l, r, br - bl))

  pure def plainNodes(name: str, g: int, dx: int, dt: int, p: List[Cell], b: Vec): List[Node] =
    tab(p.length() - 1, i => plainNode(name, g, dx, dt, p[i], p[i + 1], b[i], b[i + 1]))

  // add a skew-symmetric correction given at each node
  pure def corrected(nodes: List[Node], c: List[Cell]): List[Node] =
    tab(nodes.length(), i => { l: csub(nodes[i].l, c[i]), r: cadd(nodes[i].r, c[i]) })
  pure def slopes(p: List[Cell], gamma: int, dx: int): List[Cell] =
    tab(p.length() - 1, i => cdiv(cmul(gamma, csub(p[i + 1], p[i])), dx))

  pure def nodesOf(s: Scheme, p: List[Cell], b: Vec, periodic: bool): List[Node] =
    if (s.name == "mcl")
      mcl(tab(p.length() - 1, i => low(s.g, p[i], p[i + 1], b[i + 1] - b[i])),
        plainNodes(s.sub, s.g, s.dx, s.dt, p, b), periodic)
    else if (s.name == "antidiffusion")
      corrected(plainNodes(s.sub, s.g, s.dx, s.dt, p, b), slopes(p, s.gamma, s.dx))
    else plainNodes(s.name, s.g, s.dx, s.dt, p, b)

  // time derivative from node fluxes
  pure def rhsOf(nodes: List[Node], dx: int): List[Cell] =
    tab(nodes.length() - 1, i => cdiv(cadd(nodes[i].r, nodes[i + 1].l), dx))

  pure def sweRhs(s: Scheme, cl: str, cr: str, u: List[Cell], b: Vec, inL: Cell, inR: Cell): List[Cell] =
    rhsOf(nodesOf(s, padded(cl, cr, u, 1, c => mirror(c), inL, inR), bottomPadded(b), cl == "periodic"), s.dx)
  pure def euler(u: List[Cell], dt: int, du: List[Cell]): List[Cell] =
    tab(u.length(), i => cadd(u[i], cmul(dt, du[i])))
}
