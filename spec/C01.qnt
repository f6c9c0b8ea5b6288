// C01: totals of the conserved quantities stay the same in every step.
module C01 {
  import prelude.* from "./prelude"
  import swe.* from "./swe"
  import fem.* from "./fem"
  import runs.* from "./runs"

  type St = { r: Run, x: Vec }
  pure val ST0: St = { r: NO_RUN, x: [] }

  // integrals of the basis functions of a continuous element space
  pure def basisIntegrals(f: Fem): Vec = f.lumped

  // real networks predict in single precision
  pure def single(r: Run): bool = r.scheme.name == "reduced" and r.scheme.sub == ""
  pure def kept(st: St, a: int, b: int, scale: int): bool =
    near(a, b, mul(scale, st.r.full + ONE) / (if (single(st.r)) 2^18 else 2^44))
  pure def scaleOf(x: Vec): int = x.length() * (ONE + maxabs(x))
  pure def periodic(r: Run): bool = r.cl == "periodic" and r.cr == "periodic"
  pure def heightsOf(x: Vec): Vec = x.slice(0, x.length() / 2)
  pure def dischargesOf(x: Vec): Vec = x.slice(x.length() / 2, x.length())

  pure def compared(st: St, y: Vec, scale: int): List[Verdict] =
    if (st.r.family == "fem")
      List(chk("finite element schemes keep the integral of the solution",
        kept(st, dot(basisIntegrals(st.r.fem), st.x), dot(basisIntegrals(st.r.fem), y), scale)))
    else if (st.r.family == "scalar")
      List(chk("scalar finite volume schemes keep the total on periodic domains",
        kept(st, sumv(st.x), sumv(y), scale)))
    else
      chkIf(periodic(st.r), "shallow water schemes keep the total height on periodic domains",
          kept(st, sumv(heightsOf(st.x)), sumv(heightsOf(y)), scale))
        .concat(chkIf(periodic(st.r) and flat(st.r.bottom), "shallow water schemes keep the total discharge on periodic domains over flat bottom",
          kept(st, sumv(dischargesOf(st.x)), sumv(dischargesOf(y)), scale)))
        .concat(chkIf(st.r.cl == "wall" and st.r.cr == "wall", "total height is kept between walls",
          kept(st, sumv(heightsOf(st.x)), sumv(heightsOf(y)), scale)))

  pure def judge(st: St, e: Ev): { st: St, vs: List[Verdict] } = {
    val v = dec(e.d)
    if (e.k == "config") { st: { r: runOf(e.s, v), x: [] }, vs: [] }
    else if (e.k == "init") { st: { ...st, x: v[1] },
      vs: compared({ ...st, x: shown(st.r, v[2]) }, v[1], scaleOf(v[1])) }
    else if (e.k == "record")
      { st: { ...st, x: v[1] }, vs: List(chk("states keep their size and are finite", sameLen(v[1], st.x) and allFin(v[1])))
        .concat(compared(st, v[1], scaleOf(v[1]))) }
    else if (e.k == "end") { st: st, vs: [] }
    else if (e.k == "rate") // a right-hand side
      { st: st, vs: compared({ ...st, x: fill(v[0].length(), 0) }, v[0], scaleOf(v[0])) }
    else { st: st, vs: List(chk("unknown event", false)) }
  }
}
