// C05: steady states stay unchanged.
module C05 {
  import prelude.* from "./prelude"
  import swe.* from "./swe"
  import runs.* from "./runs"

  type St = { r: Run, x: Vec }
  pure val ST0: St = { r: NO_RUN, x: [] }
  pure def hs(x: Vec): Vec = x.slice(0, x.length() / 2)
  pure def qs(x: Vec): Vec = x.slice(x.length() / 2, x.length())
  pure def equal(v: Vec): bool = vevery(v, x => x == v[0])
  pure def soft(c: str): bool = c == "periodic" or c == "outflow"
  pure def solid(c: str): bool = c == "wall" or c == "outflow"
  pure def reduced(r: Run): bool = r.scheme.name == "reduced"

  // which kind of steady state a run starts from, as far as the scheme keeps it
  pure def kind(r: Run, x: Vec): str =
    if (r.family != "swe") { if (equal(x) and soft(r.cl) and soft(r.cr)) "constant" else "none" }
    else if (flat(r.bottom) and equal(hs(x)) and equal(qs(x)) and soft(r.cl) and soft(r.cr)) "constant"
    else if (flat(r.bottom) and equal(hs(x)) and maxabs(qs(x)) == 0 and not(reduced(r))) "rest"
    else if (maxabs(qs(x)) == 0 and hs(x).length() == r.bottom.length() and minv(hs(x)) > 0
        and (r.scheme.name == "low-order" or r.scheme.name == "central" or (r.scheme.name == "mcl" and r.scheme.sub == "central"))
        and { val s = vadd(hs(x), r.bottom) vevery(s, y => iabs(y - s[0]) <= ONE / 2^46) }
        and ((solid(r.cl) and solid(r.cr)) or (r.cl == "periodic" and r.bottom[0] == r.bottom[r.bottom.length() - 1]))) "lake"
    else "none"
  pure def tol(r: Run, x: Vec): int = (ONE + maxabs(x)) / (if (reduced(r)) 2^16 else 2^36)
  pure def steady(r: Run, x: Vec, y: Vec): List[Verdict] = {
    val k = kind(r, x)
    List(chk("the run starts from a steady state", k != "none"))
      .concat(chkIf(k == "constant", "constant states stay", agreeTol(x, y, tol(r, x))))
      .concat(chkIf(k == "rest", "water at rest stays at rest between walls", agreeTol(x, y, tol(r, x))))
      .concat(chkIf(k == "lake", "a lake at rest stays at rest over an uneven bottom", agreeTol(x, y, tol(r, x))))
  }

  pure def judge(st: St, e: Ev): { st: St, vs: List[Verdict] } = {
    val v = dec(e.d)
    if (e.k == "config") { st: { r: runOf(e.s, v), x: [] }, vs: [] }
    else if (e.k == "init") { st: { ...st, x: v[2] }, vs: List(chk("initial state", agreeTol(v[1], shown(st.r, v[2]), (ONE + maxabs(v[1])) / 2^44))) }
    else if (e.k == "record") { st: st, vs: if (st.r.deg == 1) steady(st.r, st.x, v[1])
      else List(chk("constant states stay", agreeTol(shown(st.r, st.x), v[1], tol(st.r, st.x)))) }
    else if (e.k == "end") { st: st, vs: [] }
    else { st: st, vs: List(chk("unknown event", false)) }
  }
}
