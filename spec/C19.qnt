// C19: translated and mirrored problems have translated and mirrored solutions.
module C19 {
  import prelude.* from "./prelude"
  import swe.* from "./swe"
  import runs.* from "./runs"

  // description and trajectory of the first run
  type St = { r: Run, states: List[Vec], times: Vec, second: Run, k: int, m: str }
  pure val ST0: St = { r: NO_RUN, states: [], times: [], second: NO_RUN, k: 0, m: "" }

  pure def hs(x: Vec): Vec = x.slice(0, x.length() / 2)
  pure def qs(x: Vec): Vec = x.slice(x.length() / 2, x.length())
  // cells (or nodes) of a run are moved by k cells
  pure def moved(r: Run, x: Vec, k: int): Vec =
    if (r.family == "swe") rot(hs(x), k).concat(rot(qs(x), k))
    else rot(x, if (r.family == "fem") k * r.fem.p else k)
  // nodes of an element space: the first one is its own mirror image
  pure def mirrored(r: Run, x: Vec): Vec =
    if (r.family == "swe") rev(hs(x)).concat(vneg(rev(qs(x))))
    else if (r.family == "fem") vneg(rot(rev(x), 1))
    else vneg(rev(x))
  pure def image(st: St, x: Vec): Vec = if (st.m == "shift") moved(st.r, x, st.k / st.r.deg) else mirrored(st.r, x)

  pure def mirrorInflow(i: Inflow): Inflow = { a: mirror(i.a), b: mirror(i.b) }
  pure def negInflow(i: Inflow): Inflow = { a: cneg(i.a), b: cneg(i.b) }
  // the second problem is the image of the first one
  pure def related(st: St, a: Run, b: Run): bool =
    and(a.family == b.family, a.problem == b.problem, a.scheme == b.scheme, a.method == b.method, a.start == b.start,
      a.stop == b.stop, a.cfl == b.cfl, a.stepping == b.stepping, a.deg == b.deg,
      if (st.m == "shift") a.cl == "periodic" and a.cr == "periodic" and b.cl == "periodic" and b.cr == "periodic"
        and (a.family == "swe" implies flat(a.bottom) and flat(b.bottom)) and st.k % a.deg == 0
      else a.cl == b.cr and a.cr == b.cl and (a.family == "swe" implies agree(rev(a.bottom), b.bottom))
        and a.problem != "advection"
        and (a.cl == "inflow" implies b.inR == (if (a.family == "swe") mirrorInflow(a.inL) else negInflow(a.inL)))
        and (a.cr == "inflow" implies b.inL == (if (a.family == "swe") mirrorInflow(a.inR) else negInflow(a.inR))))

  pure def bits(r: Run): int = if (r.scheme.name == "reduced" and r.scheme.sub == "") 14 else 26
  pure def judge(st: St, e: Ev): { st: St, vs: List[Verdict] } = {
    val v = dec(e.d)
    if (e.k == "image") { st: { ...st, m: e.s[0], k: v[0][0], times: [], states: st.states }, vs: [] }
    else if (e.k == "config") {
      if (st.m == "") { st: { ...ST0, r: runOf(e.s, v) }, vs: [] }
      else { st: { ...st, second: runOf(e.s, v) }, vs: List(chk("the second problem is the image of the first", related(st, st.r, runOf(e.s, v)))) }
    }
    else if (e.k == "init" or e.k == "record") {
      val x = if (e.k == "init") v[1] else v[1]
      if (st.m == "") { st: { ...st, states: st.states.append(x) }, vs: [] }
      else { st: { ...st, states: if (st.states.length() > 0) st.states.slice(1, st.states.length()) else st.states }, vs:
        if (st.states.length() == 0) List(chk("both runs have the same number of steps", false))
        else List(chk(if (st.m == "shift") "shifted data has the shifted solution" else "mirrored data has the mirrored solution",
          agreeK(image(st, st.states[0]), x, bits(st.r)))) }
    }
    else if (e.k == "end") { st: st, vs: if (st.m == "") [] else List(chk("both runs have the same number of steps", st.states.length() == 0)) }
    else { st: st, vs: List(chk("unknown event", false)) }
  }
}
