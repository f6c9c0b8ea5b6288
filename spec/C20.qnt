// C20: pictures and saved data show what was computed, and nothing else.
module C20 {
  import prelude.* from "./prelude"
  import pictures.* from "./pictures"

  type St = { p: Show, solvers: List[Source] }
  pure val ST0: St = { p: NO_SHOW, solvers: [] }

  pure def parts(v: Vec, n: int): List[Vec] =
    range(0, v.length() / imax(n, 1)).foldl([], (o, i) => o.append(v.slice(i * n, (i + 1) * n)))
  // labels before and after the bar
  pure def until(s: List[str], bar: bool): List[str] =
    s.foldl({ seen: false, o: [] }, (a, x) => if (x == "|") { ...a, seen: true }
      else if (a.seen == bar) { ...a, o: a.o.append(x) } else a).o
  pure def holds(list: List[str], x: str): bool = list.foldl(false, (ok, y) => ok or x == y)
  pure def equalSets(a: List[str], b: List[str]): bool =
    a.length() == b.length() and a.foldl(true, (ok, x) => ok and holds(b, x))

  // curves shown along an axis at time t
  pure def judged(st: St, axis: str, obs: List[Curve], t: int): List[Verdict] = {
    val count = st.solvers.length() + (if (st.p.initial) 1 else 0) + (if (st.p.exact) 1 else 0)
    val ground = axis == "h" and among(bottomCurve(st.p), obs)
    List(chk("every solver's values are shown on its own grid under its label",
        st.solvers.foldl(true, (ok, s) => ok and among(curveOf(st.p, s, axis, t), obs))),
      chk("nothing else is shown", obs.length() == count or (ground and obs.length() == count + 1)))
      .concat(chkIf(st.p.exact, "the exact solution is shown at the right time", among(exactCurve(st.p, axis, t), obs)))
      .concat(chkIf(st.p.initial, "the initial data are shown", among(initialCurve(st.p, axis), obs)))
      .concat(chkIf(axis == "h" and not(flatBottom(st.p)), "a bottom which is not flat is shown", ground))
  }

  pure def judge(st: St, e: Ev): { st: St, vs: List[Verdict] } = {
    val v = dec(e.d)
    if (e.k == "show")
      // s: plot or animation, scalar or swe, initial?, exact?, functions as tables?
      // v: [a, b, start, stop, first time shown], [points, steps], functions
      { st: { p: { moving: e.s[0] == "animation", water: e.s[1] == "swe", initial: e.s[2] == "yes", exact: e.s[3] == "yes", table: e.s[4] == "tables",
            a: v[0][0], b: v[0][1], start: v[0][2], stop: v[0][3], first: v[0][4], points: v[1][0], steps: v[1][1],
            ih: v[2], iq: v[3], eh: v[4], eq: v[5], bottom: v[6] }, solvers: [] }, vs: [] }
    else if (e.k == "solver") {
      // s: label, cells or nodes, ends?; v: [dx], [n, p, degree of coarsening], times, heights, discharges, [end], bottom
      val x = if (e.s[1] == "cells") centres(st.p.a, v[0][0], v[1][0], v[1][2]) else nodes(st.p.a, v[0][0], v[1][0], v[1][1])
      { st: { ...st, solvers: st.solvers.append({ label: e.s[0], x: x, times: v[2], h: parts(v[3], x.length()), q: parts(v[4], x.length()), ground: v[6] }) },
        vs: List(chk("a solver is run to the end unless it fails", (e.s[2] == "fails") != near(v[5][0], st.p.stop, tolAt(st.p.stop, 36)))) }
    }
    else if (e.k == "now") // the exact solution at the next frame
      { st: { ...st, p: { ...st.p, eh: v[0], eq: v[1] } }, vs: [] }
    else if (e.k == "curves") {
      // s: axis, where, labels, |, legend; v: [frame], [time label], [lowest, highest visible], curves
      val axis = e.s[0]
      val labels = until(e.s.slice(2, e.s.length()), false)
      val obs = range(0, labels.length()).foldl([], (o, i) => o.append({ label: labels[i], x: v[3 + 2 * i], y: v[4 + 2 * i] }))
      val times = if (st.p.moving) frameTimes(st.p, st.solvers) else [st.p.stop]
      val k = v[0][0]
      if (k >= times.length()) { st: st, vs: List(chk("the frames are the regular times and those of all records", false)) }
      else {
        val top = obs.foldl(-NAN, (m, c) => c.y.foldl(m, (n, y) => imax(n, y)))
        val low = obs.foldl(NAN, (m, c) => c.y.foldl(m, (n, y) => imin(n, y)))
        { st: st, vs: judged(st, axis, obs, times[k])
          .concat(chkIf(e.s[1] != "data", "every curve is named in the legend", equalSets(labels, until(e.s.slice(2, e.s.length()), true))))
          .concat(chkIf(e.s[1] == "frame", "the time is shown", near(v[1][0], times[k], ONE / 199)))
          .concat(chkIf(st.p.water and e.s[1] != "data", "curves lie within what is visible",
            top <= v[2][1] and (not(st.p.moving) or low >= v[2][0]))) }
      }
    }
    else if (e.k == "long") // recorded values, values shown
      { st: st, vs: List(chk("the frames are the regular times and those of all records", v[0] == v[1])) }
    else if (e.k == "frames") { // [number of frames, frames per second], [duration]
      val n = v[0][0]
      val fps = v[0][1]
      { st: st, vs: List(chk("the frames are the regular times and those of all records", n == frameTimes(st.p, st.solvers).length()))
        .concat(chkIf(n * ONE >= v[1][0], "frames per second fit the duration",
          mul(fps * ONE, v[1][0]) <= n * ONE + 1 and n * ONE < mul((fps + 1) * ONE, v[1][0]) + 2)) }
    }
    else if (e.k == "files") // s: plot or data, asked for?, endings of what was written
      { st: st, vs: List(chk("what is asked for is saved, a file for each quantity", equalSets(e.s.slice(2, e.s.length()),
          if (e.s[1] == "no") [] else if (st.p.water and not(st.p.moving)) ["_h", "_q", "_v"] else List("")))) }
    else if (e.k == "said") // s: situation, whether warnings are wanted, said or silent
      { st: st, vs: List(chk(e.s[0], (e.s[2] == "said") == (e.s[1] == "wanted"))) }
    else if (e.k == "window") // s: wanted or hidden; v: [windows shown, figures left]
      { st: st, vs: List(chk("pictures are shown unless they are hidden", (v[0][0] == 1) == (e.s[0] == "wanted")),
          chk("no picture is left open", v[0][1] == 0)) }
    else if (e.k == "empty") // s: what happened; v: [pictures shown or saved]
      { st: st, vs: List(chk("nothing to show is an error of its own", e.s[0] == e.s[1]), chk("nothing is shown if there is nothing", v[0][0] == 0)) }
    else if (e.k == "picture") // [command, axes, axes supposed], marks of the curves along all axes
      { st: st, vs: List(chk("a picture shows the curves of its command only", v[0][1] == v[0][2] and v[1].length() == v[0][3] and vevery(v[1], id => id / 10 == v[0][0]))) }
    else if (e.k == "named") // s: names of what is saved, |, those supposed; v: [how many, supposed, figures left]
      { st: st, vs: List(chk("what is asked for is saved, a file for each quantity", v[0][0] == v[0][1] and equalSets(until(e.s, false), until(e.s, true))),
          chk("no picture is left open", v[0][2] == 0)) }
    else if (e.k == "same")
      { st: st, vs: List(chk(e.s[0], v.length() % 2 == 0 and every(v.length() / 2, i => agreeK(v[i], v[v.length() / 2 + i], 36)))) }
    else { st: st, vs: List(chk("unknown event", false)) }
  }
}
