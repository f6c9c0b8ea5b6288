// The life of a discrete solution: value, clock and history of accepted states.
module solution {
  import prelude.* from "./prelude"

  // fine: the value as stored (rows * cols numbers); deg: coarsening degree (1: none)
  type Sol = { kept: bool, deg: int, cols: int, time: int, fine: Vec, times: Vec, shown: List[Vec] }

  // averages over blocks of deg rows
  pure def coarsen(v: Vec, deg: int, cols: int): Vec =
    mapi(v.length() / deg, k => range(0, deg).foldl(0, (a, j) => a + v[((k / cols) * deg + j) * cols + k % cols]) / deg)
  pure def show(s: Sol, v: Vec): Vec = if (s.deg == 1) v else coarsen(v, s.deg, s.cols)
  pure def finite(v: Vec): bool = v.foldl(true, (ok, x) => ok and isFin(x))

  pure def newSolution(kept: bool, deg: int, cols: int, v: Vec, t: int): Sol = {
    val s = { kept: kept, deg: deg, cols: cols, time: t, fine: v, times: [t], shown: [] }
    { ...s, shown: [show(s, v)] }
  }
  // one more state at time t
  pure def accept(s: Sol, v: Vec, t: int): Sol =
    { ...s, time: t, fine: v, times: s.times.append(t), shown: s.shown.append(show(s, v)) }
  pure def update(s: Sol, v: Vec, dt: int): Sol = if (finite(v)) accept(s, v, s.time + dt) else s
  // forget everything from time t on, continue from there
  pure def setValue(s: Sol, v: Vec, t: int): Sol =
    if (not(finite(v))) s
    else {
      val k = range(0, s.times.length()).foldl({ times: [], shown: [] }, (a, i) =>
        if (s.times[i] < t) { times: a.times.append(s.times[i]), shown: a.shown.append(s.shown[i]) } else a)
      accept({ ...s, times: k.times, shown: k.shown }, v, t)
    }
  pure def stepsOf(times: Vec): Vec = mapi(times.length() - 1, i => times[i + 1] - times[i])
}
