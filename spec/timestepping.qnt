// Time stepping: an iterator over time steps from start to end.
module timestepping {
  import prelude.* from "./prelude"

  // eps: below this a step is too small and the end counts as reached
  type Stepping = { start: int, stop: int, cfl: int, adaptive: bool, eps: int,
    fixed: int,     // optimal step determined once (not adaptive), -1: not yet
    time: int, count: int, done: bool, started: bool }
  type Outcome = { s: Stepping, kind: str, step: int } // kind: step, stop, small

  pure def newStepping(start: int, stop: int, cfl: int, adaptive: bool, eps: int): Stepping =
    { start: start, stop: stop, cfl: cfl, adaptive: adaptive, eps: eps, fixed: -1,
      time: start, count: 0, done: false, started: false }
  pure def iter(s: Stepping): Stepping =
    { ...s, time: s.start, count: 0, done: false, started: true }
  pure def fixStep(s: Stepping, o: int): Stepping = if (s.adaptive or s.fixed >= 0) s else { ...s, fixed: o }

  // o: optimal step of the current state
  pure def optimal(s: Stepping, o: int): int = if (s.adaptive) o else s.fixed
  pure def advanced(s: Stepping, o: int, scale: (int, int) => int): Outcome =
    if (s.done) { s: s, kind: "stop", step: 0 }
    else {
      val full = scale(s.cfl, optimal(s, o))
      val dt = imin(full, s.stop - s.time)
      if (dt < s.eps) { s: s, kind: "small", step: dt }
      else {
        val t = s.time + dt
        val reached = s.stop - t < s.eps
        { s: { ...s, time: if (reached) s.stop else t, count: s.count + 1, done: reached },
          kind: "step", step: dt }
      }
    }
  // announced number of steps for a fixed full step
  pure def announced(s: Stepping, full: int): int = {
    val k = (s.stop - s.start) / full
    k + (if (s.stop - s.start - k * full >= s.eps) 1 else 0)
  }
}
