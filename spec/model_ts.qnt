// All interleavings of iterating, restarting and changing the state which
// determines the optimal step, on a grid of ticks (a step below one tick is too
// small).  Behaviours of this machine are replayed on the implementation.
module model_ts {
  import prelude.* from "./prelude"
  import timestepping.* from "./timestepping"

  pure def prod(a: int, b: int): int = a * b

  var s: Stepping
  var opt: int // optimal step of the current state
  var steps: List[int] // steps since the last iter
  var maximal: List[int] // full step at each of them
  var last: { kind: str, step: int }

  action init = {
    nondet a = 0.to(3).oneOf()
    nondet span = 0.to(9).oneOf()
    nondet cfl = 1.to(3).oneOf()
    nondet ad = Set(true, false).oneOf()
    nondet o = 1.to(4).oneOf()
    all {
      s' = fixStep(newStepping(a, a + span, cfl, ad, 1), o),
      opt' = o, steps' = [], maximal' = [],
      last' = { kind: "new", step: 0 },
    }
  }
  action restart = all {
    s' = iter(s), opt' = opt, steps' = [], maximal' = [], last' = { kind: "iter", step: 0 },
  }
  action advance = {
    val r = advanced(s, opt, prod)
    all {
      s.started, s' = r.s, opt' = opt,
      steps' = if (r.kind == "step") steps.append(r.step) else steps,
      maximal' = if (r.kind == "step") maximal.append(s.cfl * optimal(s, opt)) else maximal,
      last' = { kind: r.kind, step: r.step },
    }
  }
  action change = {
    nondet o = 0.to(4).oneOf()
    all { opt' = o, s' = s, steps' = steps, maximal' = maximal, last' = { kind: "change", step: 0 } }
  }
  action step = any { restart, advance, advance, advance, change }

  val n = steps.length()
  val clock = s.time == s.start + steps.foldl(0, (a, x) => a + x) and s.count == n
  val admissible = steps.indices().forall(i => steps[i] > 0 and steps[i] <= maximal[i]
    and ((not(s.adaptive) and i < n - 1) implies steps[i] == maximal[i]))
  val endReached = (s.done implies s.time == s.stop) and s.time <= s.stop
  val announcedRight = (s.done and not(s.adaptive)) implies announced(s, s.cfl * s.fixed) == n
  val inv = clock and admissible and endReached and announcedRight
}
