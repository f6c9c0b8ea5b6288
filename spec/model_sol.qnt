// All short lives of discrete solutions of every kind, on small integers (the
// value NAN stands for a non-finite entry).
module model_sol {
  import prelude.* from "./prelude"
  import solution.* from "./solution"

  var s: Sol
  var last: { kind: str, v: Vec, t: int }
  var lived: int // accepted updates since the last set value

  pure def vector(n: int, base: int, stride: int): Vec = mapi(n, i => base + stride * i)

  action init = {
    nondet kept = Set(true, false).oneOf()
    nondet deg = 1.to(3).oneOf()
    nondet cols = 1.to(2).oneOf()
    nondet rows = 1.to(3).oneOf()
    nondet base = (-3).to(3).oneOf()
    nondet t = (-2).to(2).oneOf()
    val v = vector(rows * deg * cols, 6 * base, 6)
    all { s' = newSolution(kept, deg, cols, v, t), last' = { kind: "new", v: v, t: t }, lived' = 0 }
  }
  action doUpdate = {
    nondet base = (-3).to(3).oneOf()
    nondet stride = (-2).to(2).oneOf()
    nondet dt = 1.to(3).oneOf()
    val v = vector(s.fine.length(), 6 * base, 6 * stride)
    all { s' = update(s, v, dt), last' = { kind: "update", v: v, t: dt }, lived' = lived + 1 }
  }
  action doSet = {
    nondet base = (-3).to(3).oneOf()
    nondet stride = (-2).to(2).oneOf()
    nondet back = (-4).to(6).oneOf()
    val t = s.time - back
    val v = vector(s.fine.length(), 6 * base, 6 * stride)
    all { s' = setValue(s, v, t), last' = { kind: "set", v: v, t: t }, lived' = 0 }
  }
  action doReject = {
    nondet pos = 0.to(s.fine.length() - 1).oneOf()
    nondet way = Set("update", "set").oneOf()
    nondet t = 0.to(4).oneOf()
    val v = s.fine.replaceAt(pos, NAN)
    all {
      s' = if (way == "update") update(s, v, t) else setValue(s, v, s.time - t),
      last' = { kind: way, v: v, t: if (way == "update") t else s.time - t }, lived' = lived,
    }
  }
  // the caller scribbles over everything it handed in or got out
  action doMutate = all { s' = s, last' = { kind: "mutate", v: [], t: 0 }, lived' = lived }
  action step = any { doUpdate, doUpdate, doSet, doReject, doMutate }

  val m = s.times.length()
  val lastIsCurrent = m == s.shown.length() and s.times[m - 1] == s.time and s.shown[m - 1] == show(s, s.fine)
  val increasing = s.times.indices().forall(i => i > 0 implies s.times[i - 1] < s.times[i])
  val totals = sumv(show(s, s.fine)) * s.deg == sumv(s.fine)
  val grows = m >= lived + 1
  val inv = lastIsCurrent and increasing and totals and grows
}
