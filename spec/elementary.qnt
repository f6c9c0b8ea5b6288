// Sine, cosine and exact solutions built from them.
module elementary {
  import prelude.* from "./prelude"

  pure val PI: int = 0x3243f6a8885a308d31319

  // Taylor series after reduction to [-pi, pi]
  pure def sinOf(x: int): int = {
    val r = fmod(x + PI, 2 * PI) - PI
    val r2 = sq(r)
    range(1, 17).foldl({ term: r, sum: r }, (s, k) => {
      val t = -(mul(s.term, r2) / (2 * k * (2 * k + 1)))
      { term: t, sum: s.sum + t }
    }).sum
  }
  pure def cosOf(x: int): int = sinOf(x + PI / 2)

  // ---------------------------------------------------------------- transport
  // position from which a unit speed wave reaches x at time t, on a period of length one
  pure def origin(x: int, t: int): int = fmod(x - t, ONE)

  // ------------------------------------------------- first crossing of characteristics
  // from values on an equidistant grid: the steepest descent decides
  pure def steepest(u: Vec, dx: int): int =
    range(0, u.length() - 1).foldl(0, (m, i) => imax(m, div(u[i] - u[i + 1], dx)))
  pure def crossing(u: Vec, dx: int): int = div(ONE, steepest(u, dx))

  // --------------------------------------------------------------- dam break
  type Dam = { hl: int, hr: int, g: int }
  pure def celerity(d: Dam, h: int): int = sqrt(mul(d.g, h))
  // velocity behind the bore of height h running into water at rest, and at the foot of the fan
  pure def boreVelocity(d: Dam, h: int): int =
    mul(h - d.hr, sqrt(mul(d.g / 2, div(ONE, h) + div(ONE, d.hr))))
  pure def fanVelocity(d: Dam, h: int): int = 2 * (celerity(d, d.hl) - celerity(d, h))
  pure def middle(d: Dam): int =
    range(0, 64).foldl({ lo: d.hr, hi: d.hl }, (s, _) => {
      val m = (s.lo + s.hi) / 2
      if (fanVelocity(d, m) > boreVelocity(d, m)) { lo: m, hi: s.hi } else { lo: s.lo, hi: m }
    }).lo
  pure def boreSpeed(d: Dam, h: int): int = div(mul(h, boreVelocity(d, h)), h - d.hr)
}
