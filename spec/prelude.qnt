// Fixed-point reals, vectors, event decoding and verdicts shared by all modules.
//
// A real x is the integer floor(x * 2^80); values outside +-2^60 and NaN are the
// sentinel NAN.  An event's payload is one big integer: slots of 160 bits, each
// holding value + 2^159, least significant slot first:
//     [slot count, vector count, length_0, elements_0 ..., length_1, ...]
module prelude {
  pure val ONE: int = 0x100000000000000000000            // 2^80
  pure val HALF: int = 0x80000000000000000000
  pure val NAN: int = 0x400000000000000000000000000000000000000 // 2^154
  pure val SLOT: int = 0x10000000000000000000000000000000000000000 // 2^160
  pure val OFFSET: int = 0x8000000000000000000000000000000000000000 // 2^159

  type Vec = List[int]
  // an observed event: kind, textual arguments, numeric arguments (packed)
  type Ev = { k: str, s: List[str], d: int }
  // clause name and verdict: 0 = held, 1 = violated
  type Verdict = { c: str, bad: bool }

  // ------------------------------------------------------------------- lists
  pure def tab(n: int, f: int => a): List[a] = range(0, n).foldl([], (acc, i) => acc.append(f(i)))
  pure def lrev(v: List[a]): List[a] = tab(v.length(), i => v[v.length() - 1 - i])
  pure def lrot(v: List[a], k: int): List[a] = tab(v.length(), i => v[wrap(i - k, v.length())])
  pure def lall(v: List[a], p: a => bool): bool = v.foldl(true, (ok, x) => ok and p(x))

  // ---------------------------------------------------------------- integers
  pure def iabs(a: int): int = if (a < 0) -a else a
  pure def imax(a: int, b: int): int = if (a >= b) a else b
  pure def imin(a: int, b: int): int = if (a <= b) a else b
  // maximum (d > 0) or minimum (d < 0)
  pure def pick(d: int, a: int, b: int): int = if (d > 0) imax(a, b) else imin(a, b)
  pure def sgn(a: int): int = if (a > 0) 1 else if (a < 0) -1 else 0
  // floor division and modulus for a positive divisor
  pure def fdiv(a: int, b: int): int = if (a >= 0) a / b else -((-a + b - 1) / b)
  pure def fmod(a: int, b: int): int = a - b * fdiv(a, b)
  pure def wrap(i: int, n: int): int = fmod(i, n)

  // ------------------------------------------------------------- fixed point
  pure def real(n: int): int = n * ONE
  pure def mul(a: int, b: int): int = (a * b) / ONE
  pure def div(a: int, b: int): int = (a * ONE) / b
  pure def div0(a: int, b: int): int = if (b == 0) 0 else (a * ONE) / b
  pure def sq(a: int): int = (a * a) / ONE
  // integer square root: power-of-two start above the root, then Newton
  pure def isqrt(n: int): int =
    if (n <= 0) 0 else {
      val x0 = range(0, 22).foldl(1, (x, _) => if (x * x <= n) x * 4096 else x)
      range(0, 18).foldl(x0, (x, _) => { val y = (x + n / x) / 2 if (y < x) y else x })
    }
  pure def sqrt(a: int): int = isqrt(a * ONE)
  pure def powi(a: int, k: int): int = range(0, k).foldl(ONE, (p, _) => mul(p, a))
  pure def isFin(a: int): bool = iabs(a) < NAN
  // |a - b| <= tol, tol absolute in fixed point
  pure def near(a: int, b: int, tol: int): bool = isFin(a) and isFin(b) and iabs(a - b) <= tol
  // tolerance: 2^-k relative to 1 + scale
  pure def tolAt(scale: int, k: int): int = (ONE + iabs(scale)) / 2^k
  pure def close(a: int, b: int): bool = near(a, b, tolAt(imax(iabs(a), iabs(b)), 30))

  // ----------------------------------------------------------------- vectors
  pure def mapi(n: int, f: int => int): Vec = range(0, n).foldl([], (acc, i) => acc.append(f(i)))
  pure def vmap(v: Vec, f: int => int): Vec = v.foldl([], (acc, x) => acc.append(f(x)))
  pure def sumv(v: Vec): int = v.foldl(0, (a, x) => a + x)
  pure def maxv(v: Vec): int = v.foldl(v[0], (a, x) => imax(a, x))
  pure def minv(v: Vec): int = v.foldl(v[0], (a, x) => imin(a, x))
  pure def maxabs(v: Vec): int = v.foldl(0, (a, x) => imax(a, iabs(x)))
  pure def vadd(a: Vec, b: Vec): Vec = mapi(a.length(), i => a[i] + b[i])
  pure def vsub(a: Vec, b: Vec): Vec = mapi(a.length(), i => a[i] - b[i])
  pure def vscale(s: int, a: Vec): Vec = vmap(a, x => mul(s, x))
  pure def vneg(a: Vec): Vec = vmap(a, x => -x)
  pure def axpy(s: int, a: Vec, b: Vec): Vec = mapi(a.length(), i => mul(s, a[i]) + b[i])
  pure def dot(a: Vec, b: Vec): int = range(0, a.length()).foldl(0, (acc, i) => acc + a[i] * b[i]) / ONE
  pure def rev(v: Vec): Vec = mapi(v.length(), i => v[v.length() - 1 - i])
  pure def rot(v: Vec, k: int): Vec = mapi(v.length(), i => v[wrap(i - k, v.length())])
  pure def fill(n: int, x: int): Vec = mapi(n, _ => x)
  pure def allFin(v: Vec): bool = v.foldl(true, (a, x) => a and isFin(x))
  pure def sameLen(a: Vec, b: Vec): bool = a.length() == b.length()
  // componentwise agreement within 2^-k relative to 1 + the largest entry
  pure def agreeTol(a: Vec, b: Vec, tol: int): bool =
    sameLen(a, b) and range(0, a.length()).foldl(true, (ok, i) => ok and near(a[i], b[i], tol))
  pure def agreeK(a: Vec, b: Vec, k: int): bool =
    sameLen(a, b) and allFin(a) and allFin(b)
      and agreeTol(a, b, tolAt(imax(maxabs(a), maxabs(b)), k))
  pure def agree(a: Vec, b: Vec): bool = agreeK(a, b, 28)
  pure def vevery(v: Vec, p: int => bool): bool = v.foldl(true, (ok, x) => ok and p(x))
  pure def every(n: int, p: int => bool): bool = range(0, n).foldl(true, (ok, i) => ok and p(i))
  pure def some(n: int, p: int => bool): bool = range(0, n).foldl(false, (ok, i) => ok or p(i))
  pure def has(v: Vec, x: int): bool = v.foldl(false, (ok, y) => ok or x == y)

  // The same once more, for use inside a lambda given to the one above: the
  // simulator does not allow a higher-order definition to be re-entered.
  pure def each(n: int, q: int => bool): bool = range(0, n).foldl(true, (fine, j) => fine and q(j))
  pure def inner(n: int, h: int => int): Vec = range(0, n).foldl([], (list, j) => list.append(h(j)))

  // ------------------------------------------------------- decoding of events
  pure def slots(d: int): Vec = {
    val n = d % SLOT - OFFSET
    range(0, n).foldl({ r: d, o: [] }, (a, _) =>
      { r: a.r / SLOT, o: a.o.append(a.r % SLOT - OFFSET) }).o
  }
  pure def dec(d: int): List[Vec] = {
    val s = slots(d)
    range(0, s[1]).foldl({ p: 2, o: [] }, (a, _) =>
      { p: a.p + 1 + s[a.p], o: a.o.append(s.slice(a.p + 1, a.p + 1 + s[a.p])) }).o
  }

  // ----------------------------------------------------------------- verdicts
  pure def chk(c: str, held: bool): Verdict = { c: c, bad: not(held) }
  // a clause that is only evaluated if its premise holds
  pure def chkIf(premise: bool, c: str, held: bool): List[Verdict] =
    if (premise) [{ c: c, bad: not(held) }] else []
}
