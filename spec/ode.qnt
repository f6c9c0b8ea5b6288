// Explicit Runge-Kutta methods.
module ode {
  import prelude.* from "./prelude"

  type Tableau = { a: List[Vec], b: Vec, c: Vec }
  pure def frac(n: int, d: int): int = fdiv(n * ONE, d)

  pure val EULER: Tableau = { a: [[0]], b: [ONE], c: [0] }
  pure val HEUN: Tableau = { a: [[0, 0], [ONE, 0]], b: [ONE / 2, ONE / 2], c: [0, ONE] }
  // Shu and Osher
  pure val SSP3: Tableau = { a: [[0, 0, 0], [ONE, 0, 0], [ONE / 4, ONE / 4, 0]],
    b: [frac(1, 6), frac(1, 6), frac(2, 3)], c: [0, ONE, ONE / 2] }

  // Cooper and Verner's eleven-stage method of order eight, as printed in Butcher (2008)
  pure val R21: int = isqrt(21 * ONE * ONE)
  // (n + m sqrt(21)) / d
  pure def surd(n: int, m: int, d: int): int = fdiv(n * ONE + m * R21, d)
  pure val RK8: Tableau = {
    a: [
      fill(11, 0),
      List(ONE / 2).concat(fill(10, 0)),
      List(ONE / 4, ONE / 4).concat(fill(9, 0)),
      List(frac(1, 7), surd(-7, -3, 98), surd(21, 5, 49)).concat(fill(8, 0)),
      List(surd(11, 1, 84), 0, surd(18, 4, 63), surd(21, -1, 252)).concat(fill(7, 0)),
      List(surd(5, 1, 48), 0, surd(9, 1, 36), surd(-231, 14, 360), surd(63, -7, 80)).concat(fill(6, 0)),
      List(surd(10, -1, 42), 0, surd(-432, 92, 315), surd(633, -145, 90), surd(-504, 115, 70), surd(63, -13, 35)).concat(fill(5, 0)),
      List(frac(1, 14), 0, 0, 0, surd(14, -3, 126), surd(13, -3, 63), frac(1, 9)).concat(fill(4, 0)),
      List(frac(1, 32), 0, 0, 0, surd(91, -21, 576), frac(11, 72), surd(-385, -75, 1152), surd(63, 13, 128)).concat(fill(3, 0)),
      List(frac(1, 14), 0, 0, 0, frac(1, 9), surd(-733, -147, 2205), surd(515, 111, 504), surd(-51, -11, 56), surd(132, 28, 245)).concat(fill(2, 0)),
      List(0, 0, 0, 0, surd(-42, 7, 18), surd(-18, 28, 45), surd(-273, -53, 72), surd(301, 53, 72), surd(28, -28, 45), surd(49, -7, 18), 0)
    ],
    b: [frac(1, 20), 0, 0, 0, 0, 0, 0, frac(49, 180), frac(16, 45), frac(49, 180), frac(1, 20)],
    c: [0, ONE / 2, ONE / 2, surd(7, 1, 14), surd(7, 1, 14), ONE / 2, surd(7, -1, 14), surd(7, -1, 14), ONE / 2, surd(7, 1, 14), ONE]
  }

  pure def tableau(m: str): Tableau =
    if (m == "euler") EULER else if (m == "heun") HEUN else if (m == "ssp3") SSP3 else RK8
  pure def orderOf(m: str): int =
    if (m == "euler") 1 else if (m == "heun") 2 else if (m == "ssp3") 3 else 8
  // the integrator a continuous Galerkin space of degree p asks for
  pure def optimalMethod(p: int): str = if (p == 1) "heun" else if (p == 2) "ssp3" else "rk8"

  pure def combine(x: Vec, dt: int, w: Vec, k: List[Vec]): Vec =
    range(0, k.length()).foldl(x, (acc, j) => if (w[j] == 0) acc else axpy(mul(dt, w[j]), k[j], acc))
  pure def stageTime(t: Tableau, t0: int, dt: int, i: int): int = t0 + mul(t.c[i], dt)
  // stage value number i, given the derivatives of the stages before
  pure def stageValue(t: Tableau, x: Vec, dt: int, k: List[Vec], i: int): Vec =
    combine(x, dt, t.a[i], k.slice(0, i))
  pure def endValue(t: Tableau, x: Vec, dt: int, k: List[Vec]): Vec = combine(x, dt, t.b, k)
}
