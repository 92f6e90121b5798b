// Marginal distribution of an initial relativistic momentum, density ~ exp(-m c^2 sqrt(p^2/(m^2 c^2) + 1)),
// by Riemann sums over [-LIMIT, LIMIT].
module relmomentum {
  import fx.* from "./fx"

  var mass: int
  var c: int
  var at: List[int]
  var cdf: List[int]

  pure val LIMIT: int = 40
  pure val PER_UNIT: int = 8

  pure def energy(m: int, light: int, p: int): int = {
    pure val q = fdiv(p, fmul(m, light))
    fmul(fmul(m, fmul(light, light)), fsqrt(fmul(q, q) + S) - S)
  }
  // unnormalised mass of [0, k / PER_UNIT] for k = 0 .. LIMIT * PER_UNIT (midpoint rule)
  pure def masses(m: int, light: int): List[int] =
    range(0, LIMIT * PER_UNIT).foldl([0], (l, i) =>
      l.append(l[length(l) - 1] + fexp(-energy(m, light, (2 * i + 1) * S / (2 * PER_UNIT)))))

  pure val POINTS: List[int] = [-24, -12, -6, -3, 0, 3, 6, 12, 24]
  pure def cdfs(m: int, light: int): List[int] = {
    pure val half = masses(m, light)
    pure val whole = half[LIMIT * PER_UNIT]
    POINTS.foldl([], (l, k) => l.append(
      S / 2 + (if (k < 0) -1 else 1) * fdiv(half[if (k < 0) -k else k], 2 * whole)))
  }

  action init = {
    nondet m = Set(5, 10, 20).oneOf()
    nondet light = Set(6, 10, 25).oneOf()
    all {
      mass' = dec(m, 1),
      c' = dec(light, 1),
      at' = POINTS.foldl([], (l, k) => l.append(k * S / PER_UNIT)),
      cdf' = cdfs(dec(m, 1), dec(light, 1)),
    }
  }
  action step = all { mass' = mass, c' = c, at' = at, cdf' = cdf }
}
