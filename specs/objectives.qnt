// The objective functions of the diagnostics (C34): synthetic functions as the literature defines them, and the
// log likelihoods that samplers are demonstrated on, in fixed-point arithmetic (24 decimal digits).
module objectives {
  import fx.* from "./fx"

  pure val PI: int = 3141592653589793238462643 // 10^24 fixed point
  pure val TWOPI: int = 2 * PI
  // remainder in [-PI, PI]
  pure def reduced(x: int): int = {
    pure val y = fabs(x)
    pure val r = y - (y / TWOPI) * TWOPI
    fsign(x) * (if (r > PI) r - TWOPI else r)
  }
  pure def series(first: int, from: int, sq: int): int =
    range(0, 24).foldl({ term: first, sum: first }, (acc, k) => {
      pure val term = qdiv(-(fmul(acc.term, sq)), (from + 2 * k) * (from + 2 * k + 1))
      { term: term, sum: acc.sum + term }
    }).sum
  pure def fcos(x: int): int = { pure val r = reduced(x) series(S, 1, fmul(r, r)) }
  pure def fsin(x: int): int = { pure val r = reduced(x) series(r, 2, fmul(r, r)) }
  // Halley's iteration for the inverse of the exponential
  pure def flog(x: int): int = range(0, 12).foldl(0, (y, _) => {
    pure val e = fexp(y)
    y + fdiv(2 * (x - e), x + e)
  })
  pure def sq(x: int): int = fmul(x, x)
  pure def fpow(x: int, n: int): int = range(0, n).foldl(S, (acc, _) => fmul(acc, x))
  pure def sumOver(n: int, l: List[int]): int = range(0, n).foldl(0, (acc, i) => acc + l[i])

  pure def bohachevski(x: List[int]): int =
    dec(7, 1) + sq(x[0]) + 2 * sq(x[1]) - 3 * fcos(3 * fmul(PI, x[0])) / 10 - 4 * fcos(4 * fmul(PI, x[1])) / 10
  pure def branin(x: List[int]): int = {
    pure val b = fdiv(dec(51, 1), 4 * sq(PI))
    sq(x[1] - fmul(b, sq(x[0])) + fdiv(5 * x[0], PI) - 6 * S) + fmul(10 * (S - fdiv(S, 8 * PI)), fcos(x[0])) + 10 * S
  }
  pure def camelback(x: List[int]): int = {
    pure val a = sq(x[0])
    pure val b = sq(x[1])
    fmul(4 * S - fmul(dec(21, 1), a) + qdiv(sq(a), 3), a) + fmul(x[0], x[1]) + fmul(4 * b - 4 * S, b)
  }
  pure def goldstein_price(p: List[int]): int = {
    pure val x = p[0]
    pure val y = p[1]
    pure val first = S + fmul(sq(x + y + S), 19 * S - 14 * x + 3 * sq(x) - 14 * y + 6 * fmul(x, y) + 3 * sq(y))
    pure val second = 30 * S + fmul(sq(2 * x - 3 * y), 18 * S - 32 * x + 12 * sq(x) + 48 * y - 36 * fmul(x, y) + 27 * sq(y))
    fmul(first, second)
  }
  pure val ALPHA = [10, 12, 30, 32]
  pure def hartmann(x: List[int], n: int, a: List[List[int]], p: List[List[int]]): int =
    range(0, 4).foldl(0, (acc, i) => {
      pure val inner = range(0, n).foldl(0, (s, j) => s + fmul(dec(a[i][j], 2), sq(x[j] - dec(p[i][j], 4))))
      acc - fmul(dec(ALPHA[i], 1), fexp(-inner))
    })
  pure val A3 = [[300, 1000, 3000], [10, 1000, 3500], [300, 1000, 3000], [10, 1000, 3500]]
  pure val P3 = [[3689, 1170, 2673], [4699, 4387, 7470], [1090, 8732, 5547], [381, 5743, 8828]]
  pure val A6 = [[1000, 300, 1700, 350, 170, 800], [5, 1000, 1700, 10, 800, 1400],
                 [300, 350, 170, 1000, 1700, 800], [1700, 800, 5, 1000, 10, 1400]]
  pure val P6 = [[1312, 1696, 5569, 124, 8283, 5886], [2329, 4135, 8307, 3736, 1004, 9991],
                 [2348, 1451, 3522, 2883, 3047, 6650], [4047, 8828, 8732, 5743, 1091, 381]]
  pure def levy(x: List[int]): int = {
    pure val z = S + qdiv(x[0] - S, 4)
    sq(fsin(fmul(PI, z))) + fmul(sq(z - S), S + sq(fsin(2 * fmul(PI, z))))
  }
  pure def rosenbrock(x: List[int]): int = 100 * sq(x[1] - sq(x[0])) + sq(x[0] - S)
  pure def wave(x: int): int = fmul(fsin(13 * x), fsin(27 * x)) / 2 + S / 2
  pure def sinc(x: List[int]): int = x.foldl(0, (acc, v) => {
    pure val y = fmul(PI, 10 * v - 5 * S)
    acc + (if (fabs(y) < S / 10^20) S else fdiv(fsin(y), y))
  })
  pure def banana(x: List[int]): int = -(sq(x[0]) / 100 + sq(x[1] + sq(x[0]) / 10 - 10 * S)) / 2
  // the log of a mixture of Gaussians
  pure def mixture(x: int, mu: List[int], variance: List[int], weights: List[int]): int = {
    pure val parts = range(0, length(mu)).foldl(List(), (l, i) =>
      l.append(flog(weights[i]) - flog(fmul(2 * PI, variance[i])) / 2 - fdiv(sq(x - mu[i]), 2 * variance[i])))
    pure val most = parts.foldl(parts[0], (m, v) => fmax(m, v))
    most + flog(parts.foldl(0, (acc, v) => acc + fexp(v - most)))
  }
  pure val MODES = [-5 * S, 0, 5 * S]
  pure val THIRDS = [S / 3, S / 3, S / 3]
  pure def gmm(x: int, spread: int): int =
    mixture(x, MODES, if (spread == 10) [S, S, S] else [fdiv(10 * S, spread * S), dec(spread, 1), fdiv(10 * S, spread * S)], THIRDS)

  pure val NAMES = ["bohachevski", "branin", "camelback", "goldstein_price", "hartmann3", "hartmann6", "levy", "rosenbrock",
                    "sin_one", "sin_two", "banana", "sinc", "gmm1", "gmm2", "gmm3", "mixture"]
  // domains in tenths, per coordinate
  type Box = { low: List[int], high: List[int] }
  pure def cube(n: int, low: int, high: int): Box =
    { low: range(0, n).foldl(List(), (l, _) => l.append(low)), high: range(0, n).foldl(List(), (l, _) => l.append(high)) }
  pure def box(f: str): Box =
    if (f == "bohachevski") cube(2, -1000, 1000) else if (f == "branin") { low: [-50, 0], high: [100, 150] }
    else if (f == "camelback") { low: [-30, -20], high: [30, 20] } else if (f == "goldstein_price") cube(2, -20, 20)
    else if (f == "hartmann3") cube(3, 0, 10) else if (f == "hartmann6") cube(6, 0, 10)
    else if (f == "levy") cube(1, -150, 100) else if (f == "rosenbrock") cube(2, -50, 100)
    else if (f == "sin_one") cube(1, 0, 10) else if (f == "sin_two") cube(2, 0, 10)
    else if (f == "banana") cube(2, -200, 200) else if (f == "sinc") cube(3, 0, 10) else cube(1, -200, 200)
  // documented optima, with 16 decimal places
  pure def optima(f: str): List[List[int]] =
    if (f == "bohachevski") [[0, 0]]
    else if (f == "branin") [[-31415926535897932, 122750000000000000], [31415926535897932, 22750000000000000],
                             [94247800000000000, 24750000000000000]]
    else if (f == "camelback") [[898000000000000, -7126000000000000], [-898000000000000, 7126000000000000]]
    else if (f == "goldstein_price") [[0, -10000000000000000]]
    else if (f == "hartmann3") [[1146140000000000, 5556490000000000, 8525470000000000]]
    else if (f == "hartmann6") [[2016900000000000, 1500110000000000, 4768740000000000, 2753320000000000, 3116520000000000, 6573000000000000]]
    else if (f == "levy") [[10000000000000000]]
    else if (f == "rosenbrock") [[10000000000000000, 10000000000000000]]
    else if (f == "sin_one") [[6330131633013163]] else if (f == "sin_two") [[6330131633013163, 6330131633013163]]
    else if (f == "banana") [[0, 100000000000000000]]
    else if (f == "sinc") [[5000000000000000, 5000000000000000, 5000000000000000]]
    else [[0]]
  // documented least (greatest, for log likelihoods) values; 10^3 S where none is documented
  pure val UNKNOWN = 1000 * S
  pure def optimum(f: str): int =
    if (f == "branin") dec(39788735773, 11) else if (f == "camelback") dec(-103162842, 8)
    else if (f == "goldstein_price") 3 * S else if (f == "hartmann3") dec(-38627795317627736, 16)
    else if (f == "hartmann6") dec(-3322368011391339, 15) else if (f == "sin_one") dec(42926342433644127, 18)
    else if (f == "sin_two") sq(dec(42926342433644127, 18)) else if (f == "sinc") -3 * S
    else if (f == "gmm1" or f == "gmm2" or f == "gmm3" or f == "mixture") UNKNOWN else 0

  type Mix = { mu: List[int], variance: List[int], weights: List[int] }
  type Case = { f: str, x: List[int], value: int, special: bool, mix: Mix }
  var case: Case

  pure def value(f: str, x: List[int], m: Mix): int =
    if (f == "bohachevski") bohachevski(x) else if (f == "branin") branin(x) else if (f == "camelback") camelback(x)
    else if (f == "goldstein_price") goldstein_price(x) else if (f == "hartmann3") hartmann(x, 3, A3, P3)
    else if (f == "hartmann6") hartmann(x, 6, A6, P6) else if (f == "levy") levy(x) else if (f == "rosenbrock") rosenbrock(x)
    else if (f == "sin_one") wave(x[0]) else if (f == "sin_two") fmul(wave(x[0]), wave(x[1]))
    else if (f == "banana") banana(x) else if (f == "sinc") sinc(x)
    else if (f == "gmm1") gmm(x[0], 10) else if (f == "gmm2") gmm(x[0], 5) else if (f == "gmm3") gmm(x[0], 3)
    else mixture(x[0], m.mu, m.variance, m.weights)

  action init = {
    nondet which = 0.to(length(NAMES) - 1).oneOf()
    nondet a = 0.to(100000).oneOf()
    nondet b = 0.to(100000).oneOf()
    nondet c = 0.to(100000).oneOf()
    nondet d = 0.to(100000).oneOf()
    nondet place = 0.to(3).oneOf()
    nondet near = 1.to(12).oneOf()
    nondet m1 = (-90).to(90).oneOf()
    nondet m2 = (-90).to(90).oneOf()
    nondet v1 = 1.to(60).oneOf()
    nondet v2 = 1.to(60).oneOf()
    nondet w = 1.to(99).oneOf()
    nondet components = Set(1, 2, 2).oneOf()
    val f = NAMES[which]
    val limits = box(f)
    val n = length(limits.low)
    val us = [a, b, c, d, (a * 7 + b * 3 + 11) % 100001, (c * 7 + d * 3 + 5) % 100001]
    val peaks = optima(f)
    val peak = peaks[a % length(peaks)]
    // anywhere in the domain, close to an optimum, or at one
    val x = range(0, n).foldl(List(), (l, j) => l.append(
      if (place == 3) dec(peak[j], 16)
      else if (place == 2) dec(peak[j], 16) + qdiv((us[j] - 50000) * S, 10^(4 + near))
      else dec(limits.low[j] * 100000 + us[j] * (limits.high[j] - limits.low[j]), 6)))
    val mix = if (components == 1) { mu: [dec(m1, 1)], variance: [dec(v1, 1)], weights: [S] }
              else { mu: [dec(m1, 1), dec(m2, 1)], variance: [dec(v1, 1), dec(v2, 1)], weights: [dec(w, 2), S - dec(w, 2)] }
    case' = { f: f, x: x, value: value(f, x, mix), special: place == 3, mix: mix }
  }
  action step = case' = case

  pure val MAXIMA = Set("banana", "sinc")
  // nowhere better than the documented optimum, which is attained where documented
  val inv = optimum(case.f) != UNKNOWN implies {
    val v = if (case.f.in(MAXIMA)) -case.value else case.value
    val slack = S / 10^8 + fabs(optimum(case.f)) / 10^5
    and { v >= optimum(case.f) - slack, case.special implies v <= optimum(case.f) + slack }
  }
}
