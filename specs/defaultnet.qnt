// The default network in exact arithmetic: three layers of 50 units, a linear output and one shared log variance.
//   mean(x) = W4' tanh(W3' tanh(W2' tanh(W1' x + b1) + b2) + b3) + b4,  log variance(x) = v
// Its 5000 weights follow patterns, which the replay repeats: entry (i, j) of a kernel with pattern p is
// ((p.a i + p.b j + p.c i j + p.e) mod 41 - 20) * p.size, entry j of its bias ((p.p j + p.q) mod 21 - 10) / 10.
module defaultnet {
  import fx.* from "./fx"
  type Vec = List[int]
  type Pattern = { a: int, b: int, c: int, e: int, size: int, p: int, q: int }

  pure val UNITS: int = 50
  pure val POINTS: int = 2
  // the log variance it is built with: ln 1e-3
  pure val LN_START: int = -6907755278982137052053974

  // number of inputs, patterns of the four layers, log variance
  var dims: int
  var layers: List[Pattern]
  var logVar: int
  var x: List[Vec]
  var mean: Vec
  var what: int
  // shapes of its variables: kernel and bias of every layer, log variance
  var shapes: List[List[int]]

  pure def kernel(p: Pattern, i: int, j: int): int = ((p.a * i + p.b * j + p.c * i * j + p.e) % 41 - 20) * p.size
  pure def bias(p: Pattern, j: int): int = dec((p.p * j + p.q) % 21 - 10, 1)

  pure def ftanh(v: int): int = {
    pure val e = fexp(-2 * fabs(v))
    fsign(v) * fdiv(S - e, S + e)
  }
  pure def linear(p: Pattern, input: Vec, units: int): Vec = range(0, units).foldl([], (out, j) =>
    out.append(bias(p, j) + range(0, length(input)).foldl(0, (s, i) => s + kernel(p, i, j) * input[i]) / S))
  pure def hidden(p: Pattern, input: Vec): Vec =
    linear(p, input, UNITS).foldl([], (out, v) => out.append(ftanh(v)))
  pure def output(ps: List[Pattern], point: Vec): int =
    linear(ps[3], hidden(ps[2], hidden(ps[1], hidden(ps[0], point))), 1)[0]
  pure def outputs(ps: List[Pattern], points: List[Vec]): Vec =
    points.foldl([], (out, point) => out.append(output(ps, point)))

  pure def shapesOf(count: int): List[List[int]] =
    [[count, UNITS], [UNITS], [UNITS, UNITS], [UNITS], [UNITS, UNITS], [UNITS], [UNITS, 1], [1], [1, 1]]

  // kernels that keep their layer's sums in the range in which tanh is neither linear nor flat
  pure def pattern(l: int, r: int -> int): Pattern =
    { a: r.get(0), b: r.get(1), c: r.get(2), e: r.get(3), p: r.get(4), q: r.get(5),
      size: (1 + r.get(6) % 3) * (if (l == 0) dec(1, 1) else if (l == 3) dec(3, 2) else dec(1, 2)) }
  pure def points(m: int -> int, count: int): List[Vec] = range(0, POINTS).foldl([], (l, k) =>
    l.append(range(0, count).foldl([], (v, i) => v.append(dec(m.get(3 * k + i), 1)))))

  action init = {
    nondet count = 1.to(3).oneOf()
    nondet p0 = 0.to(6).setOfMaps(0.to(40)).oneOf()
    nondet p1 = 0.to(6).setOfMaps(0.to(40)).oneOf()
    nondet p2 = 0.to(6).setOfMaps(0.to(40)).oneOf()
    nondet p3 = 0.to(6).setOfMaps(0.to(40)).oneOf()
    nondet m = 0.to(8).setOfMaps((-30).to(30)).oneOf()
    val ps = [pattern(0, p0), pattern(1, p1), pattern(2, p2), pattern(3, p3)]
    val at = points(m, count)
    all { dims' = count, layers' = ps, logVar' = LN_START, x' = at, mean' = outputs(ps, at), what' = -1, shapes' = shapesOf(count) }
  }

  // one layer, the log variance (4) or the points (5) change
  action step = {
    nondet change = 0.to(5).oneOf()
    nondet r = 0.to(6).setOfMaps(0.to(40)).oneOf()
    nondet v = (-40).to(40).oneOf()
    nondet m = 0.to(8).setOfMaps((-30).to(30)).oneOf()
    val ps = if (change < 4) layers.replaceAt(change, pattern(change, r)) else layers
    val at = if (change == 5) points(m, dims) else x
    all { dims' = dims, layers' = ps, logVar' = if (change == 4) dec(v, 1) else logVar, x' = at, mean' = outputs(ps, at),
          what' = change, shapes' = shapes }
  }

  // the linear output bounds the mean: tanh stays in [-1, 1]
  val bounded = mean.select(v => fabs(v) > fabs(bias(layers[3], 0)) + UNITS * 20 * layers[3].size) == []
  // and the sign of every unit can be turned around: tanh is odd
  val odd = Set(-3 * S, -S / 3, 0, S / 7, 5 * S, 100 * S).forall(v => ftanh(-v) == -ftanh(v) and fabs(ftanh(v)) <= S)
  val inv = bounded and odd
}
