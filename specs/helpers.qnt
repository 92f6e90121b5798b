// Distances, medians and guarded arithmetic: what the tensor helpers compute.

// All pairwise distances, their square form, and medians.
module distances {
  import fx.* from "./fx"
  type Vec = List[int]
  type Request = { fun: str, kind: str, rank: int, metric: str }
  type Case = { points: List[Vec], condensed: Vec, square: List[Vec], entries: Vec, median: int, vector: Vec, accepted: bool,
                matrix: List[Vec], whole: bool, layout: int, request: Request, served: bool }
  var case: Case

  pure def distance(p: Vec, q: Vec): int =
    fsqrt(range(0, length(p)).foldl(0, (s, i) => s + fmul(p[i] - q[i], p[i] - q[i])))
  pure def pdist(ps: List[Vec]): Vec =
    range(0, length(ps)).foldl([], (l, i) => range(i + 1, length(ps)).foldl(l, (m, j) => m.append(distance(ps[i], ps[j]))))

  // side of the matrix that has n entries above its diagonal (0: there is none)
  pure def side(n: int): int = range(1, 32).select(m => m * (m - 1) / 2 == n).foldl(0, (_, m) => m)
  // place of entry (i, j), i < j, in the condensed vector of a matrix of m rows
  pure def place(m: int, i: int, j: int): int = i * (2 * m - i - 1) / 2 + (j - i - 1)
  pure def squareform(v: Vec): List[Vec] = {
    pure val m = side(length(v))
    range(0, m).foldl([], (rows, i) => rows.append(range(0, m).foldl([], (row, j) => row.append(
      if (i == j) 0 else if (i < j) v[place(m, i, j)] else v[place(m, j, i)]))))
  }

  // which arguments are served: tensors (variables as well for distances), points in two dimensions, one known metric;
  // vectors of distances in one dimension
  pure def serves(r: Request): bool =
    if (r.fun == "pdist") Set("tensor", "variable").contains(r.kind) and r.rank == 2 and r.metric == "euclidean"
    else r.kind == "tensor" and r.rank == 1

  // coordinate k of point i, from few random numbers
  pure def coordinate(x: int -> int, i: int, k: int): int = x.get((i * 4 + k) % 28) + 13 * ((i * 4 + k) / 28) - 5 * (k / 4)

  action init = {
    nondet small = 1.to(7).oneOf()
    // crowds of points
    nondet large = 12.to(26).oneOf()
    nondet crowd = 0.to(24).oneOf()
    val n = if (crowd == 0) large else small
    nondet few_columns = 1.to(4).oneOf()
    nondet columns = 5.to(19).oneOf()
    nondet wide = 0.to(12).oneOf()
    val d = if (wide == 0 and crowd != 0) columns else few_columns
    nondet x = 0.to(27).setOfMaps((-30).to(30)).oneOf()
    nondet twin = 0.to(4).oneOf()
    // points far away from the origin, compared to their distances
    nondet far = 0.to(4).oneOf()
    nondet little = 1.to(30).oneOf()
    nondet much = 31.to(300).oneOf()
    nondet bulk = 0.to(12).oneOf()
    val count = if (bulk == 0) much else little
    nondet e = 0.to(29).setOfMaps((-50).to(50)).oneOf()
    nondet few = Set(true, false).oneOf()
    nondet short = 0.to(16).oneOf()
    nondet long = Set(20, 21, 22, 28, 35, 36, 37, 45, 55, 65, 66, 67, 78, 91, 105, 119, 120, 136, 152, 153, 154,
                      189, 190, 191, 199, 210, 231, 253, 276, 300, 324, 325, 435).oneOf()
    nondet stretch = 0.to(4).oneOf()
    val len = if (stretch == 0) long else short
    nondet v = 0.to(15).setOfMaps(0.to(50)).oneOf()
    nondet whole = Set(true, false, false).oneOf()
    nondet layout = 0.to(999).oneOf()
    nondet fun = Set("pdist", "squareform").oneOf()
    nondet kind = Set("tensor", "variable", "list", "array").oneOf()
    nondet rank = 0.to(3).oneOf()
    nondet metric = Set("euclidean", "cityblock", "Euclidean", "sqeuclidean", "").oneOf()
    val places = if (whole) 0 else 1
    val points = range(0, n).foldl([], (l, i) => l.append(range(0, d).foldl([], (p, k) =>
      // sometimes the first two points coincide
      p.append(if (far == 0) dec(100000 * (k + 1) + coordinate(x, if (twin == 0 and i == 1) 0 else i, k), 0)
               else dec(coordinate(x, if (twin == 0 and i == 1) 0 else i, k), 1)))))
    // with few distinct values there are ties
    val entries = range(0, count).foldl([], (l, i) => l.append(dec(if (few) e.get(i % 30) % 4 else e.get(i % 30) + i / 30, places)))
    val vector = range(0, len).foldl([], (l, i) => l.append(dec(v.get(i % 16) + i / 16, 1)))
    val request = { fun: fun, kind: kind, rank: rank, metric: metric }
    case' = {
      points: points, condensed: pdist(points), square: squareform(pdist(points)), entries: entries,
      median: medianOf(entries), vector: vector, accepted: side(len) > 0,
      matrix: if (side(len) > 0) squareform(vector) else [], whole: whole, layout: layout,
      request: request, served: serves(request)
    }
  }
  action step = case' = case

  val indices2 = range(0, if (length(case.square) < 9) length(case.square) else 9).indices()
  // square forms are symmetric with zero diagonal and hold the distance of every pair, for which the triangle holds
  val metricSpace = indices2.forall(i => indices2.forall(j => and {
    case.square[i][j] == case.square[j][i],
    case.square[i][j] == distance(case.points[i], case.points[j]) or i == j and case.square[i][j] == 0,
    indices2.forall(k => case.square[i][k] <= case.square[i][j] + case.square[j][k] + 10)
  }))
  // as many entries are not below the median as are not above it, up to ties
  val middle = {
    val below = case.entries.select(v => v < case.median).length()
    val above = case.entries.select(v => v > case.median).length()
    2 * below <= length(case.entries) and 2 * above <= length(case.entries)
  }
  val orderless = medianOf(case.entries.foldl([], (l, v) => [v].concat(l))) == case.median
  // square form and condensed form hold the same
  val lossless = case.accepted implies
    range(0, length(case.matrix)).foldl([], (l, i) =>
      range(i + 1, length(case.matrix)).foldl(l, (m, j) => m.append(case.matrix[i][j]))) == case.vector
  val inv = metricSpace and middle and orderless and lossless
}

// Guarded division and square root.  Numbers are m * 10^e; magnitudes are computed times 10^120.
module guards {
  import fx.* from "./fx"
  type Num = { m: int, e: int }
  // bounds of the magnitude of a quotient as fractions
  type Frac = { num: int, den: int }
  type Case = { x: Num, y: Num, c: Num, sign: int, least: Frac, most: Frac, single: bool, terse: bool,
                root: Num, lower: Num, upper: Num, bounded: bool, clipped: int, layout: int }
  var case: Case

  pure val PLACES = 120
  pure def scaled(n: Num): int = n.m * 10^(n.e + PLACES)
  pure def top(a: int, b: int): int = if (a < b) b else a
  pure def least(x: Num, y: Num, c: Num): Frac = { num: fabs(scaled(x)), den: fabs(scaled(y)) + 3 * scaled(c) }
  pure def most(x: Num, y: Num, c: Num): Frac = { num: fabs(scaled(x)), den: top(fabs(scaled(y)), scaled(c)) }
  pure def clip(x: int, lower: int, upper: int, bounded: bool): int =
    if (x < lower) lower else if (bounded and x > upper) upper else x

  action init = {
    nondet xm = (-99).to(99).oneOf()
    nondet xe = (-12).to(9).oneOf()
    nondet ym = (-99).to(99).oneOf()
    nondet ye = Set(-40, -30, -20, -18, -17, -16, -15, -14, -10, -9, -8, -7, -4, -1, 0, 2, 7, 12, 21).oneOf()
    nondet zero = 0.to(5).oneOf()
    nondet cm = 1.to(9).oneOf()
    nondet ce = Set(-16, -16, -8, -20, -3).oneOf()
    nondet terse = Set(true, false).oneOf()
    nondet single = Set(true, false, false).oneOf()
    // denominators at and around the (negated) guard constant, where naive guards fail
    nondet near = 0.to(6).oneOf()
    nondet rm = (-99).to(99).oneOf()
    nondet re = (-25).to(35).oneOf()
    nondet lm = 0.to(30).oneOf()
    nondet le = (-16).to(2).oneOf()
    nondet um = 0.to(60).oneOf()
    nondet bounded = Set(true, false).oneOf()
    nondet layout = 0.to(999).oneOf()
    val c: Num = if (terse) { m: 1, e: -16 } else { m: cm, e: ce }
    val y: Num = if (zero == 0) { m: 0, e: 0 }
                 else if (near == 0) { m: -c.m, e: c.e } else if (near == 1) { m: -3 * c.m, e: c.e }
                 else if (near == 2) { m: -5 * c.m, e: c.e - 1 } else if (near == 3) { m: -2 * c.m, e: c.e } else { m: ym, e: if (single and ye == -40) -36 else ye }
    val x: Num = { m: xm, e: xe }
    val lower: Num = if (terse) { m: 0, e: 0 } else { m: lm, e: le }
    val upper: Num = { m: lm + um, e: le }
    val root: Num = { m: rm, e: re }
    case' = {
      x: x, y: y, c: c, sign: if (y.m < 0) -(fsign(x.m)) else fsign(x.m), least: least(x, y, c), most: most(x, y, c),
      single: single, terse: terse, root: root, lower: lower, upper: upper, bounded: bounded and not(terse),
      clipped: clip(scaled(root), scaled(lower), scaled(upper), bounded and not(terse)), layout: layout
    }
  }
  action step = case' = case

  // the bounds leave room, bound the quotient by |x| / c, and enclose the quotient closely where |y| is far above c
  val sound = and {
    case.most.den > 0, case.least.den > 0,
    case.least.num * case.most.den <= case.most.num * case.least.den,
    case.most.den >= scaled(case.c),
    fabs(scaled(case.y)) > 10^9 * scaled(case.c) implies
      (case.least.den - case.most.den) * 10^8 <= case.most.den,
    case.clipped >= scaled(case.lower), case.bounded implies case.clipped <= scaled(case.upper)
  }
  // the guard of the update rules (module fx) is one that respects the bounds
  val ownGuard = case.c == { m: 1, e: -16 } implies {
    val shifted = scaled(case.y) + 2 * fsign(case.y.m) * scaled(case.c) + scaled(case.c)
    fabs(shifted) >= case.most.den and fabs(shifted) <= case.least.den
  }
  val inv = sound and ownGuard
}
