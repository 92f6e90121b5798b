// Standardisation and rescaling of data, column by column.
module normalisation {
  import fx.* from "./fx"
  import priors.Vec from "./priors"

  pure def meanOf(l: Vec): int = total(l) / length(l)
  // population standard deviation; constant columns are only centred
  pure def varies(l: Vec): bool = l.indices().exists(i => l[i] != l[0])
  pure def stdOf(l: Vec): int = {
    pure val m = meanOf(l)
    // relative to the largest deviation, so that no digits get lost
    pure val h = l.foldl(0, (a, v) => if (fabs(v - m) > a) fabs(v - m) else a)
    if (not(varies(l))) S
    else fmul(h, fsqrt(total(l.foldl([], (a, v) => a.append(fmul(fdiv(v - m, h), fdiv(v - m, h))))) / length(l)))
  }
  pure def column(x: List[Vec], k: int): Vec = x.foldl([], (a, row) => a.append(row[k]))
  // range of a column; constant columns get unit range
  pure def lowest(l: Vec): int = l.foldl(l[0], (a, v) => if (v < a) v else a)
  pure def highest(l: Vec): int = {
    pure val top = l.foldl(l[0], (a, v) => if (v > a) v else a)
    if (varies(l)) top else top + S
  }

  pure def centred(l: Vec, mean: int, std: int): Vec = l.foldl([], (a, v) => a.append(fdiv(v - mean, std)))
  pure def uncentred(l: Vec, mean: int, std: int): Vec = l.foldl([], (a, v) => a.append(fmul(v, std) + mean))
  pure def ranged(l: Vec, lower: int, upper: int): Vec = l.foldl([], (a, v) => a.append(fdiv(v - lower, upper - lower)))
  pure def unranged(l: Vec, lower: int, upper: int): Vec =
    l.foldl([], (a, v) => a.append(lower + fmul(upper - lower, v)))
}

// The helper functions on single columns: with the statistics of the data, and with given ones.
module columns {
  import fx.* from "./fx"
  import priors.Vec from "./priors"
  import normalisation.* from "./normalisation"

  type Outcome = { values: Vec, first: int, second: int, back: Vec }
  type Case = { data: Vec, other: Vec, own: Outcome, given: Outcome, ownRange: Outcome, givenRange: Outcome, layout: int }
  var case: Case

  pure def standardise(l: Vec, mean: int, std: int): Outcome =
    { values: centred(l, mean, std), first: mean, second: std, back: uncentred(centred(l, mean, std), mean, std) }
  pure def rescale(l: Vec, lower: int, upper: int): Outcome =
    { values: ranged(l, lower, upper), first: lower, second: upper, back: unranged(ranged(l, lower, upper), lower, upper) }

  action init = {
    nondet n = 1.to(6).oneOf()
    nondet x = 0.to(5).setOfMaps((-99).to(99)).oneOf()
    nondet o = 0.to(5).setOfMaps((-99).to(99)).oneOf()
    nondet m = 1.to(6).oneOf()
    nondet flat2 = 0.to(4).oneOf()
    nondet far = Set(0, 1, 1000).oneOf()
    // of any magnitude
    nondet fine = 0.to(10).oneOf()
    // data that hardly varies
    nondet tight = 0.to(1).oneOf()
    val places = if (far == 0) fine else fine % 5
    nondet layout = 0.to(99).oneOf()
    val data = range(0, n).foldl([], (a, i) => a.append(dec(if (tight == 0) x.get(if (flat2 == 0) 0 else i) else x.get(0) + x.get(i) % 4, places) + far * S))
    // test data is treated with the statistics of the training data
    val other = range(0, m).foldl([], (a, i) => a.append(dec(o.get(i), places)))
    case' = {
      data: data, other: other,
      own: standardise(data, meanOf(data), stdOf(data)), given: standardise(other, meanOf(data), stdOf(data)),
      ownRange: rescale(data, lowest(data), highest(data)), givenRange: rescale(other, lowest(data), highest(data)),
      layout: layout
    }
  }
  action step = case' = case

  pure def near(a: int, b: int): bool = fabs(a - b) <= (S + fabs(b)) / 10^15
  // digits get lost for tiny data
  pure def roughly(a: int, b: int): bool = fabs(a - b) <= (S + fabs(b)) / 10^8
  pure def same(a: Vec, b: Vec): bool = length(a) == length(b) and a.indices().forall(i => near(a[i], b[i]))

  val inverse = and {
    same(case.own.back, case.data), same(case.given.back, case.other),
    same(case.ownRange.back, case.data), same(case.givenRange.back, case.other)
  }
  val standard = and {
    roughly(meanOf(case.own.values), 0), roughly(stdOf(case.own.values), S),
    case.ownRange.values.indices().forall(i => case.ownRange.values[i] >= 0 and case.ownRange.values[i] <= S)
  }
  val inv = inverse and standard
}
