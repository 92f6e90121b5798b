// The priors of a Bayesian neural network, and their values for arbitrary arguments.
module priors {
  import fx.* from "./fx"

  type Vec = List[int]

  // log density of log variances (one row per datapoint, one entry per output) around `lnMean`, up to a constant:
  // summed over outputs, averaged over datapoints
  pure def logVarPrior(rows: List[Vec], lnMean: int, variance: int, lnVariance: int): int =
    rows.foldl(0, (s, row) => row.foldl(s, (a, lv) =>
      a - guarded(fmul(lv - lnMean, lv - lnMean), 2 * variance) - lnVariance / 2)) / length(rows)

  // log density of all weights, averaged over the weights
  pure def weightPrior(w: Vec, wdecay: int): int =
    -(fmul(wdecay, w.foldl(0, (a, v) => a + fmul(v, v)))) / (2 * length(w))
}

module arguments {
  import fx.* from "./fx"
  import priors.* from "./priors"

  // lnMean and lnVariance are the logarithms of the arguments
  type Case = { rows: List[Vec], lnMean: int, mean: int, lnVariance: int, variance: int, logVarValue: int,
                shapes: List[Vec], weights: Vec, wdecay: int, weightValue: int, layout: int }
  var case: Case

  action init = {
    nondet n = 1.to(4).oneOf()
    nondet k = 1.to(3).oneOf()
    nondet e = 0.to(11).setOfMaps((-150).to(40)).oneOf()
    nondet lnMean = (-140).to(20).oneOf()
    nondet lnVariance = (-60).to(20).oneOf()
    nondet m = 1.to(9).oneOf()
    nondet w = 0.to(8).setOfMaps((-40).to(40)).oneOf()
    nondet wdecay = 0.to(30).oneOf()
    nondet layout = 0.to(99).oneOf()
    val rows = range(0, n).foldl([], (a, i) => a.append(range(0, k).foldl([], (r, j) => r.append(dec(e.get(3 * i + j), 1)))))
    val weights = range(0, m).foldl([], (a, i) => a.append(dec(w.get(i), 1)))
    case' = {
      rows: rows, lnMean: dec(lnMean, 1), mean: fexp(dec(lnMean, 1)), lnVariance: dec(lnVariance, 1),
      variance: fexp(dec(lnVariance, 1)),
      logVarValue: logVarPrior(rows, dec(lnMean, 1), fexp(dec(lnVariance, 1)), dec(lnVariance, 1)),
      shapes: [], weights: weights, wdecay: dec(wdecay, 1), weightValue: weightPrior(weights, dec(wdecay, 1)), layout: layout
    }
  }
  action step = case' = case

  // a density in the log variances is largest at the mean; weights are most likely at zero
  val modes = and {
    case.logVarValue <= logVarPrior(case.rows.foldl([], (a, r) => a.append(r.foldl([], (b, _) => b.append(case.lnMean)))),
                                    case.lnMean, case.variance, case.lnVariance),
    case.weightValue <= 0
  }
  // datapoints contribute equally, whatever their order
  val symmetric = fabs(case.logVarValue - logVarPrior(
    case.rows.foldl([], (a, r) => [r].concat(a)), case.lnMean, case.variance, case.lnVariance)) <= S / 10^15
  val inv = modes and symmetric
}
