// A small Bayesian neural network in exact arithmetic: standardisation of the data, the objective and its
// gradient, the chain of SGHMC or SGLD samples, the collected ensemble and its predictions.
// The network has two inputs and five weights:
//   mean(x) = w0 x0 + w1 x1 + b,  log variance(x) = v0 + v1 x0.
module bnn {
  import fx.* from "./fx"
  import rules.* from "./rules"
  import priors.* from "./priors"
  import normalisation.* from "./normalisation"

  type Data = { x: List[Vec], y: Vec }
  // statistics the training data is standardised with
  type Scale = { xm: Vec, xs: Vec, ym: int, ys: int }
  type Config = {
    method: str, normX: bool, normY: bool, batch: int, iters: int, burnIn: int, interval: int, nets: int,
    mdecay: int, A: int, layout: int, data: Data, tests: List[Vec],
    moveX: List[{ by: int, times: int }], moveY: { by: int, times: int }
  }
  type Action = { tag: str, eps: int, z: Vec, rows: List[int] }
  type Pred = { mean: Vec, variance: Vec, nets: List[Vec], noise: List[Vec] }

  var cfg: Config
  var theta: Vec
  var mom: Vec
  var stats: List[Stat]
  var n: int
  var cost: int
  var ensemble: List[Vec]
  var act: Action
  // set once training is over: objective and mean squared error on all data at the last weights, and predictions
  // the data training sees
  var seen: Data
  var report: { nll: int, mse: int }
  var pred: Pred
  var movedPred: Pred

  pure val WEIGHTS = 5
  pure val DEPTH = 8
  pure val LN_MEAN = -13815510557964274104107949   // ln 1e-6
  pure val LN_VAR = -4605170185988091368035983     // ln 0.01

  // ---- standardisation ------------------------------------------------
  pure def scaleOf(c: Config, d: Data): Scale = {
    xm: if (c.normX) [meanOf(column(d.x, 0)), meanOf(column(d.x, 1))] else [0, 0],
    xs: if (c.normX) [stdOf(column(d.x, 0)), stdOf(column(d.x, 1))] else [S, S],
    ym: if (c.normY) meanOf(d.y) else 0,
    ys: if (c.normY) stdOf(d.y) else S
  }
  pure def scaledX(s: Scale, x: List[Vec]): List[Vec] =
    x.foldl([], (a, row) => a.append([fdiv(row[0] - s.xm[0], s.xs[0]), fdiv(row[1] - s.xm[1], s.xs[1])]))
  pure def scaledY(s: Scale, y: Vec): Vec = y.foldl([], (a, v) => a.append(fdiv(v - s.ym, s.ys)))
  pure def scaled(s: Scale, d: Data): Data = { x: scaledX(s, d.x), y: scaledY(s, d.y) }

  // ---- the network and its objective ----------------------------------
  pure def mean(w: Vec, x: Vec): int = fmul(w[0], x[0]) + fmul(w[1], x[1]) + w[2]
  pure def logVar(w: Vec, x: Vec): int = w[3] + fmul(w[4], x[0])

  pure def pick(d: Data, rows: List[int]): Data =
    { x: rows.foldl([], (a, i) => a.append(d.x[i])), y: rows.foldl([], (a, i) => a.append(d.y[i])) }

  // 1 / variance, with a small guard
  pure def precision(lv: int): int = fdiv(S, fexp(lv) + GUARD)

  pure def logLik(w: Vec, b: Data): int = range(0, length(b.x)).foldl(0, (s, i) => {
    pure val lv = logVar(w, b.x[i])
    pure val r = b.y[i] - mean(w, b.x[i])
    s - fmul(fmul(r, r), precision(lv)) / 2 - lv / 2
  })
  // the likelihood is divided by the batch size, the priors by the number of datapoints
  pure def objective(w: Vec, b: Data, batch: int, count: int): int =
    -(logLik(w, b) / batch
      + logVarPrior(range(0, length(b.x)).foldl([], (a, i) => a.append([logVar(w, b.x[i])])), LN_MEAN, S / 100, LN_VAR) / count
      + weightPrior(w, S) / count)
  pure def meanSquaredError(w: Vec, b: Data): int =
    range(0, length(b.x)).foldl(0, (s, i) => s + fmul(b.y[i] - mean(w, b.x[i]), b.y[i] - mean(w, b.x[i]))) / length(b.x)

  // derivatives of the objective by mean and log variance of every datapoint of the batch
  pure def byMean(w: Vec, b: Data, batch: int): Vec = range(0, length(b.x)).foldl([], (a, i) =>
    a.append(-(fmul(b.y[i] - mean(w, b.x[i]), precision(logVar(w, b.x[i])))) / batch))
  pure def byLogVar(w: Vec, b: Data, batch: int, count: int): Vec = range(0, length(b.x)).foldl([], (a, i) => {
    pure val r = b.y[i] - mean(w, b.x[i])
    pure val lv = logVar(w, b.x[i])
    a.append((S - fmul(fmul(fmul(r, r), precision(lv)), fmul(precision(lv), fexp(lv)))) / (2 * batch) + 100 * (lv - LN_MEAN) / length(b.x) / count)
  })
  pure def weighted(l: Vec, k: Vec): int = range(0, length(l)).foldl(0, (s, i) => s + fmul(l[i], k[i]))
  pure def gradient(w: Vec, b: Data, batch: int, count: int): Vec = {
    pure val df = byMean(w, b, batch)
    pure val dl = byLogVar(w, b, batch, count)
    pure val likelihood = [weighted(df, column(b.x, 0)), weighted(df, column(b.x, 1)), total(df), total(dl),
                           weighted(dl, column(b.x, 0))]
    range(0, length(w)).foldl([], (a, i) => a.append(likelihood[i] + w[i] / (length(w) * count)))
  }

  // ---- predictions -----------------------------------------------------
  pure def predict(e: List[Vec], s: Scale, tests: List[Vec]): Pred = {
    pure val x = scaledX(s, tests)
    pure val out = e.foldl([], (a, w) => a.append(x.foldl([], (l, p) => l.append(mean(w, p)))))
    pure val noise = e.foldl([], (a, w) => a.append(x.foldl([], (l, p) => l.append(
      fmul(fmul(fexp(logVar(w, p)), s.ys), s.ys)))))
    pure val means = range(0, length(x)).foldl([], (a, i) => a.append(meanOf(column(out, i))))
    pure val spread = range(0, length(x)).foldl([], (a, i) => a.append(
      meanOf(out.foldl([], (l, o) => l.append(fmul(o[i] - means[i], o[i] - means[i]))))))
    {
      mean: means.foldl([], (a, v) => a.append(fmul(v, s.ys) + s.ym)),
      variance: spread.foldl([], (a, v) => a.append(fmul(fmul(v, s.ys), s.ys))),
      nets: out.foldl([], (a, o) => a.append(o.foldl([], (l, v) => l.append(fmul(v, s.ys) + s.ym)))),
      noise: noise
    }
  }
  pure val NONE: Pred = { mean: [], variance: [], nets: [], noise: [] }

  // the same experiment in other units: what predictions must become (columns that do not vary are only shifted,
  // since they have no scale of their own)
  pure def move(m: { by: int, times: int }, v: int): int = fmul(m.times, v) + m.by
  pure def moveX(c: Config, x: List[Vec]): List[Vec] =
    x.foldl([], (a, row) => a.append([move(c.moveX[0], row[0]), move(c.moveX[1], row[1])]))
  pure def moveData(c: Config, d: Data): Data =
    { x: moveX(c, d.x), y: d.y.foldl([], (a, v) => a.append(move(c.moveY, v))) }
  pure def moveAll(m: { by: int, times: int }, l: Vec): Vec = l.foldl([], (a, v) => a.append(move(m, v)))
  pure def moveVar(m: { by: int, times: int }, l: Vec): Vec =
    l.foldl([], (a, v) => a.append(fmul(fmul(m.times, m.times), v)))
  pure def movePred(c: Config, p: Pred): Pred = {
    mean: moveAll(c.moveY, p.mean),
    variance: moveVar(c.moveY, p.variance),
    nets: p.nets.foldl([], (a, l) => a.append(moveAll(c.moveY, l))),
    noise: p.noise.foldl([], (a, l) => a.append(moveVar(c.moveY, l)))
  }

  // ---- the experiment --------------------------------------------------
  action init = {
    nondet method = Set("SGHMC", "SGLD").oneOf()
    nondet normX = Set(true, false).oneOf()
    nondet normY = Set(true, false).oneOf()
    nondet count = 2.to(5).oneOf()
    nondet fewRows = 1.to(3).oneOf()
    // batches larger than the dataset, too
    nondet manyRows = 4.to(25).oneOf()
    val batchSize = if (manyRows <= 8) manyRows else fewRows
    nondet iters = 3.to(8).oneOf()
    nondet burnIn = 1.to(3).oneOf()
    nondet interval = 1.to(3).oneOf()
    nondet nets = 1.to(4).oneOf()
    nondet mdecay = Set(1, 5, 20).oneOf()
    nondet A = Set(5, 10, 20).oneOf()
    nondet layout = 0.to(4).oneOf()
    nondet x0 = 0.to(4).setOfMaps((-20).to(20)).oneOf()
    nondet x1 = 0.to(4).setOfMaps((-20).to(20)).oneOf()
    nondet y = 0.to(4).setOfMaps((-20).to(20)).oneOf()
    nondet t = 0.to(3).setOfMaps((-40).to(40)).oneOf()
    // test points may lie far from the data
    nondet apart = Set(1, 6).oneOf()
    nondet w = 0.to(4).setOfMaps((-8).to(8)).oneOf()
    // from large noise to almost none
    nondet calm = Set(0, 5, 13).oneOf()
    // a constant column now and then, and data far from zero
    nondet flat = 0.to(5).oneOf()
    nondet away = Set(0, 7, 100).oneOf()
    nondet byX = 0.to(1).setOfMaps((-50).to(50)).oneOf()
    // units that differ by many orders of magnitude
    nondet unitX = Set(0, 4, 11).oneOf()
    nondet unitY = Set(0, 5, 10).oneOf()
    nondet timesX = 0.to(1).setOfMaps(1.to(40)).oneOf()
    nondet byY = (-50).to(50).oneOf()
    nondet timesY = 1.to(40).oneOf()
    // raw data far from zero would need tiny stepsizes
    val far = if (normX) away else 0
    // raw targets far from zero, with a network that starts there
    nondet top = 0.to(3).oneOf()
    val high = if (top == 0 and not(normY)) 10^7 else 0
    val data: Data = {
      x: range(0, count).foldl([], (a, i) =>
        a.append([dec(x0.get(i), 1) + far * S, if (flat <= 1) dec(x1.get(0), 1) else dec(x1.get(i), 1)])),
      y: range(0, count).foldl([], (a, i) => a.append(dec(if (flat == 2) y.get(0) else y.get(i), 1) - (if (normY) far * S else 0) + high * S))
    }
    all {
      cfg' = {
        method: method, normX: normX, normY: normY, batch: batchSize,
        iters: burnIn + 1 + iters, burnIn: burnIn, interval: interval, nets: nets, mdecay: dec(mdecay, 2), A: dec(A, 1),
        layout: layout, data: data,
        tests: [[dec(apart * t.get(0), 1) + far * S, dec(apart * t.get(1), 1)],
                [dec(apart * t.get(2), 1) + far * S, dec(apart * t.get(3), 1)]],
        moveX: if (normX) range(0, 2).foldl([], (a, k) => a.append({
                   by: dec(byX.get(k), 1 + unitX), times: if (varies(column(data.x, k))) dec(timesX.get(k), 1 + unitX) else S }))
               else [{ by: 0, times: S }, { by: 0, times: S }],
        moveY: if (normY and varies(data.y)) { by: dec(byY, 1 + unitY), times: dec(timesY, 1 + unitY) } else { by: 0, times: S }
      },
      theta' = range(0, WEIGHTS).foldl([], (a, i) => a.append(dec(w.get(i), 1) - (if (i == 3) calm * S else if (i == 2) -high * S else 0))),
      mom' = [0, 0, 0, 0, 0],
      stats' = [ONE, ONE, ONE, ONE, ONE],
      n' = 0, cost' = 0, ensemble' = [],
      act' = { tag: "init", eps: 0, z: [], rows: [] },
      pred' = NONE, movedPred' = NONE, report' = { nll: 0, mse: 0 }, seen' = { x: [], y: [] }
    }
  }

  val count = length(cfg.data.x)
  val finished = n == cfg.iters or length(ensemble) == cfg.nets

  // displacement of every weight; the gradient scale is the size of the dataset
  def displacements(eps: int, used: List[Stat], p: Vec, grads: Vec, z: Vec): Vec =
    range(0, WEIGHTS).foldl([], (a, i) => a.append(
      if (cfg.method == "SGHMC") sghmc(eps, cfg.mdecay, count * S, used[i].m, p[i], grads[i], z[i])
      else sgld(eps, cfg.A, count * S, used[i].m, grads[i], z[i])))

  pure def smaller(a: int, b: int): int = if (a < b) a else b

  action iterate = {
    nondet eps = Set(1, 2, 5, 10).oneOf()
    nondet z = 0.to(4).setOfMaps((-25).to(25)).oneOf()
    nondet r0 = 0.to(99).oneOf()
    nondet r1 = 0.to(99).oneOf()
    nondet r2 = 0.to(99).oneOf()
    val d: Action = { tag: "step", eps: dec(eps, 3), z: range(0, WEIGHTS).foldl([], (a, i) => a.append(dec(z.get(i), 1))),
                      rows: [r0 % count, r1 % count, r2 % count].slice(0, smaller(cfg.batch, smaller(count, 3))) }
    val b = pick(scaled(scaleOf(cfg, cfg.data), cfg.data), d.rows)
    val grads = gradient(theta, b, cfg.batch, count)
    val adapted = range(0, WEIGHTS).foldl([], (a, i) => a.append(adapt(stats[i], grads[i])))
    val used = if (n < cfg.burnIn) adapted else stats
    // stepsizes that would throw the weights far away are replaced by smaller ones
    val e = [d.eps, d.eps / 10, d.eps / 100, d.eps / 1000, d.eps / 100000, 0].select(e =>
      e == 0 or displacements(e, used, mom, grads, d.z).foldl(true, (a, v) => a and fabs(v) <= S))[0]
    val moved = displacements(e, used, mom, grads, d.z)
    val after = range(0, WEIGHTS).foldl([], (a, i) => a.append(theta[i] + moved[i]))
    all {
      not(finished),
      cost' = objective(theta, b, cfg.batch, count),
      mom' = moved, theta' = after, stats' = used, n' = n + 1,
      // n is the 0-based index of this iteration
      ensemble' = if (n > cfg.burnIn and n % cfg.interval == 0) ensemble.append(after) else ensemble,
      act' = d.with("eps", e), cfg' = cfg, pred' = pred, movedPred' = movedPred, report' = report, seen' = seen
    }
  }

  action conclude = {
    val everything = scaled(scaleOf(cfg, cfg.data), cfg.data)
    val p = predict(ensemble, scaleOf(cfg, cfg.data), cfg.tests)
    all {
      finished, length(ensemble) > 0, act.tag != "predict",
      pred' = p, movedPred' = movePred(cfg, p),
      seen' = everything,
      report' = { nll: objective(theta, everything, cfg.batch, count), mse: meanSquaredError(theta, everything) },
      act' = { tag: "predict", eps: 0, z: [], rows: [] },
      cfg' = cfg, theta' = theta, mom' = mom, stats' = stats, n' = n, cost' = cost, ensemble' = ensemble
    }
  }
  action step = if (finished) conclude else iterate

  // ---- consequences ----------------------------------------------------
  pure def near(a: int, b: int): bool = fabs(a - b) <= (S + fabs(b)) / 10^15
  // standardised data is centred with unit variance (or zero variance, if it is constant)
  pure def standard(l: Vec): bool = near(meanOf(l), 0) and (near(stdOf(l), S))
  val standardised = {
    val d = scaled(scaleOf(cfg, cfg.data), cfg.data)
    and {
      cfg.normX implies and { standard(column(d.x, 0)), standard(column(d.x, 1)) },
      cfg.normY implies standard(d.y)
    }
  }
  // with tiny units digits get lost
  pure def roughly(a: int, b: int): bool = fabs(a - b) <= (S + fabs(b)) / 10^9
  // moving the data moves the predictions of the very same ensemble
  val equivariant = act.tag == "predict" implies {
    val d = moveData(cfg, cfg.data)
    val everything = scaled(scaleOf(cfg, cfg.data), cfg.data)
    val p = predict(ensemble, scaleOf(cfg, d), moveX(cfg, cfg.tests))
    pred.mean.indices().forall(i => roughly(p.mean[i], movedPred.mean[i]) and roughly(p.variance[i], movedPred.variance[i]))
  }
  // moved data is the same data once standardised
  val sameStandardised = {
    val d = moveData(cfg, cfg.data)
    val a = scaled(scaleOf(cfg, cfg.data), cfg.data)
    val b = scaled(scaleOf(cfg, d), d)
    a.y.indices().forall(i => roughly(a.y[i], b.y[i]) and roughly(a.x[i][0], b.x[i][0]) and roughly(a.x[i][1], b.x[i][1]))
  }
  // the ensemble's variance is what remains of the second moment, and never negative
  val variances = act.tag == "predict" implies pred.variance.indices().forall(i => pred.variance[i] >= 0)
  // the gradient is the derivative of the objective (central differences)
  val derivative = {
    val b = scaled(scaleOf(cfg, cfg.data), cfg.data)
    val g = gradient(theta, b, length(b.x), count)
    range(0, WEIGHTS).foldl(true, (ok, i) => ok and {
      val h = S / 10^7
      val d = objective(theta.replaceAt(i, theta[i] + h), b, length(b.x), count)
              - objective(theta.replaceAt(i, theta[i] - h), b, length(b.x), count)
      fabs(fdiv(d, 2 * h) - g[i]) <= (S + fabs(g[i])) / 10^7
    })
  }
  val inv = derivative and standardised and equivariant and sameStandardised and variances
}
