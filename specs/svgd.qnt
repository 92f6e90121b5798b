// Stein variational gradient descent on the target  cost(t) = a/2 |t|^2 + w.t + b + x (1 + sum t),
// evaluated for every particle; w, b come from the step's minibatch, x from a feed of the caller.
module svgd {
  import fx.* from "./fx"

  const FEW: Set[int]                         // usual numbers of particles
  const CROWDS: Set[int]                      // rarer ones, at most 23
  const DIM: int                              // largest dimension

  type Vec = List[int]
  type Config = { n: int, d: int, a: int, loud: int, alpha: int, fudge: int }
  type Action = { tag: str, eps: int, w: Vec, b: int, x: int, dest: List[Vec] }

  var cfg: Config
  var theta: List[Vec]
  var hist: List[Vec]
  var cost: List[int]
  // the averaged Stein direction of the last step (negated), kept for the invariants
  var phi: List[Vec]
  var n: int
  var act: Action

  pure val PLAIN = 2

  // ln(k) for k = 3 .. 25
  pure val LN = [1098612288668109691395245, 1386294361119890618834464, 1609437912434100374600759, 1791759469228055000812477, 1945910149055313305105352, 2079441541679835928251696, 2197224577336219382790490, 2302585092994045684017991, 2397895272798370544061943, 2484906649788000310229709, 2564949357461536736053487, 2639057329615258614522584, 2708050201102210065996004, 2772588722239781237668928, 2833213344056216080249534, 2890371757896164692207722, 2944438979166440460009027, 2995732273553990993435223, 3044522437723422996500597, 3091042453358315853479175, 3135494215929149690806752, 3178053830347945619646941, 3218875824868200749201518]
  pure def ln(k: int): int = LN[k - 3]

  pure def sqdist(p: Vec, q: Vec): int =
    range(0, length(p)).foldl(0, (s, i) => s + fmul(p[i] - q[i], p[i] - q[i]))

  pure def costAt(c: Config, t: Vec, d: Action): int =
    fmul(c.a, range(0, length(t)).foldl(0, (s, i) => s + fmul(t[i], t[i]))) / 2
    + range(0, length(t)).foldl(0, (s, i) => s + fmul(d.w[i], t[i]))
    + d.b + fmul(d.x, S + total(t))

  pure def gradAt(c: Config, t: Vec, d: Action): Vec =
    range(0, length(t)).foldl([], (l, i) => l.append(fmul(c.a, t[i]) + d.w[i] + d.x))

  // squared bandwidth: half the median of all n*n squared distances over ln(n + 1)
  pure def bandwidth(ps: List[Vec]): int =
    fdiv(medianOf(range(0, length(ps)).foldl([], (l, i) =>
           range(0, length(ps)).foldl(l, (m, j) => m.append(sqdist(ps[i], ps[j]))))) / 2,
         ln(length(ps) + 1))

  pure def kernel(ps: List[Vec], h2: int): List[Vec] =
    range(0, length(ps)).foldl([], (l, i) => l.append(
      range(0, length(ps)).foldl([], (m, j) => m.append(fexp(-(fdiv(sqdist(ps[i], ps[j]), 2 * h2)))))))

  // descent direction of particle i: kernel-weighted cost gradients minus the repulsive term
  // (the gradient of the kernel with respect to the other particle, which points away from it)
  pure def direction(ps: List[Vec], gs: List[Vec], ks: List[Vec], h2: int, i: int): Vec =
    range(0, length(ps[i])).foldl([], (l, e) => l.append(
      range(0, length(ps)).foldl(0, (s, j) =>
        s + fmul(ks[i][j], gs[j][e]) - fdiv(fmul(ks[i][j], ps[i][e] - ps[j][e]), h2)) / length(ps)))

  action init = {
    nondet few = FEW.oneOf()
    nondet crowd = CROWDS.oneOf()
    nondet crowded = 0.to(6).oneOf()
    val count = if (crowded == 0) crowd else few
    nondet dim = 1.to(DIM).oneOf()
    nondet a = Set(0, 3, 10, 25).oneOf()
    nondet alpha = Set(0, 50, 90, 99).oneOf()
    // steep targets are rarer; without memory (alpha = 0) a small gradient after a steep one would need digits
    // that an equivalent form of the average, h + (1 - alpha) * (g^2 - h), does not have
    nondet loudness = 0.to(4).oneOf()
    val loud = if (alpha == 0) 1 else if (loudness == 0) 10000 else if (loudness == 1) 300 else 1
    nondet fudge = Set(1, 1000, 100000).oneOf()
    nondet m0 = 0.to(DIM - 1).setOfMaps((-20).to(20)).oneOf()
    nondet m1 = 0.to(DIM - 1).setOfMaps((-20).to(20)).oneOf()
    nondet m2 = 0.to(DIM - 1).setOfMaps((-20).to(20)).oneOf()
    nondet m3 = 0.to(DIM - 1).setOfMaps((-20).to(20)).oneOf()
    val start = vecs([m0, m1, m2, m3], count, dim)
    all {
      cfg' = { n: count, d: dim, a: dec(a, 1), loud: loud, alpha: dec(alpha, 2), fudge: dec(fudge, 6) },
      theta' = start,
      hist' = zeros(count, dim),
      phi' = zeros(count, dim),
      cost' = [],
      n' = 0,
      act' = { tag: "init", eps: 0, w: [], b: 0, x: 0, dest: [] }
    }
  }
  pure def zeros(count: int, dim: int): List[Vec] =
    range(0, count).foldl([], (l, i) => l.append(range(0, dim).foldl([], (m, e) => m.append(0))))
  // particles keep a distance from each other: the k-th one is shifted by k/3 in every coordinate
  pure def vecs(ms: List[int -> int], count: int, dim: int): List[Vec] =
    range(0, count).foldl([], (l, i) => l.append(
      range(0, dim).foldl([], (m, e) => m.append(dec(ms[i % 4].get(e), 1) + i * S / 37))))

  action stepWith(d) = {
    val gs = range(0, cfg.n).foldl([], (l, i) => l.append(gradAt(cfg, theta[i], d)))
    val h2 = bandwidth(theta)
    val ks = kernel(theta, h2)
    val dirs = range(0, cfg.n).foldl([], (l, i) => l.append(direction(theta, gs, ks, h2, i)))
    val hs = range(0, cfg.n).foldl([], (l, i) => l.append(range(0, cfg.d).foldl([], (m, e) =>
      m.append(fmul(cfg.alpha, hist[i][e]) + fmul(S - cfg.alpha, fmul(dirs[i][e], dirs[i][e]))))))
    all {
      h2 > 0,
      cost' = range(0, cfg.n).foldl([], (l, i) => l.append(costAt(cfg, theta[i], d))),
      hist' = hs,
      phi' = dirs,
      theta' = range(0, cfg.n).foldl([], (l, i) => l.append(range(0, cfg.d).foldl([], (m, e) =>
        m.append(theta[i][e] - fmul(d.eps, fdiv(dirs[i][e], cfg.fudge + fsqrt(hs[i][e]))))))),
      n' = n + 1,
      act' = d,
      cfg' = cfg
    }
  }

  action doStep = {
    // also tiny and large stepsizes, and ones that are no short decimals
    nondet anyEps = Set(0, 1, 2, 5, 10, 25, 40).map(e => dec(e, 2)).union(
      Set(dec(1234567890123, 14), dec(87654321, 12), dec(1333333333333333, 15))).oneOf()
    val eps = if (n < PLAIN) dec(25, 2) else anyEps
    nondet w = 0.to(DIM - 1).setOfMaps((-30).to(30)).oneOf()
    nondet quiet = 0.to(3).oneOf()
    nondet b = (-30).to(30).oneOf()
    nondet feeds = 0.to(9).oneOf()
    val x = if (n < PLAIN or feeds > 1) 0 else if (feeds == 0) 7 else -13
    stepWith({ tag: "step", eps: eps, w: range(0, cfg.d).foldl([], (l, e) => l.append(if (quiet == 0) 0 else dec(w.get(e), 1) * cfg.loud)),
               b: dec(b, 1), x: dec(x, 1), dest: [] })
  }

  action doAssign = {
    nondet m0 = 0.to(DIM - 1).setOfMaps((-20).to(20)).oneOf()
    nondet m1 = 0.to(DIM - 1).setOfMaps((-20).to(20)).oneOf()
    nondet m2 = 0.to(DIM - 1).setOfMaps((-20).to(20)).oneOf()
    nondet m3 = 0.to(DIM - 1).setOfMaps((-20).to(20)).oneOf()
    val dest = vecs([m0, m1, m2, m3], cfg.n, cfg.d)
    all {
      theta' = dest,
      act' = { tag: "assign", eps: 0, w: [], b: 0, x: 0, dest: dest },
      cfg' = cfg, hist' = hist, phi' = phi, n' = n, cost' = cost
    }
  }

  action step = {
    nondet which = 1.to(6).oneOf()
    if (which == 1 and n >= PLAIN) doAssign else doStep
  }

  // ---- consequences -------------------------------------------------------
  // repulsive terms cancel in the sum over all particles: on a flat cost the particles' mean
  // direction is zero (up to rounding of the arithmetic)
  val flat = cfg.a == 0 and act.tag == "step" and act.x == 0 and act.w.indices().forall(i => act.w[i] == 0)
  val balanced = flat implies range(0, cfg.d).foldl(true, (ok, e) =>
    ok and fabs(range(0, cfg.n).foldl(0, (s, i) => s + phi[i][e])) < S / 10^12)
  val inv = balanced
}

module swarm { import svgd(FEW = 2.to(4), CROWDS = 5.to(10), DIM = 3).* }
module bigswarm { import svgd(FEW = Set(11, 14, 17), CROWDS = Set(20, 23), DIM = 12).* }
module longswarm { import svgd(FEW = 2.to(3), CROWDS = Set(4, 5), DIM = 2).* }
