// The dynamics of the three Langevin-type samplers on a coupled quadratic target
//   cost(t) = a/2 * sum t_i^2 + k/2 * (sum t_i)^2 + sum w_i t_i + b + x * (1 + sum t_i)
// whose coefficients w, b come from the step's minibatch and x from a feed of the caller.
// Every element of the target follows its own scalar recurrence; how elements are
// grouped into parameters (`layout`) is not part of the dynamics at all.
module langevin {
  import fx.* from "./fx"
  import rules.* from "./rules"

  const KINDS: Set[str]
  const MAX_BURN: int
  const SIZE: int                             // number of elements of the target
  pure val PLAIN = 2

  type Config = {
    kind: str, burnIn: int, a: int, k: int, layout: int,
    loud: int,                                // factor of the linear coefficients
    mdecay: int, scale: int,                  // SGHMC (scale also SGLD)
    A: int,                                   // SGLD
    D: int, B: int, mass: int, c: int,        // relativistic
    kinetic: List[int]                        // kinetic energies at the momenta in PROBES
  }
  type Action = {
    tag: str, eps: int, z: List[int], w: List[int], b: int, x: int, dest: List[int]
  }
  var cfg: Config
  var theta: List[int]
  var mom: List[int]
  var stats: List[Stat]
  var n: int
  var cost: int
  var act: Action

  // the numbers m[0]/10, m[1]/10, ...
  def tenths(m: int -> int): List[int] = range(0, SIZE).foldl([], (l, i) => l.append(dec(m.get(i), 1)))
  pure def ints(s: Set[int], k: int): Set[int] = s.map(x => dec(x, k))

  pure def costAt(c: Config, t: List[int], d: Action): int =
    fmul(c.a, total(t.foldl([], (l, x) => l.append(fmul(x, x))))) / 2
    + fmul(c.k, fmul(total(t), total(t))) / 2
    + total(indices(t).fold([], (l, i) => l.append(fmul(d.w[i], t[i]))))
    + d.b + fmul(d.x, S + total(t))

  pure def gradAt(c: Config, t: List[int], d: Action, i: int): int =
    fmul(c.a, t[i]) + fmul(c.k, total(t)) + d.w[i] + d.x

  pure val PROBES: List[int] = [dec(0, 1), dec(5, 1), dec(-12, 1), dec(30, 1), dec(-95, 1)]

  pure def vel(c: Config, eps: int, p: int): int = velocity(eps, c.mass, c.c, p)

  // new momentum of one element; SGLD has no memory: its "momentum" is the displacement of this step
  pure def push(c: Config, d: Action, m: int, p: int, grad: int, z: int): int =
    if (c.kind == "SGHMC") sghmc(d.eps, c.mdecay, c.scale, m, p, grad, z)
    else if (c.kind == "SGLD") sgld(d.eps, c.A, c.scale, m, grad, z)
    else relativistic(d.eps, c.D, c.B, c.mass, c.c, p, grad, z)
  pure def move(c: Config, d: Action, p: int): int =
    if (c.kind == "REL") vel(c, d.eps, p) else p

  action init = {
    nondet kind = KINDS.oneOf()
    nondet burnIn = 1.to(MAX_BURN).oneOf()
    nondet anyA = ints(Set(0, 3, 10, 25), 1).oneOf()
    nondet anyK = ints(Set(0, 2, -1), 1).oneOf()
    // steep and entirely flat targets are rarer
    nondet loudness = 0.to(7).oneOf()
    val a = if (loudness == 0) 0 else anyA
    val k = if (loudness == 0) 0 else anyK
    nondet layout = 0.to(99).oneOf()
    val loud = if (loudness == 0) 0 else if (loudness == 1) 10000 else if (loudness == 2) 300 else 1
    nondet mdecay = ints(Set(0, 1, 5, 20, 50), 2).oneOf()
    nondet scale = ints(Set(1, 2, 7, 50), 0).oneOf()
    nondet A = ints(Set(5, 10, 30), 1).oneOf()
    nondet D = ints(Set(0, 5, 10, 20), 1).oneOf()
    nondet anyB = ints(Set(0, 4), 1).oneOf()
    val B = if (D == 0) 0 else anyB
    nondet mass = ints(Set(5, 10, 20), 1).oneOf()
    nondet c = ints(Set(6, 10, 25), 1).oneOf()
    nondet begin = 0.to(SIZE - 1).setOfMaps((-20).to(20)).oneOf()
    nondet momenta = 0.to(SIZE - 1).setOfMaps((-30).to(30)).oneOf()
    all {
      cfg' = { kind: kind, burnIn: burnIn, a: a, k: k, layout: layout, loud: loud, mdecay: mdecay, scale: scale,
               A: A, D: D, B: B, mass: mass, c: c,
               kinetic: PROBES.foldl([], (l, p) => l.append(kinetic(mass, c, p))) },
      theta' = tenths(begin),
      mom' = if (kind == "REL") tenths(momenta) else tenths(momenta.keys().mapBy(_ => 0)),
      stats' = range(0, SIZE).foldl([], (l, _) => l.append(ONE)),
      n' = 0,
      cost' = 0,
      act' = { tag: "init", eps: 0, z: [], w: [], b: 0, x: 0, dest: [] }
    }
  }

  // one step of the sampler with the given stepsize, noise, minibatch and feed
  action stepWith(d) = {
    val burning = n < cfg.burnIn
    val grads = range(0, length(theta)).foldl([], (l, i) => l.append(gradAt(cfg, theta, d, i)))
    val adapted = range(0, length(theta)).foldl([], (l, i) => l.append(adapt(stats[i], grads[i])))
    val used = if (burning) adapted else stats
    val pushed = range(0, length(theta)).foldl([], (l, i) =>
      l.append(push(cfg, d, used[i].m, mom[i], grads[i], d.z[i])))
    all {
      cost' = costAt(cfg, theta, d),
      mom' = pushed,
      theta' = range(0, length(theta)).foldl([], (l, i) => l.append(theta[i] + move(cfg, d, pushed[i]))),
      stats' = used,
      n' = n + 1,
      act' = d,
      cfg' = cfg
    }
  }

  // also tiny and large stepsizes, and ones that are no short decimals
  pure val STEPSIZES = ints(Set(0, 1, 2, 5, 10, 25, 40), 2).union(
    Set(dec(1234567890123, 14), dec(87654321, 12), dec(1333333333333333, 15)))

  action doStep = {
    // the first two steps are plain ones: varying stepsizes, feeds and assignments come later
    nondet anyEps = STEPSIZES.oneOf()
    val eps = if (n < PLAIN) dec(25, 2) else anyEps
    nondet z = 0.to(SIZE - 1).setOfMaps((-25).to(25)).oneOf()
    nondet w = 0.to(SIZE - 1).setOfMaps((-30).to(30)).oneOf()
    nondet b = (-30).to(30).oneOf()
    nondet feeds = 0.to(9).oneOf()
    val x = if (n < PLAIN or feeds > 1) 0 else if (feeds == 0) 7 else -13
    stepWith({ tag: "step", eps: eps, z: tenths(z), w: tenths(w).foldl([], (l, c) => l.append(c * cfg.loud)),
               b: dec(b, 1), x: dec(x, 1), dest: [] })
  }

  // somebody assigns the target parameters between two steps
  action doAssign = {
    nondet goal = 0.to(SIZE - 1).setOfMaps((-20).to(20)).oneOf()
    val dest = tenths(goal)
    all {
      theta' = dest,
      act' = { tag: "assign", eps: 0, z: [], w: [], b: 0, x: 0, dest: dest },
      cfg' = cfg, mom' = mom, stats' = stats, n' = n, cost' = cost
    }
  }

  action step = {
    nondet which = 1.to(6).oneOf()
    if (which == 1 and n >= PLAIN) doAssign else doStep
  }

  // ---- consequences -------------------------------------------------------
  // without noise a relativistic step is bounded by e*c in every element
  val speedLimit = cfg.kind == "REL" and act.tag == "step" implies
    mom.indices().forall(i => fabs(vel(cfg, act.eps, mom[i])) <= fmul(act.eps, cfg.c) + 10)
  // after burn-in the preconditioner is a constant of the run (stats are frozen as a whole)
  val positive = stats.indices().forall(i => stats[i].m > 0 and stats[i].vhat >= 0)
  val inv = speedLimit and positive
}

module onlySGHMC { import langevin(KINDS = Set("SGHMC"), MAX_BURN = 6, SIZE = 4).* }
module onlySGLD { import langevin(KINDS = Set("SGLD"), MAX_BURN = 6, SIZE = 4).* }
module onlyREL { import langevin(KINDS = Set("REL"), MAX_BURN = 6, SIZE = 4).* }
module all3 { import langevin(KINDS = Set("SGHMC", "SGLD", "REL"), MAX_BURN = 6, SIZE = 4).* }
// many elements; long runs
module wideSGHMC { import langevin(KINDS = Set("SGHMC"), MAX_BURN = 6, SIZE = 24).* }
module longSGHMC { import langevin(KINDS = Set("SGHMC"), MAX_BURN = 90, SIZE = 2).* }
module wideSGLD { import langevin(KINDS = Set("SGLD"), MAX_BURN = 6, SIZE = 24).* }
module longSGLD { import langevin(KINDS = Set("SGLD"), MAX_BURN = 90, SIZE = 2).* }
module wideREL { import langevin(KINDS = Set("REL"), MAX_BURN = 6, SIZE = 24).* }
module longREL { import langevin(KINDS = Set("REL"), MAX_BURN = 90, SIZE = 2).* }
module wideAll3 { import langevin(KINDS = Set("SGHMC", "SGLD", "REL"), MAX_BURN = 6, SIZE = 24).* }
