// The law of a chain on a quadratic target: mean, variance and covariance of successive states of one element, for
// independent standard normal noise.  All three samplers are linear then:
//   p' = alpha p + beta theta + gamma + sigma z,   theta' = theta + kappa p'.
// During burn-in the preconditioner depends on the gradients; it is the same for all elements if those are constant
// (a = 0), and one if burn-in is a single step.  Relativistic samplers are linear if the speed of light is large.
module moments {
  import fx.* from "./fx"
  import rules.* from "./rules"

  // curvatures and slopes of the targets, in tenths
  const CURVATURES: Set[int]
  const SLOPES: Set[int]

  type Config = { kind: str, burnIn: int, a: int, w: int, mdecay: int, scale: int, A: int, D: int, B: int, mass: int }
  // mean, variance and covariance of state and momentum
  type Law = { mt: int, mp: int, vt: int, vp: int, c: int }

  var cfg: Config
  var law: Law
  var stat: Stat
  // covariance of this state with the one before
  var lag: int
  var eps: int
  var n: int

  pure def variance(s2: int): int = fmax(s2, 0)
  // coefficients of a step
  pure def coefficients(k: Config, e: int, m: int): { alpha: int, beta: int, gamma: int, s2: int, kappa: int } =
    if (k.kind == "SGHMC") {
      pure val e2 = fmul(e, e)
      pure val es2 = fdiv(e2, k.scale)
      { alpha: S - k.mdecay, beta: -fmul(fmul(e2, m), k.a), gamma: -fmul(fmul(e2, m), k.w),
        s2: fmax(2 * fmul(fmul(es2, k.mdecay), m) - fmul(es2, es2), GUARD), kappa: S }
    } else if (k.kind == "SGLD") {
      pure val drift = fmul(fmul(e, m), k.A)
      { alpha: 0, beta: -fmul(drift, k.a), gamma: -fmul(drift, k.w), s2: 2 * fmul(e, guarded(fmul(m, k.A), k.scale)), kappa: S }
    } else {
      { alpha: S - fdiv(fmul(k.D, e), k.mass), beta: -fmul(e, k.a), gamma: -fmul(e, k.w),
        s2: fmul(e, 2 * k.D - fmul(e, k.B)), kappa: fdiv(e, k.mass) }
    }

  action init = {
    nondet kind = Set("SGHMC", "SGLD", "REL").oneOf()
    nondet long = 2.to(9).oneOf()
    nondet curved = CURVATURES.oneOf()
    nondet w = SLOPES.oneOf()
    nondet mdecay = Set(5, 20, 50, 90).oneOf()
    nondet scale = Set(1, 2, 5).oneOf()
    nondet A = Set(5, 10, 20).oneOf()
    nondet D = Set(5, 10, 20).oneOf()
    nondet B = Set(0, 4).oneOf()
    nondet mass = Set(5, 10, 20).oneOf()
    nondet start = (-20).to(20).oneOf()
    val a = dec(curved, 1)
    all {
      cfg' = { kind: kind, burnIn: if (curved == 0) long else 1, a: a, w: dec(w, 1), mdecay: dec(mdecay, 2), scale: scale * S,
               A: dec(A, 1), D: dec(D, 1), B: dec(B, 1), mass: dec(mass, 1) },
      // relativistic momenta start at their equilibrium, the others at zero
      law' = { mt: dec(start, 1), mp: 0, vt: 0, vp: if (kind == "REL") dec(mass, 1) else 0, c: 0 },
      stat' = ONE, lag' = 0, eps' = 0, n' = 0
    }
  }

  action step = {
    nondet e = Set(5, 10, 20, 30).oneOf()
    val used = if (n < cfg.burnIn) adapt(stat, fmul(cfg.a, law.mt) + cfg.w) else stat
    val q = coefficients(cfg, dec(e, 2), if (cfg.a == 0) used.m else S)
    // covariance of the old state with the new momentum
    val old = fmul(q.alpha, law.c) + fmul(q.beta, law.vt)
    val mp = fmul(q.alpha, law.mp) + fmul(q.beta, law.mt) + q.gamma
    val vp = fmul(fmul(q.alpha, q.alpha), law.vp) + fmul(fmul(q.beta, q.beta), law.vt) + 2 * fmul(fmul(q.alpha, q.beta), law.c) + q.s2
    all {
      law' = { mt: law.mt + fmul(q.kappa, mp), mp: mp,
               vt: law.vt + fmul(fmul(q.kappa, q.kappa), vp) + 2 * fmul(q.kappa, old), vp: vp, c: old + fmul(q.kappa, vp) },
      lag' = law.vt + fmul(q.kappa, old),
      stat' = used, eps' = dec(e, 2), n' = n + 1, cfg' = cfg
    }
  }

  // variances are not negative, covariances are bounded by them
  val possible = law.vt >= 0 and law.vp >= 0 and fmul(law.c, law.c) <= fmul(law.vt, law.vp) + 1000
  val inv = possible
}

module quadratic { import moments(CURVATURES = Set(0, 5, 10, 20), SLOPES = Set(-15, -4, 0, 3, 12)).* }
module flat { import moments(CURVATURES = Set(0), SLOPES = Set(0)).* }
