// The update rules of the Langevin-type samplers for a single element of the target.
module rules {
  import fx.* from "./fx"

  // burn-in statistics of one element (Springenberg et al.)
  type Stat = { tau: int, g: int, vhat: int, m: int }
  pure val ONE: Stat = { tau: S, g: S, vhat: S, m: S }

  // statistics after a step; all are updated from their old values
  pure def adapt(s: Stat, grad: int): Stat = {
    pure val r = fdiv(S, s.tau + S)
    {
      tau: s.tau + guarded(-(fmul(fmul(s.g, s.g), s.tau)), s.vhat) + S,
      m: guarded(S, fsqrt(fmax(s.vhat, 0))),
      g: s.g - fmul(r, s.g) + fmul(r, grad),
      vhat: s.vhat - fmul(r, s.vhat) + fmul(r, fmul(grad, grad))
    }
  }

  // SGHMC: new momentum, which is also the displacement
  pure def sghmc(eps: int, mdecay: int, scale: int, m: int, p: int, grad: int, z: int): int = {
    pure val e2 = fmul(eps, eps)
    pure val es2 = fdiv(e2, scale)
    pure val variance = 2 * fmul(fmul(es2, mdecay), m) - fmul(es2, es2)
    p - fmul(fmul(e2, m), grad) - fmul(mdecay, p) + fmul(fsqrt(fmax(variance, GUARD)), z)
  }

  // SGLD: displacement
  pure def sgld(eps: int, A: int, scale: int, m: int, grad: int, z: int): int =
    fmul(fsqrt(fmax(2 * fmul(eps, guarded(fmul(m, A), scale)), 0)), z) - fmul(fmul(fmul(eps, m), A), grad)

  // relativistic velocity times stepsize, and new momentum
  pure def velocity(eps: int, mass: int, c: int, p: int): int = {
    pure val q = fdiv(p, fmul(mass, c))
    fdiv(fmul(eps, p), fmul(mass, fsqrt(fmul(q, q) + S)))
  }
  pure def relativistic(eps: int, D: int, B: int, mass: int, c: int, p: int, grad: int, z: int): int =
    p - fmul(eps, grad) + fmul(fsqrt(fmul(eps, 2 * D - fmul(eps, B))), z) - fmul(D, velocity(eps, mass, c, p))

  // relativistic kinetic energy; initial momenta have density proportional to exp(-K)
  pure def kinetic(mass: int, c: int, p: int): int = {
    pure val q = fdiv(p, fmul(mass, c))
    fmul(fmul(mass, fmul(c, c)), fsqrt(fmul(q, q) + S))
  }
}
