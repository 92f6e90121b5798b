// Exact fixed-point arithmetic on unbounded integers: x is represented by x * S.
module fx {
  pure val S: int = 10^24

  pure def fabs(x: int): int = if (x < 0) -x else x
  pure def fsign(x: int): int = if (x < 0) -1 else if (x > 0) 1 else 0
  pure def fmax(x: int, y: int): int = if (x < y) y else x
  // division that rounds towards zero whatever the signs are
  pure def qdiv(x: int, y: int): int = fsign(x) * fsign(y) * (fabs(x) / fabs(y))
  pure def fmul(x: int, y: int): int = qdiv(x * y, S)
  pure def fdiv(x: int, y: int): int = qdiv(x * S, y)
  // x / 10^k
  pure def dec(x: int, k: int): int = qdiv(x * S, 10^k)

  // integer square root (Newton), for arguments up to about 10^90
  pure def isqrt(x: int): int =
    if (x <= 0) 0
    else {
      // from above, at most five digits too large
      pure val start = if (x < 10^20) 10^10 else if (x < 10^30) 10^15 else if (x < 10^40) 10^20 else if (x < 10^50) 10^25
                       else if (x < 10^60) 10^30 else if (x < 10^70) 10^35 else if (x < 10^80) 10^40 else 10^45
      pure val r = range(0, if (x < 10^20) 50 else 32).foldl(start, (y, _) => {
        pure val z = (y + x / y) / 2
        if (z < y and z > 0) z else y
      })
      r
    }
  pure def fsqrt(x: int): int = isqrt(x * S)

  // exp(x): (Taylor of x/256)^256; below -60 that is 0
  pure def fexp(x: int): int = if (x < -60 * S) 0 else {
    pure val y = qdiv(x, 256)
    pure val t = range(1, 18).foldl({ term: S, sum: S }, (acc, k) => {
      pure val term = qdiv(fmul(acc.term, y), k)
      { term: term, sum: acc.sum + term }
    })
    range(0, 8).foldl(t.sum, (acc, _) => fmul(acc, acc))
  }

  // sums and sorting of lists
  pure def total(l: List[int]): int = l.foldl(0, (a, x) => a + x)
  pure def sorted(l: List[int]): List[int] =
    l.foldl([], (acc, x) => acc.select(y => y <= x).concat([x]).concat(acc.select(y => y > x)))
  pure def medianOf(l: List[int]): int = {
    pure val s = sorted(l)
    pure val n = length(l)
    if (n % 2 == 1) s[n / 2] else (s[n / 2 - 1] + s[n / 2]) / 2
  }

  // small constant guard of a division: y + 2*sign(y)*1e-16 + 1e-16
  pure val GUARD: int = S / 10^16
  pure def guarded(x: int, y: int): int = fdiv(x, y + 2 * fsign(y) * GUARD + GUARD)
}
