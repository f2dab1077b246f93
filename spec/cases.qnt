// Shared vocabulary of the generator machines: one state is one call of the
// implementation together with everything the specification says about its
// outcome.  `f`, `e` hold lists of reals (fixed point), `k`, `ek` plain integers.
module cases {
  import fx.* from "./fx"

  type Case = {
    op: str,                 // operation of the implementation
    k: str -> int,           // discrete arguments
    f: str -> List[int],     // real arguments
    e: str -> List[int],     // expected real results
    ek: str -> int           // expected discrete results
  }
  pure val NOCASE: Case = { op: "none", k: Map(), f: Map(), e: Map(), ek: Map() }

  // A vector of independent uniform choices drives every generator.
  pure val RMAX = 999999999
  pure val RV = 0.to(79).setOfMaps(0.to(RMAX))

  pure def pick(r: int -> int, i: int, n: int): int = r.get(i) % n
  pure def yes(r: int -> int, i: int, percent: int): bool = r.get(i) % 100 < percent
  pure def uni(r: int -> int, i: int, lo: int, hi: int): int = lo + (hi - lo) * r.get(i) / RMAX
  // mantissa in [1, 10), decimal exponent in [e0, e1)
  pure def logu(r: int -> int, i: int, e0: int, e1: int): int =
    dec(1000000 + 9 * ((r.get(i) / 1000) % 1000000), e0 - 6 + r.get(i) % (e1 - e0))

  // ------------------------------------------------------------- lists
  pure def suml(xs: List[int]): int = xs.foldl(0, (s, x) => s + x)
  pure def maxl(xs: List[int]): int = xs.foldl(xs[0], (m, x) => max2(m, x))
  pure def minl(xs: List[int]): int = xs.foldl(xs[0], (m, x) => min2(m, x))
  pure def last(xs: List[a]): a = xs[xs.length() - 1]
  pure def insertSorted(xs: List[int], x: int): List[int] = {
    val n = xs.foldl(0, (c, y) => if (y <= x) c + 1 else c)
    xs.slice(0, n).append(x).concat(xs.slice(n, xs.length()))
  }
  pure def sortl(xs: List[int]): List[int] = xs.foldl([], (l, x) => insertSorted(l, x))
  pure def replicate(n: int, x: int): List[int] = range(0, n).foldl([], (acc1, i) => acc1.append(x))

  // ------------------------------------------------- numerical operators
  // trapezoidal integral of samples ys over abscissae xs
  pure def trapz(ys: List[int], xs: List[int]): int =
    range(1, xs.length()).foldl(0, (s, i) => s + (ys[i] + ys[i - 1]) * (xs[i] - xs[i - 1]) / (2 * ONE))
  // linear interpolation inside an increasing table, `lo`/`hi` outside it
  pure def interp(x: int, xs: List[int], ys: List[int], lo: int, hi: int): int = {
    val n = xs.length()
    if (x < xs[0]) lo
    else if (x > xs[n - 1]) hi
    else if (n == 1) ys[0]
    else {
      val j = range(1, n).foldl(1, (b, i) => if (i < n - 1 and x > xs[i]) i + 1 else b)
      ys[j - 1] + (ys[j] - ys[j - 1]) * (x - xs[j - 1]) / (xs[j] - xs[j - 1])
    }
  }
  // increasing table of n abscissae from lo to hi with random gaps
  pure def knots(r: int -> int, i: int, n: int, lo: int, hi: int): List[int] = {
    val gaps = range(0, n - 1).foldl([], (acc2, j) => acc2.append(200 + (r.get(i) / (j + 3)) % 1000 + r.get(i + 1 + j % 3) % 700))
    val total = suml(gaps)
    range(0, n - 1).foldl(([lo], 0), (acc, j) => {
      val s = acc._2 + gaps[j]
      (acc._1.append(if (j == n - 2) hi else lo + (hi - lo) * s / total), s)
    })._1
  }
  // n uniform values in [lo, hi] derived from choices i, i+1, i+2; now and then
  // of three levels only, so that values recur and reach hi
  pure def values(r: int -> int, i: int, n: int, lo: int, hi: int): List[int] =
    if (r.get(i + 2) / 10000 % 100 < 8) range(0, n).foldl([], (acc3a, j) => acc3a.append(lo + (hi - lo) * (1 + mix(r, i, j) % 3) / 3))
    // or whole numbers, where the interval has some
    else if (r.get(i + 2) / 10000 % 100 < 13 and hi >= ONE and floorR(hi) * ONE >= lo)
      range(0, n).foldl([], (acc3b, j) => acc3b.append(min2(floorR(lo + (hi - lo) * mix(r, i, j) / 1000003) + 1, floorR(hi)) * ONE))
    else range(0, n).foldl([], (acc3, j) => acc3.append(lo + (hi - lo) * mix(r, i, j) / 1000003))
  pure def mix(r: int -> int, i: int, j: int): int = {
    val a = (r.get(i) + 7919 * (j + 1)) % 1000003
    val b = (r.get(i + 1) + 104729 * (j + 1)) % 1000003
    (a * a * 17 + b * (j + 5) * 31 + a * b + r.get(i + 2) / (j + 1)) % 1000003
  }
  // linear-interpolation percentile (p in percent) of a list
  pure def percentile(xs: List[int], p: int): int = {
    val s = sortl(xs)
    val pos = p * (s.length() - 1) / 100
    val j = min2(floorR(pos), s.length() - 2)
    if (s.length() == 1) s[0] else s[j] + mul(s[j + 1] - s[j], pos - real(j))
  }

  // the same of values in increasing order, each occurring a number of times
  pure def timesAt(vs: List[int], counts: List[int], k: int): int =
    range(0, vs.length()).foldl((0, vs[0], false), (acc81, i) => if (acc81._3) acc81 else (acc81._1 + counts[i], vs[i], k < acc81._1 + counts[i]))._2
  pure def percentileOf(vs: List[int], counts: List[int], p: int): int = {
    val n = suml(counts)
    val pos = p * (n - 1) / 100
    val j = min2(floorR(pos), n - 2)
    if (n == 1) vs[0] else { val a = timesAt(vs, counts, j) a + mul(timesAt(vs, counts, j + 1) - a, pos - real(j)) }
  }

  // right-biased union of two maps
  pure def merge(a: str -> b, c: str -> b): str -> b =
    a.keys().union(c.keys()).mapBy(k => if (c.keys().contains(k)) c.get(k) else a.get(k))

  run percentileTest = all {
    assert(percentileOf([10, 20], [2, 3], real(50)) == percentile([10, 10, 20, 20, 20], real(50))),
    assert(percentileOf([10, 20], [2, 3], real(30)) == percentile([10, 20, 20, 10, 20], real(30))),
    assert(percentileOf([real(10), real(20), real(50)], [2, 3, 4], real(61)) == percentile([real(10), real(10), real(20), real(20), real(20), real(50), real(50), real(50), real(50)], real(61))) }
  run listTest = all {
    assert(sortl([3, 1, 2]) == [1, 2, 3]), assert(maxl([3, 9, 2]) == 9), assert(minl([3, 9, 2]) == 2),
    assert(trapz([real(1), real(3)], [0, real(2)]) == real(4)),
    assert(interp(real(1), [0, real(2)], [0, real(8)], 5, 6) == real(4)),
    assert(interp(real(2), [0, real(2)], [0, real(8)], 5, 6) == real(8)),
    assert(interp(real(3), [0, real(2)], [0, real(8)], 5, 6) == 6),
    assert(interp(-real(3), [0, real(2)], [0, real(8)], 5, 6) == 5),
    assert(percentile([real(4), real(1), real(3), real(2)], real(50)) == dec(25, -1)) }
}
