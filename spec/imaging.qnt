// Blur kernels and their application (pybsm.otf otf_to_psf, apply_otf_to_image,
// resample_2D).  Transfer functions and images are sums of separable terms
// y (x) x, so that transforms, resampling and correlation act per axis.
module imaging {
  import fx.* from "./fx"
  import cases.* from "./cases"

  type Term = { y: List[int], x: List[int] }

  pure def dense(ts: List[Term]): List[int] = {
    val rows = ts[0].y.length()
    val cols = ts[0].x.length()
    range(0, rows * cols).foldl([], (acc2, i) => acc2.append(range(0, ts.length()).foldl(0, (acc1, t) => acc1 + (mul(ts[t].y[i / cols], ts[t].x[i % cols])))))
  }
  pure def total(ts: List[Term]): int = range(0, ts.length()).foldl(0, (acc3, t) => acc3 + (mul(suml(ts[t].y), suml(ts[t].x))))
  pure def scaleBy(ts: List[Term], s: int): List[Term] =
    ts.foldl([], (acc5, t) => acc5.append({ y: t.y.foldl([], (acc4, q) => acc4.append(mul(q, s))), x: t.x }))

  // inverse transform of n samples, zero frequency at index n/2; the result has
  // position zero at index n/2; first component real, second imaginary
  pure def twiddle(n: int): (List[int], List[int]) =
    (range(0, n).foldl([], (acc6, k) => acc6.append(cosPi(real(2 * k) / n))), range(0, n).foldl([], (acc7, k) => acc7.append(sinPi(real(2 * k) / n))))
  pure def inverse(a: List[int], tw: (List[int], List[int])): (List[int], List[int]) = {
    val n = a.length()
    val c = n / 2
    (range(0, n).foldl([], (acc9, p) => acc9.append(range(0, n).foldl(0, (acc8, k) => acc8 + (mul(a[k], tw._1[pmod((k - c) * (p - c), n)]))) / n)),
     range(0, n).foldl([], (acc11, p) => acc11.append(range(0, n).foldl(0, (acc10, k) => acc10 + (mul(a[k], tw._2[pmod((k - c) * (p - c), n)]))) / n)))
  }
  // real part of the inverse transform of a real transfer function
  pure def transform(ts: List[Term]): List[Term] = {
    val twY = twiddle(ts[0].y.length())
    val twX = twiddle(ts[0].x.length())
    ts.foldl([], (l, t) => {
      val fy = inverse(t.y, twY)
      val fx_ = inverse(t.x, twX)
      l.append({ y: fy._1, x: fx_._1 }).append({ y: fy._2.foldl([], (acc12, q) => acc12.append(-q)), x: fx_._2 }) })
  }
  // linear resampling between pixel centres of m samples over the same extent
  pure def resize(a: List[int], m: int): List[int] = {
    val n = a.length()
    range(0, m).foldl([], (acc13, i) => acc13.append({
      val s = (2 * i + 1) * n * ONE / (2 * m) - HALF
      val j = floorR(s)
      if (j < 0) a[0] else if (j >= n - 1) a[n - 1] else a[j] + mul(a[j + 1] - a[j], s - j * ONE) }))
  }
  pure def resizeBoth(ts: List[Term], my: int, mx: int): List[Term] =
    ts.foldl([], (acc14, t) => acc14.append({ y: resize(t.y, my), x: resize(t.x, mx) }))
  // the middle of at least k samples, centred
  pure def cropLo(d: int, k: int): int = max2(0, fdivi(d - k, 2))
  pure def cropHi(d: int, k: int): int = min2(d, (d + k + 1) / 2)
  pure def crop(ts: List[Term], d: int, k: int): List[Term] =
    ts.foldl([], (acc15, t) => acc15.append({ y: t.y.slice(cropLo(d, k), cropHi(d, k)), x: t.x.slice(cropLo(d, k), cropHi(d, k)) }))
  // supports that are tried: 10, 15, 20, ... below the size of the transfer function
  pure def supports(n: int): List[int] = range(0, if (n <= 10) 0 else (n - 11) / 5 + 1).foldl([], (acc16, i) => acc16.append(10 + 5 * i))
  pure def held(ts: List[Term], d: int, k: int): int = total(crop(ts, d, k))
  pure def chosen(ts: List[Term], d: int, n: int): int =
    supports(n).foldl((0, false), (a, k) => if (a._2) a else (k, held(ts, d, k) > dec(95, -2)))._1
  // distance of the decision from its threshold
  pure def cropMargin(ts: List[Term], d: int, n: int): int =
    supports(n).foldl(ONE, (a, k) => min2(a, abs(held(ts, d, k) - dec(95, -2))))
  // kernel of m x m samples before cropping, summing to one: the sample spacing of
  // the transfer function sets the extent, whatever its number of rows and columns
  pure def spread(ts: List[Term], m: int): List[Term] = {
    val p = resizeBoth(transform(ts), m, m)
    scaleBy(p, div(ONE, total(p)))
  }
  pure def psf(ts: List[Term], m: int): List[Term] = {
    val n = min2(ts[0].y.length(), ts[0].x.length())
    val p = spread(ts, m)
    val k = chosen(p, m, n)
    if (k == 0) p else { val q = crop(p, m, k) scaleBy(q, div(ONE, total(q))) }
  }

  // ---------------------------------------------------- filtering an image
  // correlation along one axis with the anchor at n/2; beyond its border the image
  // continues as its mirror image about the outermost sample
  pure def mirrored(i: int, n: int): int =
    if (n == 1) 0 else { val j = pmod(i, 2 * (n - 1)) if (j < n) j else 2 * (n - 1) - j }
  pure def along(a: List[int], k: List[int]): List[int] = {
    val n = a.length()
    val c = k.length() / 2
    range(0, n).foldl([], (acc18, i) => acc18.append(range(0, k.length()).foldl(0, (acc17, j) => acc17 + (mul(k[j], a[mirrored(i + j - c, n)])))))
  }
  pure def filtered(img: List[Term], k: List[Term]): List[Term] =
    img.foldl([], (l, t) => k.foldl(l, (l2, q) => l2.append({ y: along(t.y, q.y), x: along(t.x, q.x) })))
  pure def newSize(n: int, dxIn: int, dxOut: int): int = roundR(div(mul(real(n), dxIn), dxOut))

  run resizeTest = all {
    assert(resize([real(1), real(3)], 4) == [real(1), dec(15, -1), dec(25, -1), real(3)]),
    assert(resize([real(1), real(3), real(5), real(7)], 2) == [real(2), real(6)]) }
  run impulseTest = {
    // a constant transfer function is a point at index n/2
    val p = dense(transform([{ y: replicate(5, ONE), x: replicate(5, ONE) }]))
    all { assert(near(p[12], ONE, 10^20)), assert(near(p[0], 0, 10^20)), assert(near(p[13], 0, 10^20)) } }
  run cropTest = all { assert((cropLo(12, 10), cropHi(12, 10)) == (1, 11)), assert((cropLo(13, 10), cropHi(13, 10)) == (1, 12)),
    assert((cropLo(8, 10), cropHi(8, 10)) == (0, 8)), assert(supports(10) == []), assert(supports(11) == [10]), assert(supports(16) == [10, 15]) }
}
