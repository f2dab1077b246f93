// Noise, image-quality, geometry, slice, edge and image-mapping semantics
// (pybsm.noise, geospatial, metrics, otf.slice_otf, simulation helpers).
module analytic {
  import fx.* from "./fx"
  import cases.* from "./cases"

  // ------------------------------------------------- C24 noise and helpers
  pure val QC = 160217662 * 10^33           // electron charge 1.60217662e-19 C
  pure def noiseGain(kernel: List[int]): int = sqrt(range(0, kernel.length()).foldl(0, (acc1, i) => acc1 + (sq(kernel[i]))))
  pure def quantisation(range_: int, bits: int): int = div(range_, mul(sqrt(real(12)), exp(mul(bits, LN2)) - ONE))
  pure def darkCurrent(jd: int, wX: int, wY: int): int = div(mul3(jd, wX, wY), QC)
  pure def objectDefocus(D: int, R: int, R0: int): int = mul(mul(dec(62, -2), D), div(ONE, R) - div(ONE, R0))
  pure def imageDefocus(D: int, dz: int, f: int): int = div(mul3(dec(62, -2), D, dz), sq(f))

  // ------------------------------------------------------------ C17 GIQE
  pure val INCH = dec(254, -4)
  pure def giqe3(rer: int, gsd: int, eho: int, ng: int, snr: int): int =
    dec(1181, -2) + mul(dec(332, -2), log10(div(rer, div(gsd, INCH)))) - mul(dec(148, -2), eho) - div(ng, snr)
  pure def giqe4Gsd(gsd: int, elev: int): int = div(gsd, sqrt(sin(elev)))
  pure def giqe4(rer: int, gsd: int, eho: int, ng: int, snr: int, elev: int): int = {
    val c1 = if (rer >= dec(9, -1)) dec(332, -2) else dec(316, -2)
    val c2 = if (rer >= dec(9, -1)) dec(1559, -3) else dec(2817, -3)
    dec(10251, -3) - mul(c1, log10(div(giqe4Gsd(gsd, elev), INCH))) + mul(c2, log10(rer))
      - mul(dec(656, -3), eho) - mul(dec(334, -3), div(ng, snr))
  }
  pure def giqe5Gsd(gsd: int, elev: int): int = div(gsd, sqrt(sqrt(sin(elev))))
  pure def giqe5Rer(r1: int, r2: int): int = cbrt(mul3(max2(r1, r2), min2(r1, r2), min2(r1, r2)))
  pure def giqe5(r1: int, r2: int, gsd: int, snr: int, elev: int): int = {
    val l = log10(giqe5Rer(r1, r2))
    dec(957, -2) - mul(dec(332, -2), log10(div(giqe5Gsd(gsd, elev), INCH)))
      + mul(mul(dec(332, -2), ONE - exp(-div(dec(19, -1), snr))), l) - 2 * sq(sq(l)) - div(dec(18, -1), snr)
  }

  // -------------------------------------------- C19 curved-Earth geometry
  pure val REARTH = real(6378164)
  pure def slantRange(hT: int, hS: int, ground: int): int = {
    val s = sin(div(ground, REARTH) / 2)
    sqrt(sq(hS - hT) + 4 * mul(mul(REARTH + hT, REARTH + hS), sq(s)))
  }
  // cosine of the angle at the sensor between straight down and the target
  pure def cosNadir(hT: int, hS: int, b: int): int = {
    val a = REARTH + hS
    val c = REARTH + hT
    div(sq(a) + sq(b) - sq(c), 2 * mul(a, b))
  }
  // height above the sphere at distance d from the target, on the way to the sensor
  pure def pathHeight(hT: int, hS: int, b: int, d: int): int = {
    val a = REARTH + hS
    val c = REARTH + hT
    // Stewart's theorem for the cevian from the Earth's centre
    sqrt(mul(sq(c), div(b - d, b)) + mul(sq(a), div(d, b)) - mul(d, b - d)) - REARTH
  }

  // ------------------------------------------------------------ C20 slice
  // value of the n x n grid H at (u, v) in [-1,1]^2; rows run from v=1 down
  pure def bilinear(H: List[int], n: int, u: int, v: int): int = {
    val x = (u + ONE) * (n - 1) / 2
    val y = (ONE - v) * (n - 1) / 2
    val j = clamp(floorR(x), 0, n - 2)
    val i = clamp(floorR(y), 0, n - 2)
    val s = x - j * ONE
    val t = y - i * ONE
    mul(mul(ONE - t, ONE - s), H[i * n + j]) + mul(mul(ONE - t, s), H[i * n + j + 1])
      + mul(mul(t, ONE - s), H[(i + 1) * n + j]) + mul(mul(t, s), H[(i + 1) * n + j + 1])
  }
  // samples at distances 0, du, 2 du, ... below 1
  pure def sliceLength(n: int): int = (n - 1 + 1) / 2
  pure def sliceOf(H: List[int], n: int, ang: int, m: int): List[int] =
    range(0, m).foldl([], (acc2, k) => acc2.append(bilinear(H, n, mul(2 * ONE * k / (n - 1), cos(ang)), mul(2 * ONE * k / (n - 1), sin(ang)))))

  // --------------------------------------------------- C16 edge response
  // 1/2 + (1/pi) integral of mtf(w) sin(2 pi w ifov pos)/w, trapezoidal
  pure def edgeTerm(m: int, w: int, ifov: int, pos: int): int =
    if (w == 0) 2 * mul(mul(m, PI), mul(ifov, pos)) else div(mul(m, sinPi(2 * mul(w, mul(ifov, pos)))), w)
  pure def edgeResponse(pos: int, mtf: List[int], df: int, ifov: int): int = {
    val n = mtf.length()
    val s = range(0, n).foldl(0, (acc3, k) => acc3 + (edgeTerm(mtf[k], k * df, ifov, pos) * (if (k == 0 or k == n - 1) 1 else 2)))
    HALF + div(mul(s, df) / 2, PI)
  }
  pure def relativeEdge(mtf: List[int], df: int, ifov: int): int =
    edgeResponse(HALF, mtf, df, ifov) - edgeResponse(-HALF, mtf, df, ifov)
  pure def overshootTable(mtf: List[int], df: int, ifov: int): List[int] =
    range(0, 9).foldl([], (acc4, i) => acc4.append(edgeResponse(ONE + i * ONE / 4, mtf, df, ifov)))
  pure def overshootOf(t: List[int]): int =
    if (range(0, 8).foldl(true, (b, i) => b and t[i + 1] > t[i])) t[1] else maxl(t)
  // smallest increment, when it decides which rule applies
  pure def overshootMargin(t: List[int]): int =
    abs(range(0, 8).foldl(t[1] - t[0], (b, i) => min2(b, t[i + 1] - t[i])))
  // frequency at which a strictly decreasing transfer function falls to x
  pure def fallsTo(x: int, mtf: List[int], df: int): int = {
    val n = mtf.length()
    if (x >= mtf[0]) 0
    else if (x <= mtf[n - 1]) (n - 1) * df
    else {
      val k = range(0, n - 1).foldl(0, (b, i) => if (mtf[i] > x) i else b)
      k * df + div(mul(mtf[k] - x, df), mtf[k] - mtf[k + 1])
    }
  }
  pure def resolved(mtf: List[int], df: int, snr: int, ifov: int, slant: int): int = {
    val w = fallsTo(div(real(3), snr), mtf, df)
    max2(div(slant, w), 2 * mul(slant, ifov))
  }

  // ------------------------------------------------------ C11 averaging
  pure def weighted(ws: List[int], vals: List[int]): int =
    div(range(0, ws.length()).foldl(0, (acc5, i) => acc5 + (mul(ws[i], vals[i]))), suml(ws))

  // ---------------------------------------------------- C14 calibration
  // pairs in any order; linear between, extended beyond, truncated to [0, 1]
  pure def calibrate(pix: List[int], refl: List[int], x: int): int = {
    val xs = sortl(pix)
    val n = xs.length()
    val ys = range(0, n).foldl([], (acc6, i) => acc6.append(range(0, n).foldl(0, (b, j) => if (pix[j] == xs[i]) refl[j] else b)))
    val j = range(1, n - 1).foldl(0, (b, i) => if (x >= xs[i]) i else b)
    clamp(ys[j] + (ys[j + 1] - ys[j]) * (x - xs[j]) / (xs[j + 1] - xs[j]), 0, ONE)
  }

  // ------------------------------------------------------- C22 stretch
  pure def stretch(xs: List[int], lo: int, hi: int): List[int] = {
    val a = percentile(xs, lo)
    val b = percentile(xs, hi)
    xs.foldl([], (acc7, x) => acc7.append(clamp(255 * ONE * (x - a) / (b - a), 0, 255 * ONE)))
  }

  run geometryTest = all {
    assert(slantRange(0, real(5000), 0) == real(5000)),
    assert(near(cosNadir(0, real(5000), real(5000)), ONE, 10^20)),
    assert(near(pathHeight(0, real(9000), real(9000), real(4500)), real(4500), 10^30)) }
  run sliceTest = {
    val H = range(0, 9).foldl([], (acc8, i) => acc8.append(real(i)))
    all { assert(sliceOf(H, 3, 0, 2) == [real(4), real(5)]), assert(sliceOf(H, 3, PI, 2)[1] / 10^40 == real(3) / 10^40 ),
          assert(near(sliceOf(H, 3, PI / 2, 2)[1], real(1), 10^20)) } }
  run calibrateTest = all {
    assert(calibrate([real(10), real(0)], [ONE, 0], real(4)) == dec(4, -1)),
    assert(calibrate([real(10), real(0)], [ONE, 0], real(-4)) == 0),
    assert(calibrate([real(10), real(0)], [HALF, 0], real(15)) == dec(75, -2)) }
}
