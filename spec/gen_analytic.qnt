// Generator machines for analytic.qnt: each state is one call with its outcome.
module gen_analytic {
  import fx.* from "./fx"
  import cases.* from "./cases"
  import analytic.* from "./analytic"

  var c: Case
  pure val TINY = 10^25
  pure def mk(op: str, k: str -> int, f: str -> List[int], e: str -> List[int], ek: str -> int): Case =
    { op: op, k: k, f: f, e: e, ek: ek }
  pure def sgn(r: int -> int, i: int): int = if (yes(r, i, 50)) 1 else -1

  // ------------------------------------------------------------------ C24
  pure val DEV = [0, 0, 0, dec(1, -13), -dec(5, -14), dec(2, -12), dec(1, -3), -dec(1, -3), dec(3, -1), -ONE, ONE, dec(12, -3), -TWO, -ONE, -dec(21, -1), real(254)]
  pure def kernelCase(r: int -> int): Case = {
    val rows = 1 + pick(r, 0, 5)
    val cols = 1 + pick(r, 1, 5)
    val n = rows * cols
    // a sixth of the kernels have integer elements
    val whole = yes(r, 8, 16)
    val raw0 = values(r, 2, n, -(ONE + HALF), TWO)
    val raw = if (whole) raw0.foldl([], (acc0, x) => acc0.append(x * 15 / ONE * ONE)) else raw0
    // spread the missing part over one element so that the kernel sums to 1 + dev
    val dev = if (whole) [0, 0, 0, ONE, -ONE, -TWO][pick(r, 5, 6)] else DEV[pick(r, 5, 16)]
    val at = pick(r, 6, n)
    val kernel = range(0, n).foldl([], (acc1, i) => acc1.append(if (i == at) raw[i] + ONE + dev - suml(raw) else raw[i]))
    mk("noise_gain", Map("rows" -> rows, "cols" -> cols, "flat" -> (if (rows == 1) pick(r, 7, 2) else 0)), Map("kernel" -> kernel), Map("ng" -> [noiseGain(kernel)]),
      Map("reject" -> (if (abs(dev) >= dec(1, -4)) 1 else 0)))
  }
  pure def quantCase(r: int -> int): Case = {
    val pe = logu(r, 0, 0, 9)
    val bits = if (yes(r, 1, 20)) uni(r, 2, HALF, real(30)) else [real(1), real(8), real(10), real(12), real(14), real(16), real(2), real(100)][pick(r, 2, 8)]
    mk("quantization", Map(), Map("pe" -> [pe], "bits" -> [bits]), Map("q" -> [quantisation(pe, bits)]), Map())
  }
  pure def radiiCase(r: int -> int): Case = {
    val D = logu(r, 0, -2, 1)
    val R = logu(r, 1, 1, 7)
    // focused far beyond anything (the driver passes infinity for what is beyond 10^40 m)
    val R0 = if (yes(r, 2, 10)) R else if (yes(r, 2, 18)) 10^110 else logu(r, 3, 1, 7)
    val dz = sgn(r, 4) * logu(r, 5, -7, -2)
    val f = logu(r, 6, -1, 2)
    val jd = if (yes(r, 7, 10)) 0 else logu(r, 8, -9, 2)
    val wX = uni(r, 9, dec(1, -6), dec(50, -6))
    val wY = uni(r, 10, dec(1, -6), dec(50, -6))
    mk("radii", Map(), Map("D" -> [D], "R" -> [R], "R0" -> [R0], "dz" -> [dz], "f" -> [f], "jd" -> [jd], "w_x" -> [wX], "w_y" -> [wY]),
      Map("object" -> [objectDefocus(D, R, R0)], "image" -> [imageDefocus(D, dz, f)], "dark" -> [darkCurrent(jd, wX, wY)]), Map())
  }
  action stepNoise = {
    nondet r = RV.oneOf()
    c' = if (yes(r, 70, 60)) kernelCase(r) else if (yes(r, 71, 50)) quantCase(r) else radiiCase(r)
  }
  val lawNoise = and {
    // Cauchy-Schwarz: no kernel that sums to one has a gain below 1/sqrt(number of elements)
    (c.op == "noise_gain" and c.ek.get("reject") == 0) implies
      mul(sq(c.e.get("ng")[0]), real(c.f.get("kernel").length())) >= ONE - dec(1, -10),
    c.op == "quantization" implies c.e.get("q")[0] >= 0 }

  // ------------------------------------------------------------------ C17
  pure def genRer(r: int -> int, i: int): int =
    if (yes(r, i, 25)) [dec(9, -1), dec(9, -1) - dec(1, -9), dec(9, -1) + dec(1, -9), ONE, dec(899, -3)][pick(r, i + 1, 5)]
    else uni(r, i + 2, dec(3, -2), dec(135, -2))
  action stepGiqe = {
    nondet r = RV.oneOf()
    c' = giqeCase(r)
  }
  pure def giqeCase(r: int -> int): Case = {
    val r1 = genRer(r, 0)
    val r2 = if (yes(r, 3, 15)) r1 else genRer(r, 4)
    val gsd = logu(r, 7, -4, 4)
    val eho = uni(r, 8, dec(8, -1), dec(25, -1))
    val ng = uni(r, 9, dec(5, -1), real(12))
    val snr = (if (yes(r, 10, 12)) -1 else 1) * logu(r, 11, -1, if (yes(r, 14, 15)) 9 else 4)
    val elev = if (yes(r, 12, 15)) PI / 2 else if (yes(r, 12, 30)) uni(r, 13, PI / 2, PI - dec(1, -2)) else if (yes(r, 15, 10)) logu(r, 13, -3, -2) else uni(r, 13, dec(1, -2), PI / 2)
    mk("giqe", Map(), Map("r1" -> [r1], "r2" -> [r2], "gsd" -> [gsd], "eho" -> [eho], "ng" -> [ng], "snr" -> [snr], "elev" -> [elev]),
      Map("n3" -> [giqe3(r1, gsd, eho, ng, snr)], "n4" -> [giqe4(r1, gsd, eho, ng, snr, elev)], "gsd_gp" -> [giqe4Gsd(gsd, elev)],
          "n5" -> [giqe5(r1, r2, gsd, snr, elev)], "gsd_w" -> [giqe5Gsd(gsd, elev)], "rer" -> [giqe5Rer(r1, r2)]), Map())
  }
  val lawGiqe = (c.op == "giqe") implies and {
    giqe5(c.f.get("r1")[0], c.f.get("r2")[0], ONE, ONE, ONE) == giqe5(c.f.get("r2")[0], c.f.get("r1")[0], ONE, ONE, ONE),
    // the weighted edge response lies between its two arguments
    c.e.get("rer")[0] <= max2(c.f.get("r1")[0], c.f.get("r2")[0]) + TINY,
    c.e.get("rer")[0] >= min2(c.f.get("r1")[0], c.f.get("r2")[0]) - TINY,
    // looking down costs nothing; a slant view never looks better
    c.e.get("gsd_gp")[0] >= c.e.get("gsd_w")[0] - TINY, c.e.get("gsd_w")[0] >= c.f.get("gsd")[0] - TINY }

  // ------------------------------------------------------------------ C19
  pure def genHeight(r: int -> int, i: int): int =
    [0, uni(r, i + 1, 0, real(50)), uni(r, i + 1, 0, real(5000)), logu(r, i + 1, 0, 4), logu(r, i + 1, 4, 7)][pick(r, i, 5)]
  pure def wholeIf(w: bool, x: int): int = if (w) x / ONE * ONE else x
  pure def geometryCase(r: int -> int): Case = {
    // a tenth of the cases with the two a tenth of a millimetre to two metres apart
    val near0 = yes(r, 12, 10)
    // a fifth with heights in whole metres
    val whole = yes(r, 15, 20)
    val hT = if (yes(r, 0, 40)) 0 else if (near0) uni(r, 1, 0, real(100000)) else if (yes(r, 11, 20)) -wholeIf(whole, logu(r, 1, 0, 4)) else wholeIf(whole, genHeight(r, 1))
    val hS0 = wholeIf(whole, genHeight(r, 4))
    val gap = logu(r, 13, -4, 0)
    // or at the same height, apart along the ground
    val level = yes(r, 16, 5)
    val hS = if (level) hT else if (near0) (if (yes(r, 14, 50) and hT > gap) hT - gap else hT + gap) else if (level) hT else if (abs(hS0 - hT) < ONE) hT + real(2) else hS0
    val g = if (level) logu(r, 9, 1, 6) else if (yes(r, 7, if (near0) 75 else 25)) 0 else if (yes(r, 8, 20)) uni(r, 9, 0, real(3000000)) else logu(r, 9, 0, 6)
    val b = slantRange(hT, hS, g)
    val ifov = logu(r, 10, -8, 0)
    mk("geometry", Map(), Map("h_target" -> [hT], "h_sensor" -> [hS], "ground" -> [g], "ifov" -> [ifov]),
      Map("slant2" -> [sq(b)], "slant" -> [b], "cos" -> [cosNadir(hT, hS, b)], "gsd" -> [mul(ifov, b)],
          "heights" -> range(0, 10).foldl([], (acc2, k) => acc2.append(pathHeight(hT, hS, b, k * b / 9)))), Map("vertical" -> (if (g == 0 and not(level)) 1 else 0)))
  }
  action stepGeometry = { nondet r = RV.oneOf() c' = geometryCase(r) }
  val lawGeometry = (c.op == "geometry") implies {
    val hT = c.f.get("h_target")[0]
    val hS = c.f.get("h_sensor")[0]
    and { near(c.e.get("heights")[0], hT, 10^35), near(c.e.get("heights")[9], hS, 10^35),
          abs(c.e.get("cos")[0]) <= ONE + 10^30, c.e.get("slant")[0] >= abs(hS - hT) - 10^30,
          c.ek.get("vertical") == 1 implies near(abs(c.e.get("cos")[0]), ONE, 10^30) }
  }

  // ------------------------------------------------------------------ C20
  pure def sliceCase(r: int -> int): Case = {
    val n = 3 + pick(r, 0, 12)
    // some given as whole numbers
    val whole = yes(r, 7, 10)
    val H0 = values(r, 1, n * n, if (yes(r, 4, 50)) 0 else -ONE, ONE)
    val H = if (whole) H0.foldl([], (accW, x) => accW.append(floorR(x * 9) * ONE)) else H0
    val ang = if (yes(r, 5, 40)) mul(PI / 4, real(pick(r, 6, 9) - 1)) else uni(r, 6, -PI, 2 * PI)
    // grid spacing 2/(n-1); the sample at distance 1 exists only for odd n
    val m = sliceLength(n)
    mk("slice", Map("n" -> n, "whole" -> (if (whole) 1 + pick(r, 8, 3) else 0)), Map("H" -> H, "ang" -> [ang]), Map("slice" -> sliceOf(H, n, ang, m + n % 2)), Map("m" -> m, "extra" -> (if (n % 2 == 1) 1 else 0)))
  }
  // large grids of a function that is linear along either axis, built from its four coefficients
  pure def twistCase(r: int -> int): Case = {
    val n = [31, 101, 151, 201, 301, 401, 1501][pick(r, 0, 7)] - (if (yes(r, 7, 30)) 1 else 0)
    val k = [uni(r, 1, -real(5), real(5)), uni(r, 2, -real(5), real(5)), uni(r, 3, -real(5), real(5)), uni(r, 4, -real(5), real(5))]
    val ang = if (yes(r, 5, 40)) mul(PI / 4, real(pick(r, 6, 9) - 1)) else uni(r, 6, -PI, 2 * PI)
    val m = sliceLength(n)
    val d = mul(cos(ang), k[1]) + mul(sin(ang), k[2])
    val dd = mul3(cos(ang), sin(ang), k[3])
    mk("twist", Map("n" -> n), Map("coefficients" -> k, "ang" -> [ang]),
      Map("slice" -> range(0, m + n % 2).foldl([], (acc29, j) => acc29.append({ val t = 2 * ONE * j / (n - 1) k[0] + mul(d, t) + mul(dd, sq(t)) }))),
      Map("m" -> m, "extra" -> (if (n % 2 == 1) 1 else 0)))
  }
  action stepSlice = { nondet r = RV.oneOf() c' = if (yes(r, 70, 6)) twistCase(r) else sliceCase(r) }
  val lawSlice = (c.op == "slice") implies {
    val H = c.f.get("H")
    val n = c.k.get("n")
    and { c.e.get("slice")[0] == bilinear(H, n, 0, 0), c.e.get("slice").foldl(true, (acc3, x) => acc3 and (x <= maxl(H) + TINY and x >= minl(H) - TINY)) }
  }

  // ------------------------------------------------------------------ C16
  // a decreasing transfer function with n samples, optionally with a sharpening bump
  pure def genMtf(r: int -> int, i: int, n: int): List[int] = {
    val decay = uni(r, i, dec(5, -1), real(6))
    val bump = if (yes(r, i + 1, 35)) uni(r, i + 2, 0, TWO) else 0
    // some turn negative
    val swing = if (yes(r, i + 2, 12)) uni(r, i, ONE, real(12)) else 0
    range(0, n).foldl([], (acc4, k) => acc4.append(mul3(exp(-mul(decay, real(k) / n)), ONE + mul(bump, mul(real(k) / n, ONE - real(k) / n)), cos(mul(swing, real(k) / n)))))
  }
  pure def edgeCase(r: int -> int): Case = {
    val n = if (yes(r, 8, 2)) [300, 520, 700, 1100][pick(r, 9, 4)] else 3 + pick(r, 0, 40)
    // now and then nothing at zero frequency
    val mtf = if (yes(r, 10, 6)) [0].concat(genMtf(r, 1, n).slice(1, n)) else genMtf(r, 1, n)
    val df = logu(r, 4, 2, 5)
    // half to four Nyquist intervals inside the slice
    val ifov = div(uni(r, 5, dec(2, -1), real(3)), df * n)
    val pos = [0, HALF, -HALF, uni(r, 6, -real(3), real(3)), uni(r, 6, -ONE, ONE), uni(r, 6, -real(20), real(20))][pick(r, 7, 6)]
    val t = overshootTable(mtf, df, ifov)
    mk("edge", Map(), Map("mtf" -> mtf, "df" -> [df], "ifov" -> [ifov], "pos" -> [pos]),
      Map("er" -> [edgeResponse(pos, mtf, df, ifov)], "er_neg" -> [edgeResponse(-pos, mtf, df, ifov)],
          "rer" -> [relativeEdge(mtf, df, ifov)], "eho" -> [overshootOf(t)]), Map("tie" -> (if (overshootMargin(t) < dec(1, -6)) 1 else 0)))
  }
  pure def resolvedCase(r: int -> int): Case = {
    val n = 3 + pick(r, 0, 30)
    // a clean signal resolves detail at which the transfer function has almost vanished
    val clean = yes(r, 8, 15)
    val decay = if (clean) uni(r, 1, real(4), real(25)) else uni(r, 1, dec(5, -1), real(6))
    val mtf = range(0, n).foldl([], (acc5, k) => acc5.append(exp(-mul(decay, real(k) / n))))
    val df = logu(r, 2, 2, 5)
    val snr = if (clean) logu(r, 4, 3, 8) else if (yes(r, 3, 15)) uni(r, 4, real(1), real(3)) else uni(r, 4, dec(31, -1), if (yes(r, 5, 50)) real(10) else real(2000))
    val ifov = div(uni(r, 6, dec(1, -1), real(2)), df * n)
    val slant = logu(r, 7, 1, 6)
    val hidden = div(real(3), snr) >= ONE
    mk("resolved", Map(), Map("mtf" -> mtf, "df" -> [df], "snr" -> [snr], "ifov" -> [ifov], "slant" -> [slant]),
      Map("grd" -> [if (hidden) 0 else resolved(mtf, df, snr, ifov, slant)]), Map("unresolved" -> (if (hidden) 1 else 0)))
  }
  // two-dimensional transfer function, separable plus a diagonal part
  pure def terms2dCase(r: int -> int): Case = {
    val n = 5 + 2 * pick(r, 0, 5)
    val h = (n - 1) / 2
    val a = uni(r, 1, dec(5, -1), real(4))
    val b = uni(r, 2, dec(5, -1), real(4))
    val g = uni(r, 3, 0, dec(9, -1))
    val skew = uni(r, 4, dec(-3, -1), dec(3, -1))
    val H = range(0, n * n).foldl([], (acc6, i) => acc6.append({
      val x = real(i % n - h) / h
      val y = real(h - i / n) / h
      mul(exp(-mul(a, sq(x)) - mul(b, sq(y))), ONE + mul(g, sq(x)) + mul(skew, x) + mul(skew / 2, y)) }))
    val df = logu(r, 5, 2, 5)
    val ix = div(uni(r, 6, dec(3, -1), TWO), df * h)
    val iy = if (yes(r, 7, 20)) ix else div(uni(r, 8, dec(3, -1), TWO), df * h)
    // with and without the sample at distance 1, which floating point may drop
    val u0 = sliceOf(H, n, 0, h + 1)
    val v0 = sliceOf(H, n, PI / 2, h + 1)
    val tu = overshootTable(u0, df, ix)
    val tv = overshootTable(v0, df, iy)
    val us = u0.slice(0, h)
    val vs = v0.slice(0, h)
    val tus = overshootTable(us, df, ix)
    val tvs = overshootTable(vs, df, iy)
    mk("terms2d", Map("n" -> n), Map("H" -> H, "df" -> [df], "ifov_x" -> [ix], "ifov_y" -> [iy]),
      Map("rer0" -> [relativeEdge(u0, df, ix)], "rer90" -> [relativeEdge(v0, df, iy)], "eho" -> [sqrt(mul(overshootOf(tu), overshootOf(tv)))],
          "rer0s" -> [relativeEdge(us, df, ix)], "rer90s" -> [relativeEdge(vs, df, iy)], "ehos" -> [sqrt(mul(overshootOf(tus), overshootOf(tvs)))]),
      Map("tie" -> (if (min2(min2(overshootMargin(tu), overshootMargin(tv)), min2(overshootMargin(tus), overshootMargin(tvs))) < dec(1, -6)) 1 else 0),
          "bad" -> (if (relativeEdge(u0, df, ix) <= 0 or relativeEdge(v0, df, iy) <= 0 or relativeEdge(us, df, ix) <= 0 or relativeEdge(vs, df, iy) <= 0) 1 else 0)))
  }
  action stepEdge = {
    nondet r = RV.oneOf()
    c' = if (yes(r, 70, 45)) edgeCase(r) else if (yes(r, 71, 50)) resolvedCase(r) else terms2dCase(r)
  }
  val lawEdge = (c.op == "edge") implies near(c.e.get("er")[0] + c.e.get("er_neg")[0], ONE, 10^30)

  // ------------------------------------------------------------------ C11
  pure def weightedCase(r: int -> int): Case = {
    // a hundredth of them as long as the whole band of the atmosphere database
    val n = if (yes(r, 17, 1)) 180 + pick(r, 18, 1300) else 1 + pick(r, 0, 7)
    // distinct wavelengths: increasing knots, visited in a random rotation/reversal
    val sorted = if (n == 1) [uni(r, 1, dec(4, -7), dec(12, -6))] else knots(r, 1, n, dec(4, -7), dec(9, -7) + logu(r, 4, -7, -5))
    val shift = pick(r, 5, n)
    val rev = yes(r, 6, 40)
    val wl = range(0, n).foldl([], (acc7, i) => acc7.append(sorted[if (rev) n - 1 - (i + shift) % n else (i + shift) % n]))
    val integer = yes(r, 7, 30)
    val w0 = range(0, n).foldl([], (acc8, i) => acc8.append(if ((r.get(8) / (i + 1)) % 100 < 25) 0 else if (integer) real(1 + (r.get(9) / (2 * i + 1)) % 9)
      else mul(logu(r, 10, -6, 6), dec(1 + (r.get(11) / (3 * i + 1)) % 1000, -3))))
    val ws = if (suml(w0) == 0) range(0, n).foldl([], (acc9, i) => acc9.append(ONE)) else w0
    val m = if (n > 100) 1 else 1 + pick(r, 12, 3)
    val vals = values(r, 13, n * m, -real(2), real(5))
    val flat = yes(r, 16, 15)
    val vs = range(0, n * m).foldl([], (acc10, i) => acc10.append(if (flat) vals[i % m] else vals[i]))
    mk("weighted", Map("m" -> m, "integer" -> (if (integer) 1 + pick(r, 19, 5) else 0)), Map("wavelengths" -> wl, "weights" -> ws, "values" -> vs),
      Map("mean" -> range(0, m).foldl([], (acc12, j) => acc12.append(weighted(ws, range(0, n).foldl([], (acc11, i) => acc11.append(vs[i * m + j])))))), Map("flat" -> (if (flat) 1 else 0)))
  }
  action stepWeighted = { nondet r = RV.oneOf() c' = weightedCase(r) }
  val lawWeighted = (c.op == "weighted") implies {
    val vs = c.f.get("values")
    and { c.e.get("mean").foldl(true, (acc13, x) => acc13 and (x <= maxl(vs) + TINY and x >= minl(vs) - TINY)),
          c.ek.get("flat") == 1 implies near(c.e.get("mean")[0], vs[0], TINY) }
  }

  // ------------------------------------------------------------------ C14
  pure def distinctCounts(r: int -> int, i: int, n: int, top: int): List[int] =
    range(0, n).foldl(([], -1), (a, j) => {
      val x = a._2 + 1 + (r.get(i) / (j * 7 + 3)) % (top / n)
      (a._1.append(real(x)), x) })._1
  // rows of three-band pixels?
  pure def colour(r: int -> int, i: int, cols: int): int = if (cols % 3 == 0 and yes(r, i, 60)) 1 else 0
  pure def calibrationCase(r: int -> int): Case = {
    val kind = pick(r, 0, 4)      // uint8, uint16, float, int64 images
    val top = if (kind == 0) 255 else 4000
    val n = 2 + pick(r, 1, 5)
    val sorted = distinctCounts(r, 2, n, if (kind == 0) 200 else 3000)
    val falling = yes(r, 3, 25)
    val refl0 = sortl(values(r, 4, n, dec(-1, -1), dec(11, -1)))
    val smooth = yes(r, 7, 70)
    val reflS = if (smooth) (if (falling) range(0, n).foldl([], (acc14, i) => acc14.append(refl0[n - 1 - i])) else refl0) else if (yes(r, 7, 80)) range(0, n).foldl([], (acc50, i) => acc50.append(real(mix(r, 8, i) % 2))) else values(r, 7, n, 0, ONE)
    val shift = pick(r, 10, n)
    val rev = yes(r, 11, 50)
    val perm = range(0, n).foldl([], (acc15, i) => acc15.append(if (rev) n - 1 - (i + shift) % n else (i + shift) % n))
    val pix = range(0, n).foldl([], (acc16, i) => acc16.append(sorted[perm[i]]))
    val refl = range(0, n).foldl([], (acc17, i) => acc17.append(reflS[perm[i]]))
    val rows = 1 + pick(r, 12, 4)
    val cols = 1 + pick(r, 13, 4)
    val img0 = range(0, rows * cols).foldl([], (acc18, i) => acc18.append(if (i % 5 == 1) sorted[i % n]
      else if (kind == 2) real(top) * mix(r, 14, i) / 1000003 else real(mix(r, 14, i) % (top + 1))))
    mk("calibrate", Map("rows" -> rows, "cols" -> cols, "kind" -> kind, "colour" -> colour(r, 15, cols),
        // how many times the image is to be repeated along its rows
        "tile" -> (if (yes(r, 20, 1)) [700, 30000, 5 * 10^6 / (rows * cols)][pick(r, 21, 3)] else 1)), Map("img" -> img0, "pix" -> pix, "refl" -> refl),
      Map("refl_img" -> img0.foldl([], (acc19, x) => acc19.append(calibrate(pix, refl, x)))), Map())
  }
  pure def refImageCase(r: int -> int): Case = {
    val kind = pick(r, 0, 4)
    val rows = 2 + pick(r, 1, 5)
    val cols = 2 + pick(r, 2, 5)
    val img = range(0, rows * cols).foldl([], (acc20, i) => acc20.append(if (kind == 2) real(4000) * mix(r, 3, i) / 1000003 else real(mix(r, 3, i) % (if (kind == 0) 256 else 4001))))
    val lo = percentile(img, dec(2, -1))
    val hi = percentile(img, dec(998, -1))
    val mode = pick(r, 6, 4)      // 0,1: no calibration; 2: pixel values only (rejected); 3: both given
    mk("ref_image", Map("rows" -> rows, "cols" -> cols, "kind" -> kind, "mode" -> mode, "colour" -> colour(r, 8, cols)), Map("img" -> img, "gsd" -> [logu(r, 7, -2, 2)], "given" -> [real(3), real(200)], "givenr" -> [dec(1, -1), dec(6, -1)]),
      if (mode == 3) Map("pix" -> [real(3), real(200)], "refl" -> [dec(1, -1), dec(6, -1)], "img" -> img.foldl([], (acc21, x) => acc21.append(calibrate([real(3), real(200)], [dec(1, -1), dec(6, -1)], x))))
      else Map("pix" -> [lo, hi], "refl" -> [dec(5, -2), dec(95, -2)],
               "img" -> (if (hi == lo) [] else img.foldl([], (acc22, x) => acc22.append(calibrate([lo, hi], [dec(5, -2), dec(95, -2)], x))))),
      Map("reject" -> (if (mode == 2) 1 else 0), "degenerate" -> (if (hi == lo) 1 else 0)))
  }
  action stepCalibrate = {
    nondet r = RV.oneOf()
    c' = if (yes(r, 70, 65)) calibrationCase(r) else refImageCase(r)
  }
  val lawCalibrate = (c.op == "calibrate") implies {
    val pix = c.f.get("pix")
    val refl = c.f.get("refl")
    val n = pix.length()
    and { c.e.get("refl_img").foldl(true, (acc23, x) => acc23 and (x >= 0 and x <= ONE)),
      // the pairs may be listed in any order
      calibrate(pix.slice(1, n).append(pix[0]), refl.slice(1, n).append(refl[0]), c.f.get("img")[0]) == c.e.get("refl_img")[0] }
  }

  // ------------------------------------------------------------------ C22
  pure def stretchCase(r: int -> int): Case = {
    val kind = pick(r, 0, 4)
    val rows = 2 + pick(r, 1, 5)
    val cols = 1 + pick(r, 2, 6)
    // counts far beyond the range of 32-bit arithmetic, and small differences between them
    val span = if (kind == 0) 256 else [3, 40, 4096, 60000][pick(r, 4, 4)]
    val lift = if (kind >= 2) [0, -500, 10^9, 4 * 10^10, -span / 2, -span / 10][pick(r, 13, 6)] else 0
    val zeros = yes(r, 15, 20)      // a good part of the pixels zero
    val base = real(lift) + (if (kind == 2 and lift > -span / 10) uni(r, 3, -real(500), real(500)) else 0)
    // of any magnitude
    val unit = if (kind == 2 and yes(r, 18, 30)) 10^[3, 6, 12, 20][pick(r, 19, 4)] else 1
    val img = range(0, rows * cols).foldl([], (acc24, i) => acc24.append((if (zeros and mix(r, 7, i) % 3 == 0) 0 else if (kind == 2) base + real(span) * mix(r, 5, i) / 1000003 else real(lift + mix(r, 5, i) % span)) / unit))
    val given = yes(r, 8, 70)
    val lo = if (given) [0, dec(1, -1), uni(r, 9, 0, real(45))][pick(r, 10, 3)] else dec(1, -1)
    val hi = if (given) [real(100), dec(999, -1), uni(r, 11, real(55), real(100))][pick(r, 12, 3)] else dec(999, -1)
    val flat = (percentile(img, hi) - percentile(img, lo)) * 10^12 <= maxl(img.foldl([], (acc51, x) => acc51.append(abs(x))))
    mk("stretch", Map("rows" -> rows, "cols" -> cols, "kind" -> kind, "given" -> (if (given) 1 else 0), "colour" -> colour(r, 14, cols)), Map("img" -> img, "perc" -> [lo, hi]),
      Map("out" -> (if (flat) [] else stretch(img, lo, hi))), Map("flat" -> (if (flat) 1 else 0)))
  }
  // a large image of few values, each occurring many times
  pure def manyCase(r: int -> int): Case = {
    val kind = pick(r, 0, 4)
    val n = 2 + pick(r, 1, 30)
    val most = [40, 2000, 60000][pick(r, 2, 3)]
    val span = if (kind == 0) 256 else [300, 4096, 60000][pick(r, 4, 3)]
    val vals = range(0, n).foldl([], (acc25, i) => if (acc25.foldl(false, (b, x) => b or x == real(mix(r, 5, i) % span))) acc25 else acc25.append(real(mix(r, 5, i) % span)))
    val vs = sortl(vals)
    val counts = range(0, vs.length()).foldl([], (acc26, i) => acc26.append(1 + mix(r, 8, i) % most))
    val given = yes(r, 11, 70)
    val lo = if (given) [0, dec(1, -1), uni(r, 12, 0, real(45))][pick(r, 13, 3)] else dec(1, -1)
    val hi = if (given) [real(100), dec(999, -1), uni(r, 14, real(55), real(100))][pick(r, 15, 3)] else dec(999, -1)
    val a = percentileOf(vs, counts, lo)
    val b = percentileOf(vs, counts, hi)
    val flat = b - a < dec(1, -3)
    mk("many", Map("kind" -> kind, "given" -> (if (given) 1 else 0), "seed" -> pick(r, 16, 100000)), Map("values" -> vs, "counts" -> counts.foldl([], (acc27, x) => acc27.append(real(x))), "perc" -> [lo, hi]),
      Map("out" -> (if (flat) [] else vs.foldl([], (acc28, x) => acc28.append(clamp(255 * ONE * (x - a) / (b - a), 0, 255 * ONE)))), "ends" -> [a, b]), Map("flat" -> (if (flat) 1 else 0)))
  }
  action stepStretch = { nondet r = RV.oneOf() c' = if (yes(r, 17, 5)) manyCase(r) else stretchCase(r) }
  val lawStretch = (c.op == "stretch" and c.ek.get("flat") == 0) implies {
    val x = c.f.get("img")
    val y = c.e.get("out")
    range(0, x.length() - 1).foldl(true, (b, i) => b and (x[i] <= x[i + 1] implies y[i] <= y[i + 1]) and (x[i] >= x[i + 1] implies y[i] >= y[i + 1]))
  }

  action init = c' = NOCASE
}
