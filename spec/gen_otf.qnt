// Generator machines for the component transfer functions.
module gen_otf {
  import fx.* from "./fx"
  import cases.* from "./cases"
  import otfs.* from "./otfs"

  var c: Case

  // frequency pairs: zero, the axes, and (a, b) with all sign combinations,
  // from well inside to beyond the cutoff fc
  pure def points(r: int -> int, i: int, fc: int): List[(int, int)] = {
    val th = uni(r, i, 0, PI / 2)
    val rho = mul(fc, [uni(r, i + 1, 0, dec(2, -1)), uni(r, i + 1, dec(1, -1), dec(6, -1)),
                       uni(r, i + 1, dec(5, -1), dec(9999, -4)), uni(r, i + 1, dec(10001, -4), dec(13, -1))][pick(r, i + 2, 4)])
    val a = mul(rho, cos(th))
    val b = mul(rho, sin(th))
    val ps = [(0, 0), (a, 0), (0, b), (a, b), (-a, b), (a, -b), (-a, -b), (rho, 0), (0, -rho), (b, a)]
    // now and then whole numbers
    if (yes(r, 78, 8)) ps.foldl([], (acc30, p) => acc30.append((p._1 / ONE * ONE, p._2 / ONE * ONE))) else ps
  }
  // and frequencies exactly at multiples of the given ones, where closed forms of sums are 0/0
  pure def special(ps: List[(int, int)], a: int, b: int): List[(int, int)] =
    ps.concat([(a, 0), (0, b), (2 * a, -b), (-a, 2 * b)])
  pure def us(ps: List[(int, int)]): List[int] = ps.foldl([], (acc1, p) => acc1.append(p._1))
  pure def vs(ps: List[(int, int)]): List[int] = ps.foldl([], (acc2, p) => acc2.append(p._2))

  pure def mk(op: str, ps: List[(int, int)], k: str -> int, f: str -> List[int], h: List[int], vanish: bool, radius: int): Case =
    { op: op, k: k, f: merge(f, Map("u" -> us(ps), "v" -> vs(ps))), e: Map("H" -> h),
      ek: Map("vanish" -> (if (vanish) 1 else 0), "bounded" -> radius) }

  pure def apertureCase(r: int -> int): Case = {
    val l = uni(r, 0, dec(35, -8), dec(12, -6))
    val D = logu(r, 1, -2, 1)
    val eta = if (yes(r, 2, 25)) 0 else if (yes(r, 9, 50)) dec(2 * (1 + pick(r, 10, 47)), -2) else uni(r, 3, dec(1, -2), dec(95, -2))
    // among them the ends of the regions of the pupil's autocorrelation
    val fc = div(D, l)
    val inner = mul(fc, ONE - eta) / 2
    val outer = mul(fc, ONE + eta) / 2
    val ps = points(r, 4, fc).slice(0, 7).concat([(inner, 0), (0, -inner), (6 * inner / 10, 8 * inner / 10), (outer, 0), (0, outer),
      (mul(fc, eta), 0), (fc, 0), (-fc, 0)])
    mk("aperture", ps, Map(), Map("lambda" -> [l], "D" -> [D], "eta" -> [eta]), ps.foldl([], (acc3, p) => acc3.append(aperture(p._1, p._2, l, D, eta))), false, 1)
  }
  pure def defocusedCase(r: int -> int): Case = {
    val l = uni(r, 0, dec(35, -8), dec(12, -6))
    val D = logu(r, 1, -2, 1)
    val f = mul(D, if (yes(r, 3, 20)) uni(r, 2, dec(15, -2), ONE) else uni(r, 2, ONE, real(12)))
    val ps = points(r, 4, div(D, l))
    // alpha at the cutoff (its maximum) between 0.05 and 3, or up to 300, either sign of defocus
    val strong = yes(r, 10, 35)
    val amax = if (strong) uni(r, 7, real(3), real([40, 300][pick(r, 11, 2)])) else uni(r, 7, dec(5, -2), real(3))
    val w20 = div(mul(amax, l), 8 * PI)
    val dz = if (yes(r, 8, 15)) 0 else (if (yes(r, 9, 50)) 1 else -1) * mul(2 * w20, ONE + 4 * sq(div(f, D)))
    mk("aperture_defocus", ps, Map(), Map("lambda" -> [l], "D" -> [D], "f" -> [f], "dz" -> [dz]),
      ps.foldl([], (acc4, p) => acc4.append(if (strong and dz != 0) printedDefocus(p._1, p._2, l, D, f, dz)
        else defocusedAperture(p._1, p._2, l, D, f, dz))), false, 1)
  }
  // a detector-like geometry: focal length, pitch, frequencies up to 2.6 / (w/f)
  pure def cteCase(r: int -> int): Case = {
    val f = logu(r, 0, -1, 1)
    val pX = uni(r, 1, dec(2, -6), dec(40, -6))
    val pY = uni(r, 2, dec(2, -6), dec(40, -6))
    val ps = special(points(r, 3, div(2 * f, pX)), div(f, pX), div(f, pY))
    val phases = 1 + pick(r, 6, 4)
    val eff = if (yes(r, 7, 15)) ONE else ONE - logu(r, 7, -6, -3)
    val nX = if (yes(r, 8, 20)) 0 else if (yes(r, 12, 30)) uni(r, 9, 0, real(40)) else real(1 + pick(r, 9, 3000))
    val nY = if (yes(r, 10, 20)) 0 else if (yes(r, 12, 30)) uni(r, 11, 0, real(40)) else real(1 + pick(r, 11, 3000))
    mk("cte", ps, Map("phases" -> phases), Map("p_x" -> [pX], "p_y" -> [pY], "n_x" -> [nX], "n_y" -> [nY], "eff" -> [eff], "f" -> [f]),
      ps.foldl([], (acc5, p) => acc5.append(chargeTransfer(p._1, p._2, pX, pY, nX, nY, phases, eff, f))), eff == ONE or (nX == 0 and nY == 0), 1)
  }
  pure def blurSize(r: int -> int, i: int, scale: int): int =
    if (yes(r, i, 20)) 0 else mul(scale, uni(r, i + 1, dec(2, -2), dec(15, -1)))
  pure def defocusCase(r: int -> int): Case = {
    val fc = logu(r, 0, 3, 6)
    val ps = points(r, 1, fc)
    val wX = blurSize(r, 4, div(ONE, fc))
    val wY = blurSize(r, 6, div(ONE, fc))
    mk("defocus", ps, Map(), Map("w_x" -> [wX], "w_y" -> [wY]), ps.foldl([], (acc6, p) => acc6.append(geomDefocus(p._1, p._2, wX, wY))), wX == 0 and wY == 0, 1)
  }
  pure def detectorCase(r: int -> int): Case = {
    val f = logu(r, 0, -1, 1)
    val fc = logu(r, 1, 4, 6)
    val ps0 = points(r, 2, fc)
    val wX = blurSize(r, 5, div(mul(2 * ONE, f), fc))
    val wY = blurSize(r, 7, div(mul(2 * ONE, f), fc))
    val ps = if (wX == 0 or wY == 0) ps0 else special(ps0, div(f, wX), div(f, wY))
    mk("detector", ps, Map(), Map("w_x" -> [wX], "w_y" -> [wY], "f" -> [f]), ps.foldl([], (acc7, p) => acc7.append(detector(p._1, p._2, wX, wY, f))), wX == 0 and wY == 0, 1)
  }
  pure def aggregationCase(r: int -> int): Case = {
    val f = logu(r, 0, -1, 1)
    val fc = logu(r, 1, 4, 6)
    val ps0 = points(r, 2, fc)
    val n = 1 + pick(r, 5, 5)
    val wX = blurSize(r, 6, div(f, fc))
    val wY = blurSize(r, 8, div(f, fc))
    val pX = mul(div(f, fc), uni(r, 10, dec(1, -1), dec(15, -1)))
    val pY = mul(div(f, fc), uni(r, 11, dec(1, -1), dec(15, -1)))
    val ps = special(ps0, div(f, pX), div(f, pY))
    mk("aggregation", ps, Map("n" -> n), Map("w_x" -> [wX], "w_y" -> [wY], "p_x" -> [pX], "p_y" -> [pY], "f" -> [f]),
      ps.foldl([], (acc8, p) => acc8.append(aggregatedDetector(p._1, p._2, wX, wY, pX, pY, f, n))), n == 1 and wX == 0 and wY == 0, 1)
  }
  pure def diffusionCase(r: int -> int): Case = {
    val f = logu(r, 0, -1, 1)
    val scale = uni(r, 1, dec(1, -6), dec(60, -6))
    val al0 = if (yes(r, 9, 10)) 0 else scale
    val ps = points(r, 2, mul(div(f, scale), uni(r, 5, dec(1, -1), TWO)))
    val alpha = div(uni(r, 6, dec(1, -1), real(6)), scale)
    val ald = mul(scale, if (yes(r, 7, 15) and al0 != 0) 0 else uni(r, 8, dec(1, -2), ONE))
    mk("diffusion", ps, Map(), Map("alpha" -> [alpha], "ald" -> [ald], "al0" -> [al0], "f" -> [f]),
      ps.foldl([], (acc9, p) => acc9.append(diffusion(p._1, p._2, alpha, ald, al0, f))), al0 == 0, 1)
  }
  pure def driftCase(r: int -> int): Case = {
    val fc = logu(r, 0, 3, 6)
    val ps0 = points(r, 1, fc)
    val aX = (if (yes(r, 8, 30)) -1 else 1) * blurSize(r, 4, div(TWO, fc))
    val aY = (if (yes(r, 9, 30)) -1 else 1) * blurSize(r, 6, div(TWO, fc))
    val ps = if (aX == 0 or aY == 0) ps0 else special(ps0, div(ONE, aX), div(ONE, aY))
    mk("drift", ps, Map(), Map("a_x" -> [aX], "a_y" -> [aY]), ps.foldl([], (acc10, p) => acc10.append(drift(p._1, p._2, aX, aY))), aX == 0 and aY == 0, 1)
  }
  pure def gaussianCase(r: int -> int): Case = {
    val fc = logu(r, 0, 3, 6)
    val ps = points(r, 1, fc)
    val bX = blurSize(r, 4, div(ONE, fc))
    val bY = blurSize(r, 6, div(ONE, fc))
    mk("gaussian", ps, Map(), Map("b_x" -> [bX], "b_y" -> [bY]), ps.foldl([], (acc11, p) => acc11.append(gaussian(p._1, p._2, bX, bY))), bX == 0 and bY == 0, 1)
  }
  pure def jitterCase(r: int -> int): Case = {
    val fc = logu(r, 0, 3, 6)
    val ps = points(r, 1, fc)
    val sX = blurSize(r, 4, div(HALF, fc))
    val sY = blurSize(r, 6, div(HALF, fc))
    mk("jitter", ps, Map(), Map("s_x" -> [sX], "s_y" -> [sY]), ps.foldl([], (acc12, p) => acc12.append(jitter(p._1, p._2, sX, sY))), sX == 0 and sY == 0, 1)
  }
  pure def tdiCase(r: int -> int): Case = {
    val f = logu(r, 0, -1, 1)
    val w = uni(r, 1, dec(2, -6), dec(40, -6))
    val ps0 = points(r, 2, mul(div(f, w), uni(r, 5, dec(2, -1), dec(25, -1))))
    val stages = if (yes(r, 12, 15)) 60 + pick(r, 6, 400) else 1 + pick(r, 6, 20)
    val phases = 1 + pick(r, 7, 4)
    val beta = if (yes(r, 8, 15)) ONE else ONE + (if (yes(r, 9, 50)) 1 else -1) * logu(r, 10, -4, -1) / 3
    // the sum of the phases is a geometric series: u w (beta - 1) / (f beta) a whole number
    val pole = if (beta == ONE) div(f, w) else div(mul(f, beta), mul(w, beta - ONE))
    val ps = special(ps0, pole, pole / 2)
    val z = us(ps).foldl([], (acc13, u) => acc13.append(tdi(u, w, stages, phases, beta, f)))
    { op: "tdi", k: Map("phases" -> phases, "stages" -> stages), f: Map("u" -> us(ps), "w" -> [w], "beta" -> [beta], "f" -> [f]),
      e: Map("H" -> z.foldl([], (acc14, x) => acc14.append(x._1)), "Him" -> z.foldl([], (acc15, x) => acc15.append(x._2))), ek: Map("vanish" -> 0, "bounded" -> 1) }
  }
  pure def turbulenceCase(r: int -> int): Case = {
    val l = uni(r, 0, dec(35, -8), dec(12, -6))
    val D = logu(r, 1, -2, 1)
    val r0 = mul(D, logu(r, 2, -2, 2))
    val ps = points(r, 3, mul(div(D, l), if (yes(r, 6, 50)) ONE else min2(ONE, div(r0, D))))
    val alpha = [0, HALF, ONE, uni(r, 7, 0, ONE)][pick(r, 8, 4)]
    mk("turbulence", ps, Map(), Map("lambda" -> [l], "D" -> [D], "r0" -> [r0], "alpha" -> [alpha]),
      ps.foldl([], (acc16, p) => acc16.append(turbulence(p._1, p._2, l, D, r0, alpha))), false, if (alpha <= HALF) 1 else 0)
  }
  pure def wavefrontCase(r: int -> int): Case = {
    val l = uni(r, 0, dec(35, -8), dec(12, -6))
    val D = logu(r, 1, -2, 1)
    val ps = points(r, 2, div(D, l))
    val pv = if (yes(r, 5, 15)) 0 else uni(r, 6, dec(1, -2), real(4))
    val lX = mul(D, uni(r, 7, dec(2, -1), TWO))
    val lY = mul(D, uni(r, 8, dec(2, -1), TWO))
    mk("wavefront", ps, Map(), Map("lambda" -> [l], "pv" -> [pv], "L_x" -> [lX], "L_y" -> [lY]),
      ps.foldl([], (acc17, p) => acc17.append(wavefront(p._1, p._2, l, pv, lX, lY))), pv == 0, 1)
  }
  pure def wavefront2Case(r: int -> int): Case = {
    val fc = logu(r, 0, 3, 6)
    // inside the cutoff, where the approximation is defined
    val ps = (points(r, 1, fc)).foldl([], (acc18, p) => acc18.append((p._1 * 3 / 4, p._2 * 3 / 4)))
    // up to where the approximation itself falls below -1
    val rms = if (yes(r, 4, 15)) 0 else uni(r, 5, dec(1, -3), if (yes(r, 6, 60)) dec(12, -2) else dec(25, -2))
    mk("wavefront_2", ps, Map(), Map("cutoff" -> [fc], "rms" -> [rms]), ps.foldl([], (acc19, p) => acc19.append(wavefront2(p._1, p._2, fc, rms))), rms == 0, 1)
  }
  pure val N = 14
  pure def component(r: int -> int, j: int): Case =
    if (j == 0) apertureCase(r) else if (j == 1) defocusedCase(r) else if (j == 2) cteCase(r)
    else if (j == 3) defocusCase(r) else if (j == 4) detectorCase(r) else if (j == 5) aggregationCase(r)
    else if (j == 6) diffusionCase(r) else if (j == 7) driftCase(r) else if (j == 8) gaussianCase(r)
    else if (j == 9) jitterCase(r) else if (j == 10) tdiCase(r) else if (j == 11) turbulenceCase(r)
    else if (j == 12) wavefrontCase(r) else wavefront2Case(r)
  // aperture cases (several regimes) twice as often
  action stepComponent = { nondet r = RV.oneOf() c' = component(r, max2(0, pick(r, 79, N + 2) - 2)) }

  // laws: 1 at zero frequency; at most 1; even in both axes; 1 when the blur vanishes
  pure val TINY = 10^20
  val lawDC = c.op != "none" implies near(c.e.get("H")[0], ONE, TINY)
  val lawBounded = (c.op != "none" and c.ek.get("bounded") == 1) implies
    (range(0, c.e.get("H").length())).foldl(true, (acc20, i) => acc20 and ({
      val im = if (c.e.keys().contains("Him")) c.e.get("Him")[i] else 0
      sq(c.e.get("H")[i]) + sq(im) <= ONE + TINY or c.op == "wavefront_2" }))
  val lawEven = (c.op != "none" and c.op != "tdi") implies and {
    c.e.get("H")[3] == c.e.get("H")[4], c.e.get("H")[3] == c.e.get("H")[5], c.e.get("H")[3] == c.e.get("H")[6] }
  val lawVanish = (c.op != "none" and c.ek.get("vanish") == 1) implies c.e.get("H").foldl(true, (acc21, h) => acc21 and (near(h, ONE, TINY)))

  action init = c' = NOCASE
}
