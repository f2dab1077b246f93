// Generator machines for the radiometric chain: every step is one call of the
// implementation with the outcome the specification prescribes.
module gen_radiometry {
  import fx.* from "./fx"
  import cases.* from "./cases"
  import camera.* from "./camera"
  import radiometry.* from "./radiometry"

  var c: Case

  pure def band(r: int -> int, i: int): (int, int) =
    if (yes(r, i, 60)) { val lo = uni(r, i + 1, dec(35, -8), dec(9, -7)) (lo, lo + uni(r, i + 2, dec(5, -8), dec(4, -7))) }
    else { val lo = uni(r, i + 1, dec(29, -7), dec(11, -6)) (lo, lo + uni(r, i + 2, dec(5, -7), dec(25, -7))) }
  pure def grid(r: int -> int, i: int, n: int, lo: int, hi: int): List[int] = knots(r, i, n, lo, hi)

  // ------------------------------------------------ contrast SNR (C05, C06)
  pure def snrCase(r: int -> int): Case = {
    val b = band(r, 40)
    val s0 = genSensor(r, 0, b._1, b._2)
    val n = 3 + pick(r, 43, 5)
    // radiance samples inside the band, or reaching slightly outside it
    val over = if (yes(r, 44, 30)) (b._2 - b._1) / 10 else -(b._2 - b._1) / 50
    val ws = grid(r, 45, n, b._1 - over, b._2 + over)
    val hot = yes(r, 50, 50)
    val base = values(r, 51, n, real(10^4), real(10^7))
    val more = (values(r, 54, n, real(10^3), real(10^7))).foldl([], (acc1, x) => acc1.append(if (yes(r, 57, 10)) 0 else x))
    val brighter = range(0, n).foldl([], (acc2, i) => acc2.append(base[i] + more[i]))
    val tgt = if (hot) brighter else base
    val bkg = if (hot) base else brighter
    val free = contrastSnr({ ...s0, maxN: real(10^40), maxFill: ONE }, ws, tgt, bkg)
    val n0 = max2(free.tgtN, free.bkgN)
    // position of the exposure relative to the limit
    val k = [dec(2, -2), dec(5, -1), dec(999999, -6), dec(1000001, -6), dec(11, -1), dec(4, 0), dec(60, 0), real(10^12), dec(1, -9)][pick(r, 58, 9)]
    val s = { ...s0, maxN: div(div(n0, k), s0.maxFill) }
    val q = contrastSnr(s, ws, tgt, bkg)
    { op: "snr", k: sensorK(s), f: merge(sensorF(s), Map("radiance_wavelengths" -> ws, "target_radiance" -> tgt, "background_radiance" -> bkg)),
      e: snrE(q), ek: Map("saturated" -> if (k > ONE) 1 else 0) }
  }
  // the exposure factor by itself, for every count and limit: neither has to fit a camera
  pure def fillCase(r: int -> int): Case = {
    val limit = if (yes(r, 1, 10)) 0 else logu(r, 2, -6, 18)
    val n = if (yes(r, 3, 10)) 0 else if (yes(r, 4, 20)) limit else if (yes(r, 5, 40)) mul(limit, ONE + [dec(1, -9), dec(-1, -9), dec(1, -3), dec(-1, -3), ONE][pick(r, 6, 5)]) else logu(r, 7, -6, 18)
    { op: "fill", k: Map(), f: Map("count" -> [n], "limit" -> [limit]), e: Map("factor" -> [wellScale(n, limit)]), ek: Map() }
  }
  action stepSnr = { nondet r = RV.oneOf() c' = snrCase(r) }
  action stepExposure = { nondet r = RV.oneOf() c' = if (yes(r, 77, 6)) fillCase(r) else snrCase(r) }
  // laws of the exposure control and the noise budget, on every generated case
  pure def g(m: str -> List[int], key: str): int = m.get(key)[0]
  val lawFill = c.op == "fill" implies and {
    g(c.e, "factor") <= ONE,
    g(c.e, "factor") >= 0,
    g(c.f, "count") <= g(c.f, "limit") implies g(c.e, "factor") == ONE,
    near(mul(g(c.e, "factor"), g(c.f, "count")), min2(g(c.f, "count"), g(c.f, "limit")), 10^20 + g(c.f, "count") / 10^40)
  }
  val lawExposure = c.op == "snr" implies and {
    // never above the limit; exactly on it when cut back; untouched otherwise
    max2(g(c.e, "tgt_n"), g(c.e, "bkg_n")) <= mul(g(c.f, "max_well_fill"), g(c.f, "max_n")) + 10^12 * (1 + abs(g(c.e, "tgt_n")) / 10^30),
    c.ek.get("saturated") == 1 implies near(div(g(c.e, "well_fraction"), g(c.f, "max_well_fill")), ONE, 10^25),
    c.ek.get("saturated") == 0 implies g(c.e, "int_time") == g(c.f, "int_time"),
    g(c.e, "int_time") <= g(c.f, "int_time"),
    // the reported counts are the reported rates over the reported time
    near(g(c.e, "tgt_n"), mul3(g(c.e, "tgt_n_rate"), g(c.e, "int_time"), g(c.f, "n_tdi")), 10^30 + abs(g(c.e, "tgt_n")) / 10^25),
    near(sq(g(c.e, "dark_current_noise")), mul3(g(c.f, "dark_current"), g(c.e, "int_time"), g(c.f, "n_tdi")), 10^30)
  }
  val lawSnr = c.op == "snr" implies and {
    (g(c.e, "snr") < 0) == (g(c.e, "tgt_n") < g(c.e, "bkg_n") and g(c.e, "snr") != 0),
    g(c.e, "total_noise") >= g(c.e, "quantization_noise"),
    g(c.e, "total_noise") >= g(c.f, "read_noise"),
    g(c.e, "total_noise") >= g(c.e, "signal_noise") - 1
  }

  // ------------------------------------- reflectance to photoelectrons (C07)
  pure def curveCase(r: int -> int): Case = {
    val b = band(r, 40)
    val sa = genSensor(r, 0, b._1, b._2)
    // now and then a detector that sees nothing of the shorter wavelengths
    val s0 = if (sa.qe.length() < 4 or not(yes(r, 70, 40))) sa
      else { ...sa, qe: sa.qe.foldl([], (dead, q) => dead.append(if (dead.length() < sa.qe.length() - 2) 0 else q)) }
    val nIn = 3 + pick(r, 43, 5)
    val wd = (b._2 - b._1) / 23
    // rows outside the band on both sides, rows inside; the rows at either end
    // of the band may lie exactly on its limits
    val first = if (yes(r, 71, 30)) s0.bandW[0] else b._1 + wd
    val end = if (yes(r, 72, 30)) last(s0.bandW) else b._2 - wd
    val ws = grid(r, 61, 1 + pick(r, 44, 3) + 1, b._1 - 9 * wd, b._1 - wd)
      .concat(if (yes(r, 73, 8) and s0.dark > 0 and resample((first + end) / 2, s0.qeW, s0.qe) > dec(1, -3)) [(first + end) / 2] else grid(r, 45, nIn, first, end)).concat(grid(r, 64, 1 + pick(r, 48, 3) + 1, b._2 + wd, b._2 + 9 * wd))
    // (a single row inside has no width: only the dark current is left)
    // in the thermal band a black target may outshine a white one
    val cool = yes(r, 68, 50)
    val a1 = genAtm(r, 49, ws)
    val a = if (cool) { ...a1, sol: a1.sol.foldl([], (cool1, x) => cool1.append(x / 50)), grnd: a1.grnd.foldl([], (cool2, x) => cool2.append(x / 50)) } else a1
    val T = if (yes(r, 57, 30)) real(300) else uni(r, 58, real(230), real(420))
    val time = if (yes(r, 59, 30)) s0.intTime else logu(r, 60, -5, -1)
    val free = reflCurve(a, { ...s0, maxN: real(10^40) }, time, T)
    val k = [dec(2, -2), dec(5, -1), dec(999999, -6), dec(1000001, -6), dec(11, -1), dec(4, 0), dec(60, 0), real(10^12), dec(1, -9)][pick(r, 67, 9)]
    val s = { ...s0, maxN: div(maxl(free.pe), k) }
    val q = reflCurve(a, s, time, T)
    { op: "curve", k: sensorK(s).put("default_temp", if (T == real(300)) 1 else 0),
      f: merge(sensorF(s), merge(atmF(a), Map("time" -> [time], "temp" -> [T]))),
      e: Map("ref" -> q.ref, "pe" -> q.pe, "wavelengths" -> q.w, "weights" -> q.weights),
      ek: Map("saturated" -> if (k > ONE) 1 else 0) }
  }
  action stepCurve = { nondet r = RV.oneOf() c' = curveCase(r) }
  val lawCurve = c.op == "curve" implies and {
    near(maxl(c.e.get("weights")), ONE, 10^20),
    maxl(c.e.get("pe")) <= g(c.f, "max_n") + g(c.f, "max_n") / 10^30 + 1,
    c.ek.get("saturated") == 1 implies near(div(maxl(c.e.get("pe")), g(c.f, "max_n")), ONE, 10^25),
    c.e.get("wavelengths").length() > 0
  }

  // ------------------------------------------------- radiometric chain (C08)
  pure def planckCase(r: int -> int): Case = {
    val n = 1 + pick(r, 0, 6)
    // some beyond any sensor: the long-wave limit of Planck's law
    val far = yes(r, 7, 20)
    val T = if (far) uni(r, 1, real(3000), real(20000)) else uni(r, 1, real(150), real(6500))
    // keep h c / (lambda k T) below about 100 so that doubles do not overflow
    val lo = max2(if (far) dec(3, -5) else dec(3, -7), div(RAD2, 100 * T) / 10^6)
    val ws = knots(r, 2, n + 1, lo, lo + (if (far) uni(r, 6, dec(1, -5), dec(1, -3)) else uni(r, 6, dec(1, -7), dec(14, -6))))
    { op: "blackbody", k: Map(), f: Map("w" -> ws, "T" -> [T]), e: Map("L" -> ws.foldl([], (acc3, l) => acc3.append(blackbody(l, T)))), ek: Map() }
  }
  pure def emissionCase(r: int -> int): Case = {
    val n = 2 + pick(r, 0, 5)
    val ws = knots(r, 2, n, dec(2, -6), dec(14, -6))
    val T1 = uni(r, 6, real(90), real(340))
    val em = if (yes(r, 7, 15)) 0 else uni(r, 8, dec(1, -2), ONE)
    val tr = if (yes(r, 20, 25)) logu(r, 9, -8, -1) else if (yes(r, 20, 30)) [0, ONE][pick(r, 9, 2)] else uni(r, 9, dec(1, -1), ONE)
    val D = logu(r, 10, -3, 1)
    val f = mul(D, logu(r, 11, -1, 2))
    val L = values(r, 12, n, 0, real(10^7))
    { op: "emission", k: Map(),
      f: Map("w" -> ws, "T" -> [T1], "em" -> [em], "tr" -> [tr], "D" -> [D], "f" -> [f], "L" -> L),
      e: Map("irradiance" -> L.foldl([], (acc4, x) => acc4.append(irradiance(D, f, x))),
             "coldshield" -> ws.foldl([], (acc5, l) => acc5.append(coldShield(l, T1, D, f))),
             "coldstop" -> ws.foldl([], (acc6, l) => acc6.append(coldStop(l, T1, em, D, f))),
             "optics" -> ws.foldl([], (acc7, l) => acc7.append(opticsEmission(l, T1, em, tr, D, f)))), ek: Map() }
  }
  pure def integratedCase(r: int -> int): Case = {
    val D = logu(r, 10, -3, 1)
    val f = mul(D, logu(r, 11, -1, 2))
    val l = uni(r, 1, dec(3, -6), dec(12, -6))
    val dl = uni(r, 2, dec(1, -9), dec(1, -6))
    val T = uni(r, 3, real(150), real(350))
    val t = if (yes(r, 13, 10)) 0 else if (yes(r, 13, 20)) ONE else uni(r, 4, 0, ONE)
    val em = if (yes(r, 14, 10)) 0 else if (yes(r, 14, 20)) ONE else uni(r, 5, 0, ONE)
    val L = values(r, 6, 3, 0, real(100))
    val Ls = if (yes(r, 9, 25)) 0 else uni(r, 12, 0, real(10))
    { op: "integrated", k: Map(), f: Map("L" -> L, "Ls" -> [Ls], "t" -> [t], "em" -> [em], "w" -> [l], "dl" -> [dl], "T" -> [T], "D" -> [D], "f" -> [f]),
      e: Map("E" -> L.foldl([], (acc8, x) => acc8.append(irradiance(D, f, mul(t, x) + mul3(em, blackbody(l, T), dl) + Ls)))), ek: Map() }
  }
  pure def detectionCase(r: int -> int): Case = {
    val n = 2 + pick(r, 0, 7)
    val ws = knots(r, 2, n, dec(4, -7), dec(8, -7) + uni(r, 6, 0, dec(12, -6)))
    val tr = values(r, 7, n, 0, ONE)
    val qe = values(r, 10, n, 0, ONE)
    val D = logu(r, 13, -3, 1)
    val f = mul(D, logu(r, 14, -1, 2))
    val wX = logu(r, 15, -6, -4)
    val wY = logu(r, 16, -6, -4)
    val L = if (yes(r, 26, 20)) replicate(n, 0) else values(r, 17, n, 0, real(10^7))
    val other = if (yes(r, 20, 25)) replicate(n, 0) else values(r, 21, n, 0, real(10^4))
    val dark = if (yes(r, 24, 25)) 0 else logu(r, 25, 0, 7)
    val q = signalRate(ws, L, tr, D, f, wX, wY, qe, other, dark)
    { op: "detection", k: Map(),
      f: Map("w" -> ws, "tr" -> tr, "qe" -> qe, "D" -> [D], "f" -> [f], "w_x" -> [wX], "w_y" -> [wY], "L" -> L, "other" -> other, "dark" -> [dark]),
      e: Map("rate" -> [q.rate], "E" -> q.E, "dN" -> q.dN), ek: Map() }
  }
  pure def sceneCase(r: int -> int): Case = {
    val n = 2 + pick(r, 0, 6)
    val ir = yes(r, 1, 50)
    val ws = if (ir) knots(r, 2, n, dec(3, -6), dec(13, -6)) else knots(r, 2, n, dec(8, -7), dec(3, -6))
    // thermal and solar columns of comparable size, so that every column counts
    val a0 = genAtm(r, 6, ws)
    val a = { ...a0, sol: values(r, 14, n, 0, real(10^6)), grnd: values(r, 17, n, 0, real(10^6)) }
    val refl = [0, dec(7, -2), dec(15, -2), ONE, uni(r, 20, 0, ONE), uni(r, 20, ONE, TWO)][pick(r, 21, 6)]
    val T = uni(r, 22, real(240), real(700))
    { op: "scene", k: Map(), f: merge(atmF(a), Map("refl" -> [refl], "T" -> [T])),
      e: Map("L" -> sceneRadiance(a, refl, T),
             "giqe_t0" -> sceneRadiance(a, dec(15, -2), real(282)), "giqe_b0" -> sceneRadiance(a, dec(7, -2), real(280)),
             "giqe_t1" -> sceneRadiance(a, 0, real(282)), "giqe_b1" -> sceneRadiance(a, 0, real(280))), ek: Map() }
  }
  action stepChain = { nondet r = RV.oneOf()
    c' = [planckCase(r), emissionCase(r), integratedCase(r), detectionCase(r), sceneCase(r)][pick(r, 79, 5)] }
  val lawChain = and {
    // Planck's law decreases beyond its maximum and vanishes nowhere
    c.op == "blackbody" implies c.e.get("L").foldl(true, (acc9, x) => acc9 and (x >= 0)),
    // cold shield and aperture together fill the hemisphere (equal temperature, unit emissivity)
    c.op == "emission" implies (range(0, c.f.get("w").length()).foldl([], (acc10, i) => acc10.append(c.e.get("coldshield")[i] + irradiance(g(c.f, "D"), g(c.f, "f"), blackbody(c.f.get("w")[i], g(c.f, "T")))
        - mul(PI, blackbody(c.f.get("w")[i], g(c.f, "T")))))).foldl(true, (acc11, x) => acc11 and (abs(x) <= 10^30)),
    // no emission without emissivity
    (c.op == "emission" and g(c.f, "em") == 0) implies
      (c.e.get("coldstop").foldl(true, (acc12, x) => acc12 and (x == 0)) and c.e.get("optics").foldl(true, (acc13, x) => acc13 and (x == 0))),
    // dark current enters once
    c.op == "detection" implies g(c.e, "rate") >= g(c.f, "dark")
  }

  // ---------------------------------------------- spectral resampling (C25)
  pure def resampleCase(r: int -> int): Case = {
    val long = yes(r, 22, 4)
    // among them tables with a single entry
    val n = if (long) 60 + pick(r, 0, 240) else if (yes(r, 24, 4)) 1 else 2 + pick(r, 0, 6)
    val lo = uni(r, 1, dec(3, -7), dec(2, -6))
    val hi = if (n == 1) lo else lo + uni(r, 2, dec(5, -8), dec(5, -6))
    val ws = if (n == 1) [lo] else knots(r, 3, n, lo, hi)
    val vs = if (yes(r, 10, 10)) values(r, 7, n, -real(3), real(200)) else values(r, 7, n, if (yes(r, 10, 30)) -ONE else dec(1, -1), dec(2, 0))
    val ulp = hi / 10^12
    val xs0 = [lo, hi, lo - ulp, hi + ulp, lo + ulp, hi - ulp, lo / 2, 2 * hi].concat(if (long) [ws[1], ws[n / 3], ws[n - 2]] else ws)
      .concat(values(r, 11, if (long) 40 else 6, lo, hi)).concat(values(r, 14, 2, hi, 3 * hi))
    // requested wavelengths in increasing, decreasing or scrambled order
    val m = xs0.length()
    val xs = if (yes(r, 20, 30)) sortl(xs0) else range(0, m).foldl([], (acc14, i) => acc14.append(xs0[(i * 7 + pick(r, 21, m)) % m]))
    { op: "resample", k: Map("ask" -> pick(r, 23, 4)), f: Map("w" -> ws, "v" -> vs, "x" -> xs),
      e: Map("y" -> xs.foldl([], (acc15, x) => acc15.append(resample(x, ws, vs)))), ek: Map() }
  }
  action stepResample = { nondet r = RV.oneOf() c' = resampleCase(r) }
  val lawResample = c.op == "resample" implies (range(0, c.f.get("x").length())).foldl(true, (acc16, i) => acc16 and ({
    val x = c.f.get("x")[i]
    val y = c.e.get("y")[i]
    if (x < c.f.get("w")[0] or x > last(c.f.get("w"))) y == 0
    else y <= maxl(c.f.get("v")) and y >= minl(c.f.get("v"))
  }))

  action init = c' = NOCASE
}
