// Whole evaluations: a sensor, a scenario and the database records it needs, with
// everything a NIIRS evaluation must report (C18).
module chain {
  import fx.* from "./fx"
  import cases.* from "./cases"
  import otfs.* from "./otfs"
  import analytic.* from "./analytic"
  import turbulence.* from "./turbulence"
  import camera.* from "./camera"
  import radiometry.* from "./radiometry"
  import system.* from "./system"
  import catalogue.* from "./catalogue"

  // ------------------------------------------------------ place and records
  type Site = { interp: bool, haze: int, alt: int, ground: int, recs: List[int], wa: int, wg: int }
  pure def metres(mm: int): int = dec(mm, -3)
  pure def genSite(r: int -> int, i: int): Site = {
    val haze = 1 + pick(r, i, 2)
    val ip = yes(r, i + 1, 40)
    val a = if (ip) pick(r, i + 2, 21) else if (yes(r, i + 1, 46)) 23 else pick(r, i + 2, 23)
    val g = pick(r, i + 3, if (ip) COUNT[a] - 1 else COUNT[a])
    if (ip) {
      val wa = dec(1 + r.get(i + 4) % 999, -3)
      val wg = dec(1 + r.get(i + 5) % 999, -3)
      { interp: true, haze: haze, alt: metres(ALT[a]) + mul(wa, metres(ALT[a + 1] - ALT[a])),
        ground: metres(RANGE(g)) + mul(wg, metres(RANGE(g + 1) - RANGE(g))),
        recs: [record(haze, a, g), record(haze, a + 1, g), record(haze, a, g + 1), record(haze, a + 1, g + 1)], wa: wa, wg: wg }
    } else
      { interp: false, haze: haze, alt: metres(ALT[a]), ground: metres(RANGE(g)), recs: [record(haze, a, g)], wa: 0, wg: 0 }
  }
  // a scene at a site; from orbit only without turbulence, whose layers the path's steps are then too long for
  pure def onSite(sc: Scene, s: Site): Scene =
    { ...sc, haze: s.haze, altitude: s.alt, ground: s.ground, cn2: if (s.alt > real(50000)) 0 else sc.cn2 }
  // file contents of a row: every record holds the same spectrum times its own eighths
  pure def eighths(rec: int, haze: int): int = 4 + (rec * 7 + haze) % 5
  pure def mixed(s: Site): int =
    if (s.interp) {
      val m = s.recs.foldl([], (l, q) => l.append(real(eighths(q, s.haze)) / 8))
      mul(ONE - s.wg, mul(ONE - s.wa, m[0]) + mul(s.wa, m[1])) + mul(s.wg, mul(ONE - s.wa, m[2]) + mul(s.wa, m[3]))
    } else real(eighths(s.recs[0], s.haze)) / 8
  // rows first .. first+n-1 of the base spectrum, in file units
  pure def column(r: int -> int, i: int, n: int): List[int] =
    values(r, i, n, real(200), real(60000)).foldl([], (l, x) => l.append(floorR(x) * ONE / 2^24))
  pure def genSpectrum(r: int -> int, i: int, first: int, n: int): Atm = {
    { w: range(0, n).foldl([], (l, j) => l.append(dec(30 + first + j, -8))),
      trans: values(r, i + 5, n, real(60), real(1020)).foldl([], (l, x) => l.append(floorR(x) * ONE / 1024)),
      path: column(r, i, n), surf: column(r, i + 1, n), sol: column(r, i + 2, n), grnd: column(r, i + 3, n) }
  }
  pure def times(m: int, xs: List[int]): List[int] = xs.foldl([], (l, x) => l.append(mul(m, x)))
  // what a lookup at the site returns for these rows
  pure def seen(a: Atm, s: Site): Atm = {
    val m = mixed(s)
    { w: a.w, trans: times(m, a.trans), path: times(m * 10^10, a.path), surf: times(m * 10^10, a.surf),
      sol: times(m * 10^10, a.sol), grnd: times(m * 10^10, a.grnd) }
  }
  pure def siteK(s: Site, first: int): str -> int = {
    val q = if (s.interp) s.recs else [s.recs[0], 0, 0, 0]
    Map("interp" -> (if (s.interp) 1 else 0), "first" -> first, "r0" -> q[0], "r1" -> q[1], "r2" -> q[2], "r3" -> q[3],
        "m0" -> eighths(q[0], s.haze), "m1" -> eighths(q[1], s.haze), "m2" -> eighths(q[2], s.haze), "m3" -> eighths(q[3], s.haze))
  }

  // the sensor's band around rows first .. first+n-1, its limits between rows
  pure def genBandSensor(r: int -> int, i: int, first: int, n: int, exact: bool): Sensor = {
    val lo = if (exact) dec(29, -7) else dec(30 + first, -8) - uni(r, i + 35, dec(1, -10), dec(99, -10))
    val hi = dec(29 + first + n, -8) + uni(r, i + 36, dec(1, -10), dec(99, -10))
    val s = withBlur(genSensor(r, i, lo, hi), r, i + 37)
    // sometimes no response at the short end
    if (yes(r, i + 46, 25)) { val k = s.qeW.length()
      { ...s, qeW: knots(r, i + 6, k, dec(30 + first, -8) + dec(3, -9), hi + (hi - lo) / 9) } }
    // or next to none at one end
    else if (yes(r, i + 46, 45)) { val weak = logu(r, i + 47, -11, -3)
      if (yes(r, i + 48, 50)) { ...s, qe: s.qe.replaceAt(0, weak), bandT: s.bandT.replaceAt(0, weak) }
      else { ...s, qe: s.qe.replaceAt(s.qe.length() - 1, weak), bandT: s.bandT.replaceAt(s.bandT.length() - 1, weak) } }
    else s
  }

  // ----------------------------------------------------------- the evaluation
  pure def giqePair(a: Atm, hot: bool): (List[int], List[int]) =
    (sceneRadiance(a, if (hot) 0 else dec(15, -2), real(282)), sceneRadiance(a, if (hot) 0 else dec(7, -2), real(280)))
  // photon noise of the scene alone and of the path alone (squared)
  pure def photons(s: Sensor, ws: List[int], E: List[int], qe: List[int], time: int): int =
    mul3(trapz(range(0, ws.length()).foldl([], (l, i) => l.append(detection(E[i], s.wX, s.wY, ws[i], qe[i]))), ws), time, s.nTdi)

  // seven positions of the 101 x 101 frequency grid
  pure def somewhere(r: int -> int): List[(int, int)] =
    [(50, 50), (50, 51), (49, 50), (pick(r, 75, 101), pick(r, 76, 101)), (pick(r, 76, 50), pick(r, 77, 101)), (pick(r, 77, 101), 50 + pick(r, 78, 30)), (20 + pick(r, 75, 60), 20 + pick(r, 78, 60))]
  pure def isHot(s: Sensor): bool = s.bandW[0] >= dec(29, -7)

  // everything an evaluation reports that follows from the sensor, the scene and the band's atmosphere `a`
  pure def evaluation(s: Sensor, sc: Scene, a: Atm, at: List[(int, int)]): (str -> List[int], str -> int) = {
    val n = a.w.length()
    val rad = giqePair(a, isHot(s))
    val q = contrastSnr(s, a.w, rad._1, rad._2)
    val lit = range(0, n).foldl([], (l, i) => if (q.weights[i] > 0) l.append(i) else l)
    val wl = lit.foldl([], (l, i) => l.append(a.w[i]))
    val ws = lit.foldl([], (l, i) => l.append(q.weights[i]))
    val sceneAll = max2(photons(s, a.w, range(0, n).foldl([], (l, i) => l.append(q.tgtE[i] - q.other[i])), q.qe, q.intTime),
                        photons(s, a.w, range(0, n).foldl([], (l, i) => l.append(q.bkgE[i] - q.other[i])), q.qe, q.intTime))
    val pathOnly = photons(s, a.w, range(0, n).foldl([], (l, i) => l.append(mul(q.optTrans[i], irradiance(s.D, s.f, a.path[i] + a.sol[i])))), q.qe, q.intTime)
    val slant = slantRange(0, sc.altitude, sc.ground)
    val cutoff = div(s.D, minl(wl))
    val ps = at.foldl([], (l, p) => l.append((mul(cutoff, dec(2 * (p._2 - 50), -2)), mul(cutoff, dec(2 * (50 - p._1), -2)))))
    val r1 = pathFried(sc, slant)
    val e1 = Map("atm_w" -> a.w, "atm_1" -> a.trans, "atm_2" -> a.path, "atm_3" -> a.surf, "atm_4" -> a.sol, "atm_5" -> a.grnd,
           "tgt_radiance" -> rad._1, "bkg_radiance" -> rad._2, "path_squared" -> [pathOnly], "scene_squared" -> [sceneAll - pathOnly],
           "mtf_wavelengths" -> wl, "mtf_weights" -> ws, "cutoff" -> [cutoff], "df" -> [cutoff / 50], "slant" -> [slant],
           "ifov_x" -> [div(s.pX, s.f)], "ifov_y" -> [div(s.pY, s.f)], "ng" -> [noiseGain(kernelOf(s))],
           "row" -> at.foldl([], (l, p) => l.append(real(p._1))), "col" -> at.foldl([], (l, p) => l.append(real(p._2))),
           "u" -> ps.foldl([], (l, p) => l.append(p._1)), "v" -> ps.foldl([], (l, p) => l.append(p._2)))
    val e2 = Map("ap" -> ps.foldl([], (l, p) => l.append(apertureBand(s, wl, ws, p._1, p._2))),
           "det" -> ps.foldl([], (l, p) => l.append(detector(p._1, p._2, s.wX, s.wY, s.f))),
           "jit" -> ps.foldl([], (l, p) => l.append(jitter(p._1, p._2, s.sX, s.sY))),
           "drft" -> ps.foldl([], (l, p) => l.append(driftOf(s, q.intTime, p._1, p._2))),
           "wav" -> ps.foldl([], (l, p) => l.append(wavefrontBand(s, wl, ws, p._1, p._2))),
           "turb" -> ps.foldl([], (l, p) => l.append(turbulenceBand(s, sc, wl, ws, r1, q.intTime, p._1, p._2))),
           "low" -> ps.foldl([], (l, p) => l.append(minl(filterAround(s, p._1, p._2)))),
           "high" -> ps.foldl([], (l, p) => l.append(maxl(filterAround(s, p._1, p._2)))))
    (merge(snrE(q), merge(e1, e2)), Map("filter" -> (if (isFilter(s)) 1 else 0), "turbulent" -> (if (sc.cn2 == 0) 0 else 1), "lit" -> lit.length()))
  }

  pure def chainCase(r: int -> int): Case = {
    // a few bands wider than five micrometres
    val wide = yes(r, 74, 3)
    // half of them from below 2.9 um far into the thermal band, without sun: the
    // warmer but less emissive target is the darker one
    val dusk = wide and yes(r, 5, 50)
    val n = if (wide) 510 + pick(r, 0, 120) else 3 + pick(r, 0, 3)
    val kind = if (wide) 8 else pick(r, 1, 9)
    // visible, near infrared, the rows around 2.9 um, thermal
    val first = if (dusk) 200 + pick(r, 2, 60) else if (kind <= 3) 8 + pick(r, 2, 50) else if (kind == 4) 70 + pick(r, 2, 180) else if (kind == 5) 260
      else if (kind == 6) 261 - n + pick(r, 2, n + 1) else 262 + pick(r, 2, if (wide) 400 else 900)
    val exact = kind == 5
    val site = genSite(r, 3)
    val s0 = genBandSensor(r, 9, first, n, exact)
    val a1 = genSpectrum(r, 56, first, n)
    val a0 = if (dusk) { ...a1, grnd: replicate(n, 0) } else a1
    val a = seen(a0, site)
    val rad = giqePair(a, isHot(s0))
    val sc0 = genScene(r, 62)
    val sc = onSite(sc0, site)
    // exposure from far below to far above the limit
    val free = contrastSnr({ ...s0, maxN: real(10^40), maxFill: ONE }, a.w, rad._1, rad._2)
    val k = [dec(2, -2), dec(5, -1), dec(15, -1), dec(30, 0)][pick(r, 70, 4)]
    val s = { ...s0, maxN: div(div(max2(free.tgtN, free.bkgN), k), s0.maxFill), kernel: if (yes(r, 71, 60)) [[ONE]] else genKernel(r, 72) }
    val v = evaluation(s, sc, a, somewhere(r))
    { op: "chain", k: merge(merge(merge(sensorK(s), sceneK(sc)), siteK(site, first)), Map("emissive" -> (if (isHot(s)) 1 else 0), "exact" -> (if (exact) 1 else 0), "dusk" -> (if (dusk) 1 else 0))),
      f: merge(merge(sensorF(s), sceneF(sc)), Map("base_1" -> a0.trans, "base_2" -> a0.path, "base_3" -> a0.surf, "base_4" -> a0.sol, "base_5" -> a0.grnd,
           "target_reflectance" -> [uni(r, 70, 0, ONE)], "target_temperature" -> [if (yes(r, 74, 12)) real(282) else uni(r, 71, real(270), real(310))],
           "background_reflectance" -> [uni(r, 72, 0, ONE)], "background_temperature" -> [if (yes(r, 75, 12)) real(280) else uni(r, 73, real(270), real(310))])),
      e: v._1, ek: v._2 }
  }
}
