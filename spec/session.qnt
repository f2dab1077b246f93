// A working session (C04): shared sensor and scenario objects whose settings change between
// evaluations, in any order.  The specification's evaluations are functions of the current
// settings only; the settings change only where the session changes them, except that a NIIRS
// evaluation overrides the scenario's target and background.
module session {
  import fx.* from "./fx"
  import cases.* from "./cases"
  import analytic.* from "./analytic"
  import camera.* from "./camera"
  import radiometry.* from "./radiometry"
  import system.* from "./system"
  import chain.* from "./chain"
  import catalogue.* from "./catalogue"

  // two altitudes by two ranges by two hazes, their records, and the spectrum of rows first .. first+7
  type World = { first: int, alts: List[int], grounds: List[int], a: List[int], g: List[int], base: Atm }
  // target and background: reflectance, temperature, reflectance, temperature
  type Look = List[int]

  var w: World
  var s: Sensor
  var sc: Scene
  var look: Look
  var c: Case

  pure val ROWS = 8
  pure def recordAt(q: World, haze: int, i: int, j: int): int = record(haze, q.a[i], q.g[j])
  pure def indexOf(xs: List[int], x: int): int = if (xs[0] == x) 0 else 1
  pure def hereRecord(q: World, p: Scene): int = recordAt(q, p.haze, indexOf(q.alts, p.altitude), indexOf(q.grounds, p.ground))
  // the scenario's atmosphere on those rows
  pure def atmosphere(q: World, p: Scene): Atm =
    seen(q.base, { interp: false, haze: p.haze, alt: p.altitude, ground: p.ground, recs: [hereRecord(q, p)], wa: 0, wg: 0 })

  pure def genWorld(r: int -> int): World = {
    val hot = pick(r, 0, 3) == 0
    val first = if (hot) 262 + pick(r, 1, 900) else 8 + pick(r, 1, 150)
    val i = pick(r, 2, 22)
    val j = pick(r, 3, 6)
    { first: first, alts: [metres(ALT[i]), metres(ALT[i + 1])], grounds: [metres(RANGE(j)), metres(RANGE(j + 1))], a: [i, i + 1], g: [j, j + 1],
      base: genSpectrum(r, 4, first, ROWS) }
  }
  pure def genCamera(q: World, r: int -> int): Sensor = {
    val n = 3 + pick(r, 76, 3)
    val t = genBandSensor(r, 20, q.first + pick(r, 77, ROWS - n + 1), n, false)
    { ...t, kernel: if (yes(r, 71, 50)) [[ONE]] else genKernel(r, 72) }
  }
  pure def genPlace(q: World, r: int -> int): Scene = {
    val p = genScene(r, 62)
    { ...p, altitude: q.alts[pick(r, 68, 2)], ground: q.grounds[pick(r, 69, 2)] }
  }
  pure def genLook(r: int -> int): Look =
    [uni(r, 10, 0, ONE), uni(r, 11, real(270), real(310)), uni(r, 12, 0, ONE), uni(r, 13, real(270), real(310))]

  pure def transposed(k: List[List[int]]): List[List[int]] =
    range(0, k[0].length()).foldl([], (acc1, j) => acc1.append(range(0, k.length()).foldl([], (acc2, i) => acc2.append(k[i][j]))))
  // a setting of the sensor takes the value it has in t
  pure def adopt(x: Sensor, t: Sensor, g: int): Sensor =
    if (g == 0) { ...x, D: t.D } else if (g == 1) { ...x, f: t.f } else if (g == 2) { ...x, pX: t.pX, pY: t.pY }
    else if (g == 3) { ...x, wX: t.wX } else if (g == 4) { ...x, wY: t.wY } else if (g == 5) { ...x, eta: t.eta }
    else if (g == 6) { ...x, bandW: t.bandW, bandT: t.bandT, qeW: t.qeW, qe: t.qe }
    else if (g == 7) { ...x, bandT: x.bandT.foldl([], (l, v) => l.append(div(v, TWO))) }
    else if (g == 8) { ...x, qe: x.qe.foldl([], (l, v) => l.append(ONE - v / 2)) }
    else if (g == 9) { ...x, intTime: t.intTime } else if (g == 10) { ...x, nTdi: t.nTdi } else if (g == 11) { ...x, dark: t.dark }
    else if (g == 12) { ...x, readNoise: t.readNoise } else if (g == 13) { ...x, maxN: t.maxN } else if (g == 14) { ...x, maxFill: t.maxFill }
    else if (g == 15) { ...x, bits: t.bits } else if (g == 16) { ...x, opticsT: t.opticsT, opticsE: t.opticsE }
    else if (g == 17) { ...x, coldT: t.coldT, coldE: t.coldE, coldFilterTemp: t.coldFilterTemp } else if (g == 18) { ...x, otherNoise: t.otherNoise }
    else if (g == 19) { ...x, sX: t.sX, sY: t.sY } else if (g == 20) { ...x, daX: t.daX, daY: t.daY }
    else if (g == 21) { ...x, pv: t.pv, pvW: t.pvW } else if (g == 22) { ...x, lX: t.lX, lY: t.lY }
    else if (g == 23) { ...x, kernel: t.kernel }
    // the same kernel acting along the other axis
    else if (g >= 26) { ...x, kernel: if (x.kernel.length() == 1 and x.kernel[0].length() == 1) t.kernel else transposed(x.kernel) } else if (g == 24) { ...x, stacks: t.stacks } else { ...x, coldShieldT: t.coldShieldT }
  pure def move(p: Scene, t: Scene, g: int): Scene =
    if (g == 0) { ...p, haze: t.haze } else if (g == 1) { ...p, altitude: t.altitude } else if (g == 2) { ...p, ground: t.ground }
    else if (g == 3) { ...p, aircraft: t.aircraft } else if (g == 4) { ...p, wind: t.wind } else { ...p, cn2: t.cn2 }
  // what a NIIRS evaluation leaves
  pure def overridden(x: Sensor, l: Look): Look =
    if (isHot(x)) [0, real(282), 0, real(280)] else [dec(15, -2), l[1], dec(7, -2), l[3]]

  pure def settingsF(x: Sensor, p: Scene, l: Look): str -> List[int] =
    merge(merge(sensorF(x), sceneF(p)), Map("target_reflectance" -> [l[0]], "target_temperature" -> [l[1]],
      "background_reflectance" -> [l[2]], "background_temperature" -> [l[3]]))
  pure def settingsK(x: Sensor, p: Scene): str -> int = merge(sensorK(x), sceneK(p))
  pure def rowsE(a: Atm): str -> List[int] =
    Map("rows_1" -> a.trans, "rows_2" -> a.path, "rows_3" -> a.surf, "rows_4" -> a.sol, "rows_5" -> a.grnd)
  pure def curveE(a: Atm, x: Sensor): str -> List[int] = {
    val q = reflCurve(a, x, x.intTime, real(300))
    Map("ref" -> q.ref, "pe" -> q.pe, "wavelengths" -> q.w, "weights" -> q.weights)
  }

  pure val OPS = ["niirs", "niirs5", "snr", "system", "curve", "radiance", "atm", "simulate"]
  pure def chosen(r: int -> int): int = {
    val p = pick(r, 60, 100)
    if (p < 27) 0 else if (p < 47) 1 else if (p < 60) 2 else if (p < 72) 3 else if (p < 84) 4 else if (p < 91) 5 else if (p < 97) 6 else 7
  }
  pure def evaluate(q: World, x: Sensor, p: Scene, l: Look, op: str, r: int -> int): Case = {
    val a = atmosphere(q, p)
    val band = inBand(a, x.bandW[0], last(x.bandW))
    val l2 = if (op == "niirs" or op == "niirs5") overridden(x, l) else l
    val none: (str -> List[int], str -> int) = (Map(), Map())
    val v = if (op == "niirs" or op == "niirs5" or op == "snr" or op == "system") evaluation(x, p, band, somewhere(r)) else none
    val e2 = if (op == "curve") curveE(a, x) else if (op == "atm") rowsE(a)
      else if (op == "radiance") Map("L" -> sceneRadiance(band, l[0], l[1]), "tgt" -> giqePair(band, isHot(x))._1, "bkg" -> giqePair(band, isHot(x))._2)
      else Map()
    { op: op, k: settingsK(x, p).put("inplace", pick(r, 58, 2)).put("seed", r.get(59) % 100000).put("emissive", if (isHot(x)) 1 else 0),
      f: if (op == "simulate") settingsF(x, p, l2).put("gsd", [pixel(x, p, a.w, r)]) else settingsF(x, p, l2), e: merge(v._1, e2), ek: v._2 }
  }

  // ground sampling of a reference image that this camera can look at: about its own, or its resolution
  pure def pixel(x: Sensor, p: Scene, w0: List[int], r: int -> int): int =
    mul3(max2(div(x.pX, x.f), div(last(w0), x.D)), sqrt(sq(p.altitude) + sq(p.ground)), uni(r, 56, dec(4, -1), dec(13, -1)))

  action init = {
    nondet r = RV.oneOf()
    nondet t = RV.oneOf()
    val q = genWorld(r)
    val x = genCamera(q, t)
    val p = genPlace(q, t)
    val l = genLook(r)
    all { w' = q, s' = x, sc' = p, look' = l,
      c' = { op: "open", k: merge(settingsK(x, p), 0.to(7).fold(Map("first" -> q.first), (m, i) => {
               val rec = recordAt(q, 1 + i / 4, (i / 2) % 2, i % 2)
               m.put(["r0", "r1", "r2", "r3", "r4", "r5", "r6", "r7"][i], rec).put(["m0", "m1", "m2", "m3", "m4", "m5", "m6", "m7"][i], eighths(rec, 1 + i / 4)) })),
             f: merge(settingsF(x, p, l), Map("base_1" -> q.base.trans, "base_2" -> q.base.path, "base_3" -> q.base.surf, "base_4" -> q.base.sol, "base_5" -> q.base.grnd)),
             e: Map(), ek: Map() } }
  }
  action step = {
    nondet r = RV.oneOf()
    val t = genCamera(w, r)
    val kind = pick(r, 61, 100)
    if (kind < 35) {
      val x = adopt(s, t, pick(r, 57, 28))
      all { w' = w, s' = x, sc' = sc, look' = look,
            c' = { op: "set", k: settingsK(x, sc).put("inplace", pick(r, 58, 2)), f: settingsF(x, sc, look), e: Map(), ek: Map() } }
    } else if (kind < 52) {
      val p = move(sc, genPlace(w, r), pick(r, 57, 6))
      all { w' = w, s' = s, sc' = p, look' = look, c' = { op: "set", k: settingsK(s, p).put("inplace", 0), f: settingsF(s, p, look), e: Map(), ek: Map() } }
    } else if (kind < 58) {
      val l = genLook(r)
      all { w' = w, s' = s, sc' = sc, look' = l, c' = { op: "set", k: settingsK(s, sc).put("inplace", 0), f: settingsF(s, sc, l), e: Map(), ek: Map() } }
    } else {
      val op = OPS[chosen(r)]
      all { w' = w, s' = s, sc' = sc, look' = if (op == "niirs" or op == "niirs5") overridden(s, look) else look,
            c' = evaluate(w, s, sc, look, op, r) }
    }
  }

  // evaluations leave the settings as they were, but for the documented override
  val lawSession = and {
    c.f == c.f.keys().mapBy(k => if (settingsF(s, sc, look).keys().contains(k)) settingsF(s, sc, look).get(k) else c.f.get(k)),
    (c.op == "niirs" or c.op == "niirs5") implies (look[0] == 0 or look[0] == dec(15, -2)),
    c.ek.keys().contains("lit") implies c.ek.get("lit") >= 1,
    indexOf(w.alts, sc.altitude) >= 0 and (w.alts[0] == sc.altitude or w.alts[1] == sc.altitude),
    w.grounds[0] == sc.ground or w.grounds[1] == sc.ground }
}
