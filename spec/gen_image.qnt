// Image simulation (C15): what the three images must be for a palette of pixel values.
module gen_image {
  import fx.* from "./fx"
  import cases.* from "./cases"
  import analytic.* from "./analytic"
  import camera.* from "./camera"
  import radiometry.* from "./radiometry"
  import system.* from "./system"
  import chain.* from "./chain"
  import catalogue.* from "./catalogue"

  var c: Case

  pure val DEFAULT_T = real(300)
  // photoelectrons of one pixel at a reflectance: linear along the calibration curve
  pure def electrons(q: Curve, refl: int): int = q.pe[0] + mul(q.pe[99] - q.pe[0], refl)
  // variance of what read-out adds: reading and quantising
  pure def readoutVariance(s: Sensor): int = sq(quantNoise(s.maxN, s.bits)) + sq(s.readNoise)

  // pixel values, of the image's type, and known reflectances for some of them
  pure def palette(r: int -> int, i: int, kind: int): List[int] = {
    val n = 1 + pick(r, i, 8)
    values(r, i + 1, n, 0, if (kind == 0) real(255) else real(4000)).foldl([], (l, x) => l.append(if (kind == 2) x else floorR(x) * ONE))
  }
  pure def imageCase(r: int -> int): Case = {
    val n = 2 + pick(r, 0, 2)
    val hot = yes(r, 1, 30)
    val first = if (hot) 262 + pick(r, 2, 900) else 8 + pick(r, 2, 150)
    val site0 = genSite(r, 3)
    val a0 = genSpectrum(r, 56, first, n)
    val a = seen(a0, site0)
    val s0 = genBandSensor(r, 9, first, n, false)
    val free = reflCurve(a, { ...s0, maxN: real(10^40) }, s0.intTime, DEFAULT_T)
    // the well from overfull to a few photoelectrons in all
    val peak = maxl(free.pe)
    val s1 = { ...s0, maxN: div(peak, [dec(1, -1), dec(7, -1), TWO, real(20)][pick(r, 70, 4)]), kernel: if (yes(r, 71, 55)) [[ONE]] else genKernel(r, 72) }
    val level = [real(3), real(40), real(130), real(90), real(3000), real(200000), real(5 * 10^9)][pick(r, 69, 7)]
    val bright = level > real(10^6)
    val s2 = if (yes(r, 68, 60)) { ...s1, intTime: div(mul(s1.intTime, level), peak), dark: 0, maxN: real(if (bright) 10^13 else 10^6), bits: if (bright) 60 else s1.bits } else s1
    // reading and quantising of like size
    val bits = 5 + pick(r, 79, 8)
    // or small beside the light
    val s = if (yes(r, 77, 60) and not(yes(r, 77, 20)) and yes(r, 68, 60) and not(bright)) { ...s2, bits: 40, readNoise: if (yes(r, 74, 30)) 0 else mul(sqrt(level), uni(r, 74, 0, HALF)) }
      else if (yes(r, 77, 20) and not(bright)) { ...s2, bits: bits, readNoise: mul(quantNoise(s2.maxN, bits), uni(r, 77, dec(4, -1), dec(25, -1))) } else s2
    val sc0 = genScene(r, 62)
    val sc = onSite({ ...sc0, cn2: if (yes(r, 67, 70)) 0 else sc0.cn2 }, site0)
    val q = reflCurve(a, s, s.intTime, DEFAULT_T)
    val lit = range(0, q.w.length()).foldl([], (l, i) => if (q.weights[i] > 0) l.append(i) else l)
    val wl = lit.foldl([], (l, i) => l.append(q.w[i]))
    val slant = sqrt(sq(sc.altitude) + sq(sc.ground))
    val cutoff = div(s.D, minl(wl))
    val ifov = div((s.pX + s.pY) / 2, s.f)
    // camera pixels from coarser to finer than the reference image's
    val gsd = mul3(ifov, slant, uni(r, 75, dec(3, -1), dec(13, -1)))
    val kind = pick(r, 76, 3)
    val pix = palette(r, 30, kind)
    val top = if (kind == 0) real(255) else real(4000)
    val calPix = [uni(r, 74, 0, top / 4), top / 2, uni(r, 73, 2 * top / 3, top)]
    // now and then no pixel is dark
    val calRefl = if (yes(r, 78, 45)) sortl(values(r, 66, 3, dec(6, -1), dec(9, -1))) else values(r, 66, 3, -dec(1, -1), dec(11, -1))

    { op: "image", k: merge(merge(merge(sensorK(s), sceneK(sc)), siteK(site0, first)), Map("kind" -> kind, "seed" -> r.get(78) % 100000,
          "rows" -> 90 + pick(r, 65, 40), "cols" -> 90 + pick(r, 64, 40), "again" -> pick(r, 63, 3))),
      f: merge(merge(sensorF(s), sceneF(sc)), Map("base_1" -> a0.trans, "base_2" -> a0.path, "base_3" -> a0.surf, "base_4" -> a0.sol, "base_5" -> a0.grnd,
           "palette" -> pix, "pix_values" -> calPix, "refl_values" -> calRefl, "gsd" -> [gsd])),
      e: Map("electrons" -> pix.foldl([], (l, x) => l.append(electrons(q, calibrate(calPix, calRefl, x)))),
             "wavelengths" -> wl, "weights" -> lit.foldl([], (l, i) => l.append(q.weights[i])),
             "slant" -> [slant], "cutoff" -> [cutoff], "df" -> [cutoff / 750], "ifov" -> [ifov], "readout" -> [readoutVariance(s)]),
      ek: Map("lit" -> lit.length()) }
  }
  action stepImage = { nondet r = RV.oneOf() c' = imageCase(r) }
  val lawImage = (c.op == "image") implies and {
    c.ek.get("lit") >= 1,
    c.e.get("electrons").foldl(true, (b, x) => b and x >= 0),
    c.e.get("readout")[0] >= 0 }
  action init = c' = NOCASE
}
