// From spectral radiance to detected photoelectrons, noise and exposure
// (pybsm.radiance, pybsm.noise).
module radiometry {
  import fx.* from "./fx"
  import cases.* from "./cases"
  import camera.* from "./camera"

  // physical constants of the implementation (CODATA 2014)
  pure val C0 = 299792458
  pure val H9 = 662607004          // h = H9 * 10^-42
  pure val K8 = 138064852          // k = K8 * 10^-31
  pure val Q8 = 160217662          // q = Q8 * 10^-27
  pure val HC = dec(H9 * C0, -42)                    // h c        (J m)
  pure val RAD1 = dec(2 * H9 * C0^2, -12)            // 2 h c^2 * 10^30
  pure val RAD2 = H9 * C0 * ONE / (K8 * 10^5)        // h c / k * 10^6

  // Planck's law, spectral radiance in W/(sr m^2 m)
  pure def blackbody(lambda: int, T: int): int = {
    val um = lambda * 10^6
    val x = div(RAD2, mul(um, T))
    val d = exp(x) - ONE
    div(div(RAD1, powi(um, 5)), d)
  }
  // radiance to focal-plane irradiance
  pure def omega(D: int, f: int): int = div(PI, ONE + 4 * sq(div(f, D)))
  pure def irradiance(D: int, f: int, L: int): int = mul(L, omega(D, f))
  pure def coldShield(l: int, T: int, D: int, f: int): int = mul(PI - omega(D, f), blackbody(l, T))
  pure def coldStop(l: int, T: int, em: int, D: int, f: int): int = irradiance(D, f, mul(em, blackbody(l, T)))
  pure def opticsEmission(l: int, T: int, em: int, tr: int, D: int, f: int): int =
    irradiance(D, f, mul3(tr, em, blackbody(l, T)))
  // photoelectrons per second per metre of wavelength
  pure def detection(E: int, wX: int, wY: int, l: int, qe: int): int =
    div(mul3(mul(l * 10^6, qe), wX * 10^6, mul(wY * 10^6, E)), HC * 10^18)
  pure def totalRadiance(a: Atm, i: int, refl: int, T: int): int =
    a.path[i] + mul3(ONE - refl, blackbody(a.w[i], T), a.trans[i]) + a.sol[i] + mul(a.grnd[i], div(refl, dec(15, -2)))
  pure def sceneRadiance(a: Atm, refl: int, T: int): List[int] = range(0, a.w.length()).foldl([], (acc1, i) => acc1.append(totalRadiance(a, i, refl, T)))
  // zero outside the table
  pure def resample(x: int, ws: List[int], vs: List[int]): int = interp(x, ws, vs, 0, 0)

  pure def optTrans(s: Sensor, l: int): int = mul3(s.coldT, ONE - sq(s.eta), resample(l, s.bandW, s.bandT))
  pure def selfEmission(s: Sensor, l: int): int =
    coldShield(l, s.coldShieldT, s.D, s.f) + opticsEmission(l, s.opticsT, s.opticsE, s.coldT, s.D, s.f)
      + coldStop(l, s.coldFilterTemp, s.coldE, s.D, s.f)

  type Rate = { rate: int, E: List[int], dN: List[int] }
  pure def signalRate(ws: List[int], L: List[int], tr: List[int], D: int, f: int, wX: int, wY: int,
                      qe: List[int], other: List[int], dark: int): Rate = {
    val E = range(0, ws.length()).foldl([], (acc2, i) => acc2.append(mul(tr[i], irradiance(D, f, L[i])) + other[i]))
    val dN = range(0, ws.length()).foldl([], (acc3, i) => acc3.append(detection(E[i], wX, wY, ws[i], qe[i])))
    { rate: trapz(dN, ws) + dark, E: E, dN: dN }
  }

  pure def quantNoise(well: int, bits: int): int = well * ONE / mul(sqrt(real(12)), real(2^bits - 1))
  // exposure scale: 1 up to the limit, otherwise limit / count
  pure def wellScale(n: int, limit: int): int = if (n > limit) div(limit, n) else ONE

  type Snr = { optTrans: List[int], qe: List[int], other: List[int], tgtRate: int, bkgRate: int,
    tgtE: List[int], bkgE: List[int], weights: List[int], tgtN: int, bkgN: int, intTime: int, scale: int,
    wellFraction: int, contrast: int, signalNoise: int, darkNoise: int, quantNoise: int, selfNoise: int,
    totalNoise: int, snr: int }
  pure def contrastSnr(s: Sensor, ws: List[int], tgt: List[int], bkg: List[int]): Snr = {
    val tr = ws.foldl([], (acc4, l) => acc4.append(optTrans(s, l)))
    val qe = ws.foldl([], (acc5, l) => acc5.append(resample(l, s.qeW, s.qe)))
    val other = ws.foldl([], (acc6, l) => acc6.append(selfEmission(s, l)))
    val a = signalRate(ws, tgt, tr, s.D, s.f, s.wX, s.wY, qe, other, s.dark)
    val b = signalRate(ws, bkg, tr, s.D, s.f, s.wX, s.wY, qe, other, s.dark)
    val t0 = mul3(a.rate, s.intTime, s.nTdi)
    val b0 = mul3(b.rate, s.intTime, s.nTdi)
    val scale = wellScale(max2(t0, b0), mul(s.maxFill, s.maxN))
    val tN = mul(scale, t0)
    val bN = mul(scale, b0)
    val time = mul(scale, s.intTime)
    val qn = quantNoise(s.maxN, s.bits)
    val total = sqrt(max2(tN, bN) + sq(qn) + sq(s.readNoise) + suml(s.otherNoise.foldl([], (acc7, x) => acc7.append(sq(x)))))
    val selfRate = trapz(range(0, ws.length()).foldl([], (acc8, i) => acc8.append(detection(other[i], s.wX, s.wY, ws[i], qe[i]))), ws)
    { optTrans: tr, qe: qe, other: other, tgtRate: a.rate, bkgRate: b.rate, tgtE: a.E, bkgE: b.E, weights: a.dN,
      tgtN: tN, bkgN: bN, intTime: time, scale: scale, wellFraction: div(max2(tN, bN), s.maxN),
      contrast: tN - bN, signalNoise: sqrt(max2(tN, bN)), darkNoise: sqrt(mul3(s.nTdi, s.dark, time)),
      quantNoise: qn, selfNoise: sqrt(mul3(selfRate, time, s.nTdi)), totalNoise: total, snr: div(tN - bN, total) }
  }
  pure def snrE(q: Snr): str -> List[int] = Map(
    "opt_trans" -> q.optTrans, "qe" -> q.qe, "other_irradiance" -> q.other, "tgt_n_rate" -> [q.tgtRate],
    "bkg_n_rate" -> [q.bkgRate], "tgt_FPA_irradiance" -> q.tgtE, "bkg_FPA_irradiance" -> q.bkgE, "weights" -> q.weights,
    "tgt_n" -> [q.tgtN], "bkg_n" -> [q.bkgN], "int_time" -> [q.intTime], "well_fraction" -> [q.wellFraction],
    "contrast_signal" -> [q.contrast], "signal_noise" -> [q.signalNoise], "dark_current_noise" -> [q.darkNoise],
    "quantization_noise" -> [q.quantNoise], "self_emission_noise" -> [q.selfNoise], "total_noise" -> [q.totalNoise],
    "snr" -> [q.snr])

  // reflectance to photoelectrons: 100 reflectances, common saturation scale
  type Curve = { ref: List[int], pe: List[int], w: List[int], weights: List[int], scale: int }
  pure def inBand(a: Atm, lo: int, hi: int): Atm = {
    val idx = range(0, a.w.length()).select(i => a.w[i] >= lo and a.w[i] <= hi)
    { w: idx.foldl([], (acc9, i) => acc9.append(a.w[i])), trans: idx.foldl([], (acc10, i) => acc10.append(a.trans[i])), path: idx.foldl([], (acc11, i) => acc11.append(a.path[i])),
      surf: idx.foldl([], (acc12, i) => acc12.append(a.surf[i])), sol: idx.foldl([], (acc13, i) => acc13.append(a.sol[i])), grnd: idx.foldl([], (acc14, i) => acc14.append(a.grnd[i])) }
  }
  pure def reflCurve(a0: Atm, s: Sensor, time: int, T: int): Curve = {
    val a = inBand(a0, s.bandW[0], last(s.bandW))
    val tr = a.w.foldl([], (acc15, l) => acc15.append(optTrans(s, l)))
    val qe = a.w.foldl([], (acc16, l) => acc16.append(resample(l, s.qeW, s.qe)))
    val other = a.w.foldl([], (acc17, l) => acc17.append(selfEmission(s, l)))
    val dark = sceneRadiance(a, 0, T)
    val full = sceneRadiance(a, ONE, T)
    val r0 = signalRate(a.w, dark, tr, s.D, s.f, s.wX, s.wY, qe, other, s.dark)
    val r1 = signalRate(a.w, full, tr, s.D, s.f, s.wX, s.wY, qe, other, s.dark)
    // radiance, hence rate, is affine in the reflectance
    val raw = range(0, 100).foldl([], (acc18, i) => acc18.append(mul3(r0.rate + (r1.rate - r0.rate) * i / 99, time, s.nTdi)))
    val scale = wellScale(maxl(raw), s.maxN)
    { ref: range(0, 100).foldl([], (acc19, i) => acc19.append(real(i) / 99)), pe: raw.foldl([], (acc20, x) => acc20.append(mul(scale, x))), w: a.w,
      weights: r1.dN.foldl([], (acc21, x) => acc21.append(div(x, maxl(r1.dN)))), scale: scale }
  }
}
