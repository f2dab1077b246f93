// The camera and the scene as values, and their random generators.
module camera {
  import fx.* from "./fx"
  import cases.* from "./cases"

  type Sensor = {
    D: int, f: int, eta: int, pX: int, pY: int, wX: int, wY: int,
    bandW: List[int], bandT: List[int],         // optics transmission table
    qeW: List[int], qe: List[int],              // quantum efficiency table
    intTime: int, nTdi: int, dark: int, readNoise: int, maxN: int, maxFill: int, bits: int,
    coldShieldT: int, opticsT: int, opticsE: int, coldT: int, coldFilterTemp: int, coldE: int,
    otherNoise: List[int],
    sX: int, sY: int, daX: int, daY: int, pv: int, pvW: int, lX: int, lY: int,
    kernel: List[List[int]], stacks: int
  }

  // a sensor whose band is [lo, hi]; qe table independent of the band table
  pure def genSensor(r: int -> int, i: int, lo: int, hi: int): Sensor = {
    // a seventh of the cameras well outside the usual ranges
    val wide = yes(r, i + 34, 14)
    val D = if (wide) logu(r, i, -3, 2) else logu(r, i, -2, 0)
    val f = mul(D, if (wide) uni(r, i + 1, dec(6, -1), real(40)) else uni(r, i + 1, dec(12, -1), real(12)))
    val most = if (wide) dec(200, -6) else dec(40, -6)
    val pX = uni(r, i + 2, dec(2, -6), most)
    val pY = if (yes(r, i + 3, 25)) pX else uni(r, i + 4, dec(2, -6), most)
    val nB = 2 + pick(r, i + 5, 4)
    val nQ = 2 + pick(r, i + 6, 4)
    val cf = if (yes(r, i + 7, 40)) ONE else if (yes(r, i + 7, 52)) logu(r, i + 8, -3, -1) else uni(r, i + 8, dec(3, -1), ONE)
    { D: D, f: f, eta: if (yes(r, i + 9, 35)) 0 else uni(r, i + 10, dec(5, -2), if (wide) dec(95, -2) else dec(7, -1)),
      pX: pX, pY: pY,
      wX: if (yes(r, i + 11, 25)) pX else mul(pX, uni(r, i + 11, dec(4, -1), ONE)), wY: if (yes(r, i + 12, 25)) pY else mul(pY, uni(r, i + 12, dec(4, -1), ONE)),
      bandW: knots(r, i + 5, nB, lo, hi), bandT: if (yes(r, i + 13, 8)) range(0, nB).foldl([], (accOne, q) => accOne.append(ONE)) else values(r, i + 13, nB, dec(2, -1), ONE),
      qeW: knots(r, i + 6, nQ, lo - (hi - lo) / 7, hi + (hi - lo) / 9), qe: if (yes(r, i + 14, 8)) range(0, nQ).foldl([], (accUnit, q) => accUnit.append(ONE))
        // a detector nearly blind towards one end of the band
        else if (yes(r, i + 14, 16)) values(r, i + 14, nQ, dec(2, -1), ONE).foldl([], (accBlind, q) => accBlind.append(if (accBlind.length() < nQ - 1) q / 10^8 else q))
        else values(r, i + 14, nQ, dec(2, -1), ONE),
      intTime: if (wide) logu(r, i + 15, -8, 2) else logu(r, i + 15, -5, -1), nTdi: if (yes(r, i + 16, 40)) ONE else if (yes(r, i + 16, 60)) uni(r, i + 16, ONE, real(9)) else real(2 + pick(r, i + 16, if (wide) 500 else 30)),
      dark: if (yes(r, i + 17, 25)) 0 else if (wide) logu(r, i + 18, -2, 9) else logu(r, i + 18, 1, 6),
      readNoise: if (yes(r, i + 19, 25)) 0 else if (wide) logu(r, i + 20, -2, 5) else logu(r, i + 20, 0, 3),
      maxN: if (wide) logu(r, i + 21, 1, 11) else logu(r, i + 21, 3, 8), maxFill: if (yes(r, i + 22, 24)) ONE else if (yes(r, i + 22, 30)) dec(15, -1) else uni(r, i + 23, if (wide) dec(1, -2) else dec(3, -1), dec(99, -2)),
      bits: if (yes(r, i + 24, 20)) 100 else 1 + pick(r, i + 24, if (wide) 63 else 20),
      coldShieldT: uni(r, i + 25, real(60), real(320)), opticsT: uni(r, i + 26, if (wide) real(80) else real(200), real(330)),
      opticsE: if (yes(r, i + 27, 25)) 0 else uni(r, i + 28, dec(1, -2), if (wide) ONE else dec(5, -1)),
      coldT: cf, coldFilterTemp: uni(r, i + 29, real(60), real(320)),
      coldE: if (yes(r, i + 30, 25)) 0 else uni(r, i + 31, dec(1, -2), if (wide) ONE else dec(5, -1)),
      otherNoise: if (yes(r, i + 32, 25)) [0] else if (yes(r, i + 32, 40)) values(r, i + 33, 5 + pick(r, i + 33, 40), 0, real(60)) else if (yes(r, i + 32, 65)) range(0, 1 + pick(r, i + 33, 4)).foldl([], (acc0, q) => acc0.append(real(1 + (r.get(i + 31) + 37 * q) % 60)))
        else values(r, i + 32, 1 + pick(r, i + 33, 4), 0, real(60)),
      sX: 0, sY: 0, daX: 0, daY: 0, pv: 0, pvW: dec(633, -9), lX: D, lY: D, kernel: [[ONE]], stacks: 1 }
  }
  // choices used by genSensor: i .. i+34
  pure val SENSOR_CHOICES = 35

  // blur settings (jitter, drift, wavefront, stacking) for the imaging chain
  pure def withBlur(s: Sensor, r: int -> int, i: int): Sensor = {
    val ifov = div(s.pX, s.f)
    { ...s,
      sX: if (yes(r, i, 25)) 0 else mul(ifov, uni(r, i + 1, dec(5, -2), dec(6, -1))),
      sY: if (yes(r, i + 2, 35)) 0 else mul(ifov, uni(r, i + 2, dec(5, -2), dec(6, -1))),
      daX: if (yes(r, i + 3, 25)) 0 else (if (yes(r, i + 1, 35)) -1 else 1) * div(mul(ifov, uni(r, i + 4, dec(5, -2), dec(9, -1))), mul(s.intTime, s.nTdi)),
      daY: if (yes(r, i + 5, 35)) 0 else (if (yes(r, i + 2, 35)) -1 else 1) * div(mul(ifov, uni(r, i + 5, dec(5, -2), dec(9, -1))), mul(s.intTime, s.nTdi)),
      pv: if (yes(r, i + 6, 30)) 0 else uni(r, i + 7, dec(1, -2), ONE),
      pvW: uni(r, i + 8, dec(4, -7), dec(11, -7)),
      lX: if (yes(r, i + 7, 20)) s.D else mul(s.D, uni(r, i + 6, dec(3, -1), dec(15, -1))), lY: if (yes(r, i + 4, 20)) s.D else mul(s.D, uni(r, i + 7, dec(3, -1), dec(15, -1))),
      stacks: if (yes(r, i + 8, 40)) 1 else if (yes(r, i + 8, 85)) 2 + pick(r, i + 8, 7) else 9 + pick(r, i + 8, 300) }
  }

  pure def sensorF(s: Sensor): str -> List[int] = Map(
    "D" -> [s.D], "f" -> [s.f], "eta" -> [s.eta], "p_x" -> [s.pX], "p_y" -> [s.pY], "w_x" -> [s.wX], "w_y" -> [s.wY],
    "opt_trans_wavelengths" -> s.bandW, "optics_transmission" -> s.bandT, "qe_wavelengths" -> s.qeW, "qe" -> s.qe,
    "int_time" -> [s.intTime], "n_tdi" -> [s.nTdi], "dark_current" -> [s.dark], "read_noise" -> [s.readNoise],
    "max_n" -> [s.maxN], "max_well_fill" -> [s.maxFill], "cold_shield_temperature" -> [s.coldShieldT],
    "optics_temperature" -> [s.opticsT], "optics_emissivity" -> [s.opticsE], "cold_filter_transmission" -> [s.coldT],
    "cold_filter_temperature" -> [s.coldFilterTemp], "cold_filter_emissivity" -> [s.coldE], "other_noise" -> s.otherNoise,
    "s_x" -> [s.sX], "s_y" -> [s.sY], "da_x" -> [s.daX], "da_y" -> [s.daY], "pv" -> [s.pv], "pv_wavelength" -> [s.pvW],
    "L_x" -> [s.lX], "L_y" -> [s.lY], "filter_kernel" -> s.kernel.foldl([], (l, row) => l.concat(row)))
  pure def sensorK(s: Sensor): str -> int = Map(
    "bit_depth" -> s.bits, "frame_stacks" -> s.stacks, "kernel_rows" -> s.kernel.length())

  // atmosphere rows: wavelength, transmission, and the four radiance columns
  type Atm = { w: List[int], trans: List[int], path: List[int], surf: List[int], sol: List[int], grnd: List[int] }
  // radiances in W/(sr m^2 m); `hot` adds thermal path emission
  pure def genAtm(r: int -> int, i: int, w: List[int]): Atm = {
    val n = w.length()
    { w: w, trans: values(r, i, n, dec(5, -2), dec(95, -2)), path: values(r, i + 1, n, real(1000), real(10^6)),
      surf: values(r, i + 2, n, real(1000), real(10^6)), sol: values(r, i + 3, n, real(10^5), real(10^7)),
      grnd: values(r, i + 4, n, real(10^5), real(3 * 10^7)) }
  }
  pure def atmF(a: Atm): str -> List[int] = Map("atm_w" -> a.w, "atm_1" -> a.trans, "atm_2" -> a.path,
    "atm_3" -> a.surf, "atm_4" -> a.sol, "atm_5" -> a.grnd)
}
