// Generator machine for the system transfer function.
module gen_system {
  import fx.* from "./fx"
  import cases.* from "./cases"
  import otfs.* from "./otfs"
  import analytic.* from "./analytic"
  import turbulence.* from "./turbulence"
  import camera.* from "./camera"
  import system.* from "./system"

  var c: Case
  pure val TINY = 10^30

  pure def systemCase(r: int -> int): Case = {
    val lo = if (yes(r, 36, 70)) uni(r, 37, dec(38, -8), dec(8, -7)) else uni(r, 37, dec(3, -6), dec(9, -6))
    val hi = lo + uni(r, 38, lo / 20, lo / 2)
    val s = { ...withBlur(genSensor(r, 0, lo, hi), r, 39), kernel: if (yes(r, 73, 10)) [[[TWO, -HALF, 0, real(7)][pick(r, 74, 4)]]] else genKernel(r, 48) }
    val sc = genScene(r, 52)
    val n = 1 + pick(r, 60, 4)
    val wl0 = if (n == 1) [lo] else knots(r, 60, n, lo, hi)
    val wl = if (yes(r, 63, 50)) range(0, n).foldl([], (acc3, i) => acc3.append(wl0[n - 1 - i])) else wl0
    val ws = values(r, 64, n, dec(1, -2), ONE)
    val slant = slantRange(0, sc.altitude, sc.ground)
    val time = mul(s.intTime, if (yes(r, 66, 30)) ONE else uni(r, 66, dec(2, -2), ONE))
    val fc = div(s.D, lo)
    val th = uni(r, 67, 0, PI / 2)
    // inside the optics cutoff; the sharpening filter is periodic beyond Nyquist
    val rho = mul(fc, uni(r, 68, dec(2, -2), dec(98, -2)))
    val ps = [(0, 0), (rho, 0), (0, rho), (mul(rho, cos(th)), mul(rho, sin(th))), (-mul(rho, sin(th)), mul(rho, cos(th))), (rho / 3, -rho / 4)]
    val r1 = pathFried(sc, slant)
    { op: "system", k: merge(merge(sensorK(s), sceneK(sc)), Map("mutate" -> (if (yes(r, 69, 40)) 1 else pick(r, 75, 23)), "shape" -> pick(r, 70, 3),
          // wavelengths without weight that are to be listed besides
          "pad" -> (if (yes(r, 71, 5)) [3, 120, 300, 1100][pick(r, 72, 4)] else 0))),
      f: merge(merge(sensorF(s), sceneF(sc)), Map("u" -> ps.foldl([], (acc4, p) => acc4.append(p._1)), "v" -> ps.foldl([], (acc5, p) => acc5.append(p._2)), "wavelengths" -> wl, "weights" -> ws, "slant" -> [slant], "time" -> [time])),
      e: Map("ap" -> ps.foldl([], (acc6, p) => acc6.append(apertureBand(s, wl, ws, p._1, p._2))), "det" -> ps.foldl([], (acc7, p) => acc7.append(detector(p._1, p._2, s.wX, s.wY, s.f))),
             "jit" -> ps.foldl([], (acc8, p) => acc8.append(jitter(p._1, p._2, s.sX, s.sY))), "drft" -> ps.foldl([], (acc9, p) => acc9.append(driftOf(s, time, p._1, p._2))),
             "wav" -> ps.foldl([], (acc10, p) => acc10.append(wavefrontBand(s, wl, ws, p._1, p._2))), "turb" -> ps.foldl([], (acc11, p) => acc11.append(turbulenceBand(s, sc, wl, ws, r1, time, p._1, p._2))),
             "r0" -> (if (sc.cn2 == 0) [] else [bandFried(wl, ws, r1)]),
             "low" -> ps.foldl([], (acc12, p) => acc12.append(minl(filterAround(s, p._1, p._2)))), "high" -> ps.foldl([], (acc13, p) => acc13.append(maxl(filterAround(s, p._1, p._2))))),
      ek: Map("filter" -> (if (isFilter(s)) 1 else 0), "turbulent" -> (if (sc.cn2 == 0) 0 else 1)) }
  }
  action stepSystem = { nondet r = RV.oneOf() c' = systemCase(r) }
  // every component is 1 at zero frequency and none of the blurs exceeds 1
  val lawSystem = (c.op == "system") implies (["ap", "det", "jit", "drft", "wav", "turb"]).foldl(true, (acc14, k) => acc14 and ({
    near(c.e.get(k)[0], ONE, TINY) and c.e.get(k).foldl(true, (b, h) => b and h <= ONE + TINY and h >= -ONE) }))

  action init = c' = NOCASE
}
