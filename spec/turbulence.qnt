// Atmospheric turbulence along the line of sight, and kernel responses
// (pybsm.otf turbulence profile, coherence diameter, wind and band averaging).
module turbulence {
  import fx.* from "./fx"
  import cases.* from "./cases"
  import otfs.* from "./otfs"
  import analytic.* from "./analytic"

  // Hufnagel-Valley profile at height h; ground level strength cn2, upper wind v
  pure def profile(h: int, v: int, cn2: int): int =
    mul(mul(594 * 10^5, powi(h, 10)), mul(sq(div(v, real(27))), exp(-h / 1000)))
      + mul(27 * 10^43, exp(-h / 1500)) + mul(cn2, exp(-h / 100))
  // spherical-wave coherence diameter from the weighted path integral
  pure def fried(lambda: int, integral: int): int =
    pow(mul(mul(integral, dec(423, -3)), sq(div(2 * PI, lambda))), -dec(6, -1))
  pure def p53(x: int): int = { val c = cbrt(x) mul3(x, c, c) }
  pure def coherence(lambda: int, z: List[int], cn2: List[int]): int =
    fried(lambda, trapz(range(0, z.length()).foldl([], (acc1, i) => acc1.append(mul(cn2[i], p53(div(z[i], maxl(z)))))), z))
  // weighted path integral from the ground to a sensor at `altitude`, slant L.
  // With z = L s^3 the weight (z/L)^(5/3) is s^5; Simpson's rule in s.
  pure def pathIntegral(altitude: int, L: int, v: int, cn2: int, n: int): int = {
    val sum = range(0, n + 1).foldl(0, (acc2, i) => acc2 + ({
      val s = real(i) / n
      val s2 = sq(s)
      val w = if (i == 0 or i == n) 1 else if (i % 2 == 1) 4 else 2
      if (i == 0) 0
      else w * mul(profile(pathHeight(0, altitude, L, mul(L, mul(s2, s))), v, cn2), mul(mul(sq(s2), s2), s)) }))
    mul(L, sum) / n
  }
  pure def friedOnPath(lambda: int, altitude: int, L: int, v: int, cn2: int): int =
    fried(lambda, pathIntegral(altitude, L, v, cn2, 64))
  // r0 at `lambda` from r0 at one micrometre
  pure def scaled(r0: int, lambda: int): int = mul(r0, pow(mul(lambda, dec(1, 6)), dec(12, -1)))
  pure def polychromatic(u: int, v: int, wl: List[int], ws: List[int], r0: int, D: int, t: int, vel: int): int =
    weighted(ws, range(0, wl.length()).foldl([], (acc3, i) => acc3.append(windTurbulence(u, v, wl[i], D, scaled(r0, wl[i]), t, vel))))
  pure def bandFried(wl: List[int], ws: List[int], r0: int): int =
    weighted(ws, range(0, wl.length()).foldl([], (acc4, i) => acc4.append(scaled(r0, wl[i]))))

  // magnitude of a kernel's response at a cycles/sample along columns and b
  // along rows, by Horner's rule in exp(-2 pi i a) and exp(-2 pi i b)
  pure def cmul(x: (int, int), y: (int, int)): (int, int) =
    (mul(x._1, y._1) - mul(x._2, y._2), mul(x._1, y._2) + mul(x._2, y._1))
  pure def response(k: List[int], rows: int, cols: int, a: int, b: int): int = {
    val za = (cosPi(2 * a), -sinPi(2 * a))
    val zb = (cosPi(2 * b), -sinPi(2 * b))
    val h = range(0, rows).foldl((0, 0), (acc, i) => {
      val row = range(0, cols).foldl((0, 0), (q, j) => {
        val m = cmul(q, za)
        (m._1 + k[(rows - i) * cols - 1 - j], m._2) })
      val m = cmul(acc, zb)
      (m._1 + row._1, m._2 + row._2) })
    sqrt(sq(h._1) + sq(h._2))
  }

  run responseTest = {
    val k = [0, -ONE, 0, -ONE, real(5), -ONE, 0, -ONE, 0]
    all { assert(near(response(k, 3, 3, 0, 0), ONE, 10^20)), assert(near(response(k, 3, 3, HALF, HALF), real(9), 10^20)),
          assert(near(response([ONE, real(2)], 1, 2, HALF, dec(3, -1)), ONE, 10^20)) } }
  run pathTest = {
    val a = pathIntegral(real(5000), real(7000), real(21), dec(17, -15), 64)
    val b = pathIntegral(real(5000), real(7000), real(21), dec(17, -15), 128)
    assert(abs(a - b) * 100000 < a) }
}
