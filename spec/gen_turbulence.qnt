// Generator machines for turbulence.qnt.
module gen_turbulence {
  import fx.* from "./fx"
  import cases.* from "./cases"
  import otfs.* from "./otfs"
  import analytic.* from "./analytic"
  import turbulence.* from "./turbulence"

  var c: Case
  pure val TINY = 10^25

  // ------------------------------------------------------------------ C21
  pure def profileCase(r: int -> int): Case = {
    val n = 2 + pick(r, 0, 6)
    // heights and distances in whole metres, now and then
    val whole = yes(r, 13, 30)
    val z0 = knots(r, 1, n, 0, logu(r, 4, 1, 5))
    val h0 = values(r, 5, n, 0, [real(30), real(1000), real(28000), real(60000)][pick(r, 8, 4)])
    val z = if (whole) range(0, n).foldl([], (acc20, j) => acc20.append((floorR(z0[j]) + j) * ONE)) else z0
    val h = if (whole) h0.foldl([], (acc21, x) => acc21.append(floorR(x) * ONE)) else h0
    val v = if (yes(r, 9, 15)) 0 else uni(r, 9, real(1), if (yes(r, 20, 15)) real(200) else real(60))
    val a = if (yes(r, 10, 15)) 0 else logu(r, 11, -18, -12)
    val l = uni(r, 12, dec(35, -8), dec(12, -6))
    val cn2 = h.foldl([], (acc1, x) => acc1.append(profile(x, v, a)))
    { op: "profile", k: Map(), f: Map("h" -> h, "z" -> z, "v" -> [v], "cn2" -> [a], "lambda" -> [l]),
      e: Map("cn2" -> cn2, "r0" -> [coherence(l, z, cn2)], "r0_double" -> [coherence(2 * l, z, cn2)], "r0_stronger" -> [coherence(l, z, cn2.foldl([], (acc2, x) => acc2.append(3 * x)))]), ek: Map() }
  }
  pure def somePoints(r: int -> int, i: int, fc: int): List[(int, int)] = {
    val th = uni(r, i, 0, PI / 2)
    val rho = mul(fc, uni(r, i + 1, dec(1, -2), ONE))
    [(0, 0), (rho, 0), (0, rho / 2), (mul(rho, cos(th)), mul(rho, sin(th))), (-rho / 3, rho / 4)]
  }
  pure def us(ps: List[(int, int)]): List[int] = ps.foldl([], (acc3, p) => acc3.append(p._1))
  pure def vs(ps: List[(int, int)]): List[int] = ps.foldl([], (acc4, p) => acc4.append(p._2))
  pure def windCase(r: int -> int): Case = {
    val l = uni(r, 0, dec(35, -8), dec(12, -6))
    val D = logu(r, 1, -2, 1)
    val r0 = mul(D, logu(r, 2, -2, 1))
    val vel = if (yes(r, 3, 15)) 0 else uni(r, 4, ONE, real(300))
    // dwell from much shorter to much longer than r0/vel
    val t = if (yes(r, 5, 15)) 0 else mul(div(r0, max2(vel, ONE)), if (yes(r, 9, 30)) logu(r, 6, -5, -2) else logu(r, 6, -2, 2))
    val ps = somePoints(r, 7, mul(div(D, l), min2(ONE, div(r0, D))))
    { op: "wind", k: Map(), f: Map("u" -> us(ps), "v" -> vs(ps), "lambda" -> [l], "D" -> [D], "r0" -> [r0], "t" -> [t], "vel" -> [vel]),
      e: Map("H" -> ps.foldl([], (acc5, p) => acc5.append(windTurbulence(p._1, p._2, l, D, r0, t, vel))),
             "short" -> ps.foldl([], (acc6, p) => acc6.append(turbulence(p._1, p._2, l, D, r0, HALF))), "long" -> ps.foldl([], (acc7, p) => acc7.append(turbulence(p._1, p._2, l, D, r0, 0)))), ek: Map() }
  }
  pure def genPath(r: int -> int, i: int): (int, int) = {
    val alt = [uni(r, i, real(2), real(60)), uni(r, i, real(60), real(1500)), uni(r, i, real(1500), real(25000))][pick(r, i + 1, 3)]
    val g = if (yes(r, i + 2, 20)) 0 else if (yes(r, i + 3, 60)) mul(alt, uni(r, i + 4, 0, real(6))) else uni(r, i + 4, 0, real(30000))
    (alt, g)
  }
  pure def polyCase(r: int -> int): Case = {
    val path = genPath(r, 0)
    val L = slantRange(0, path._1, path._2)
    val v = if (yes(r, 6, 15)) 0 else uni(r, 7, real(2), real(50))
    val cn2 = logu(r, 8, -16, -13)
    val n = 1 + pick(r, 9, 4)
    val wl0 = if (n == 1) [uni(r, 10, dec(4, -7), dec(1, -5))] else knots(r, 10, n, dec(45, -8), uni(r, 13, dec(7, -7), dec(5, -6)))
    val wl = if (yes(r, 14, 40)) range(0, n).foldl([], (acc8, i) => acc8.append(wl0[n - 1 - i])) else wl0
    val ws = values(r, 15, n, dec(1, -2), real(4))
    val D = logu(r, 18, -2, 1)
    val r0 = friedOnPath(dec(1, -6), path._1, L, v, cn2)
    val vel = if (yes(r, 19, 15)) 0 else uni(r, 20, ONE, real(300))
    val t = if (yes(r, 21, 15)) 0 else mul(div(r0, max2(vel, ONE)), if (yes(r, 33, 30)) logu(r, 22, -5, -2) else logu(r, 22, -2, 2))
    val ps = somePoints(r, 23, mul(div(D, wl[0]), min2(ONE, div(scaled(r0, wl[0]), D))))
    { op: "polychromatic", k: Map(), f: Map("u" -> us(ps), "v" -> vs(ps), "wavelengths" -> wl, "weights" -> ws, "altitude" -> [path._1],
        "slant" -> [L], "D" -> [D], "wind" -> [v], "cn2" -> [cn2], "t" -> [t], "vel" -> [vel]),
      e: Map("H" -> ps.foldl([], (acc9, p) => acc9.append(polychromatic(p._1, p._2, wl, ws, r0, D, t, vel))), "r0" -> [bandFried(wl, ws, r0)]), ek: Map() }
  }
  action stepTurbulence = {
    nondet r = RV.oneOf()
    c' = if (yes(r, 70, 40)) profileCase(r) else if (yes(r, 71, 40)) windCase(r) else polyCase(r)
  }
  val lawTurbulence = and {
    c.op == "wind" implies (range(0, 5)).foldl(true, (acc10, i) => acc10 and (c.e.get("H")[i] <= c.e.get("short")[i] + TINY and c.e.get("H")[i] >= c.e.get("long")[i] - TINY)),
    c.op == "profile" implies and {
      // r0 grows as the 6/5 power of the wavelength and shrinks with stronger turbulence
      abs(c.e.get("r0_double")[0] - mul(c.e.get("r0")[0], pow(TWO, dec(12, -1)))) * 10^12 <= c.e.get("r0")[0],
      c.e.get("r0_stronger")[0] < c.e.get("r0")[0] },
    c.op == "polychromatic" implies and { near(c.e.get("H")[0], ONE, TINY), c.e.get("H").foldl(true, (acc11, x) => acc11 and (x >= 0 and x <= ONE + TINY)) }
  }

  // ------------------------------------------------------------------ C28
  pure val SHARPEN = [[0, -ONE, 0, -ONE, real(5), -ONE, 0, -ONE, 0], [ONE / 9, ONE / 9, ONE / 9, ONE / 9, ONE / 9, ONE / 9, ONE / 9, ONE / 9, ONE / 9]]
  // neighbourhood of one hundredth of a cycle around (a, b)
  pure def around(k: List[int], rows: int, cols: int, a: int, b: int): List[int] =
    range(0, 9).foldl([], (acc12, i) => acc12.append(response(k, rows, cols, a + dec(i % 3 - 1, -2), b + dec(i / 3 - 1, -2))))
  pure def filterCase(r: int -> int): Case = {
    val fixed = yes(r, 0, 20)
    val rows = if (fixed) 3 else 1 + pick(r, 1, 5)
    val cols = if (fixed) 3 else 1 + pick(r, 2, 5)
    val n = rows * cols
    val raw = values(r, 3, n, -HALF, ONE)
    // a quarter of the kernels of any sum
    val loose = yes(r, 46, 25)
    val at = (rows / 2) * cols + cols / 2
    val kernel = if (fixed) SHARPEN[pick(r, 6, 2)] else range(0, n).foldl([], (acc13, i) => acc13.append(if (i == at and not(loose)) raw[i] + ONE - suml(raw) else raw[i]))
    val ifov = logu(r, 7, -7, -3)
    // points inside the Nyquist square, away from its edge; every second one is
    // displaced by whole multiples of the sampling frequency
    val far = if (yes(r, 47, 25)) 121 else 5
    val ps = range(0, 5).foldl([], (acc14, i) => acc14.append(if (i == 0) (0, 0) else
      (uni(r, 8 + 2 * i, -dec(47, -2), dec(47, -2)), uni(r, 9 + 2 * i, -dec(47, -2), dec(47, -2)))))
    val qs = range(0, 5).foldl([], (acc15, i) => acc15.append(if (i < 3) ps[i] else (ps[i]._1 + real(pick(r, 20 + i, far) - far / 2), ps[i]._2 + real(pick(r, 25 + i, far) - far / 2))))
    { op: "filter", k: Map("rows" -> rows, "cols" -> cols, // somewhere in a larger array, at times in a very large one
          "pad_top" -> pick(r, 40, if (yes(r, 44, 35)) 120 else 4), "pad_left" -> pick(r, 41, if (yes(r, 45, 35)) 120 else 4), "pad_bottom" -> pick(r, 42, 3), "pad_right" -> pick(r, 43, 3)),
      f: Map("kernel" -> kernel, "ifov" -> [ifov], "u" -> qs.foldl([], (acc16, p) => acc16.append(div(p._1, ifov))), "v" -> qs.foldl([], (acc17, p) => acc17.append(div(p._2, ifov)))),
      // v points up, rows count down
      e: Map("low" -> ps.foldl([], (acc18, p) => acc18.append(minl(around(kernel, rows, cols, p._1, -p._2)))), "high" -> ps.foldl([], (acc19, p) => acc19.append(maxl(around(kernel, rows, cols, p._1, -p._2)))),
             "size" -> [suml(kernel.foldl([], (acc20, x) => acc20.append(abs(x))))]), ek: Map("unit" -> (if (n == 1 and not(loose)) 1 else 0), "loose" -> (if (loose) 1 else 0)) }
  }
  action stepFilter = { nondet r = RV.oneOf() c' = filterCase(r) }
  val lawFilter = (c.op == "filter") implies and {
    c.ek.get("loose") == 1 or (c.e.get("low")[0] <= ONE + TINY and c.e.get("high")[0] >= ONE - TINY),
    c.e.get("high").foldl(true, (acc21, x) => acc21 and (x <= c.e.get("size")[0] + TINY)) }

  action init = c' = NOCASE
}
