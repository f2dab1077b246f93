// Generator machines for imaging.qnt.
module gen_imaging {
  import fx.* from "./fx"
  import cases.* from "./cases"
  import imaging.* from "./imaging"

  var c: Case
  pure val TINY = 10^30

  // one axis of a transfer function: even or odd bump, value 1 or 0 at zero
  pure def axis(n: int, a: int, b: int, odd: bool): List[int] =
    range(0, n).foldl([], (acc1, j) => acc1.append({
      val x = real(j - n / 2) / (n / 2)
      mul(if (odd) x else ONE, mul(exp(-mul(a, sq(x))), ONE + mul(b, sq(x)))) }))
  pure def genTransfer(r: int -> int, i: int, n: int, skew: bool): List[Term] = genRectangular(r, i, n, n, skew)
  pure def genRectangular(r: int -> int, i: int, ny: int, n: int, skew: bool): List[Term] = {
    val wide = if (yes(r, i, 50)) real(12) else real(40)      // kernels from a few samples to most of the grid
    val narrow = uni(r, i + 7, 0, wide)
    val a = narrow + uni(r, i + 1, 0, real(3))
    val b = narrow + uni(r, i + 2, 0, real(8))
    val g = if (yes(r, i + 3, 30)) uni(r, i + 3, 0, TWO) else 0
    val d = uni(r, i + 4, -dec(6, -1), dec(6, -1))
    val main = { y: axis(ny, a, g, false), x: axis(n, b, 0, false) }
    val diag = { y: axis(ny, a + ONE, 0, true), x: (axis(n, b + ONE, 0, true)).foldl([], (acc2, q) => acc2.append(mul(q, d))) }
    val oneSided = { y: axis(ny, a, 0, false), x: (axis(n, b, 0, true)).foldl([], (acc3, q) => acc3.append(mul(q, dec(4, -1)))) }
    if (skew) [main, diag, oneSided] else [main, diag]
  }

  // ------------------------------------------------------------------ C12
  pure def psfCase(r: int -> int): Case = {
    val n = if (yes(r, 0, 20)) 4 + pick(r, 1, 7) else 11 + pick(r, 1, 15)
    val skew = yes(r, 2, 25)
    val rows = if (yes(r, 16, 70)) n else 4 + pick(r, 17, 22)
    val least = min2(n, rows)
    val ts = genRectangular(r, 3, rows, n, skew)
    val m = if (yes(r, 12, 15)) n else 1 + pick(r, 13, 2 * least)
    val df = logu(r, 14, 2, 5)
    // the requested sampling gives m samples over the transform's extent
    val dx = div(ONE, mul(df, real(m) + uni(r, 15, dec(5, -2), dec(95, -2))))
    val whole = spread(ts, m)
    { op: "psf", k: Map("rows" -> rows, "cols" -> n), f: Map("otf" -> dense(ts), "df" -> [df], "dx" -> [dx]),
      e: Map("psf" -> dense(psf(ts, m))),
      ek: Map("m" -> m, "near" -> (if (cropMargin(whole, m, least) < dec(1, -5)) 1 else 0),
              "symmetric" -> (if (not(skew) and n % 2 == 1 and rows % 2 == 1) 1 else 0)) }
  }
  // a large grid with a separable transfer function, exchanged as its axes
  pure def largePsfCase(r: int -> int): Case = {
    val n = 26 + pick(r, 1, 75)
    val ts = [genTransfer(r, 3, n, false)[0]]
    val m = if (yes(r, 12, 15)) n else 1 + pick(r, 13, n + n / 2)
    val df = logu(r, 14, 2, 5)
    val dx = div(ONE, mul(df, real(m) + uni(r, 15, dec(5, -2), dec(95, -2))))
    val whole = spread(ts, m)
    val p = psf(ts, m)
    { op: "large_psf", k: Map(), f: Map("otf_y" -> ts[0].y, "otf_x" -> ts[0].x, "df" -> [df], "dx" -> [dx]),
      e: Map("y_0" -> p[0].y, "x_0" -> p[0].x, "y_1" -> p[1].y, "x_1" -> p[1].x), ek: Map("near" -> (if (cropMargin(whole, m, n) < dec(1, -5)) 1 else 0)) }
  }
  // large grids whose transform is a few points: H(f) = a0 + sum of 2 a_i cos(2 pi f . p_i), so that
  // the kernel, of as many samples as the grid, has a0 in the middle and a_i at +-p_i; or one-sided, with a
  // phase: a0 + sum of a_i exp(-2 pi i f . p_i); the a_i may be negative
  type Echo = { dy: int, dx: int, a: int }
  pure def genEchoes(r: int -> int, i: int, n: int): List[Echo] = {
    val reach = [n / 8, n / 3, (n - 1) / 2 - 1][pick(r, i, 3)]
    val k = 1 + pick(r, i + 1, 3)
    val es = range(0, k).foldl([], (acc20, j) => acc20.append({ dy: mix(r, i + 2, 2 * j) % (2 * reach + 1) - reach, dx: mix(r, i + 2, 2 * j + 1) % (2 * reach + 1) - reach,
      a: dec(2 + mix(r, i + 4, j) % 40, -2) * (if (mix(r, i + 11, j) % 5 == 0) -1 else 1) }))
    val low = es.foldl(0, (acc35, q) => acc35 + (if (q.a < 0) -q.a else 0))
    val both = not(yes(r, i + 7, 35))
    es.foldl([{ dy: 0, dx: 0, a: uni(r, i + 6, dec(3, -1), ONE) + 3 * low }], (acc21, q) => if (both) acc21.append(q).append({ ...q, dy: -q.dy, dx: -q.dx }) else acc21.append(q))
  }
  pure def echoTotal(es: List[Echo]): int = es.foldl(0, (acc22, q) => acc22 + q.a)
  pure def echoHeld(es: List[Echo], n: int, k: int): int = {
    val lo = cropLo(n, k)
    val hi = cropHi(n, k)
    val c0 = n / 2
    es.foldl(0, (acc23, q) => acc23 + (if (lo <= c0 + q.dy and c0 + q.dy < hi and lo <= c0 + q.dx and c0 + q.dx < hi) q.a else 0))
  }
  // window that is kept: the first to hold more than 95 per cent
  pure def echoWindow(es: List[Echo], n: int): (int, int) = {
    val k = supports(n).foldl((0, false), (acc24, m) => if (acc24._2) acc24 else (m, div(echoHeld(es, n, m), echoTotal(es)) > dec(95, -2)))._1
    if (k == 0) (0, n) else (cropLo(n, k), cropHi(n, k))
  }
  pure def echoMargin(es: List[Echo], n: int): int =
    supports(n).foldl(ONE, (acc25, m) => min2(acc25, abs(div(echoHeld(es, n, m), echoTotal(es)) - dec(95, -2))))
  // what of the echoes lies in the window, summing to one
  pure def echoKernel(es: List[Echo], n: int): List[Echo] = {
    val w = echoWindow(es, n)
    val c0 = n / 2
    val kept = es.select(q => w._1 <= c0 + q.dy and c0 + q.dy < w._2 and w._1 <= c0 + q.dx and c0 + q.dx < w._2)
    val t = echoTotal(kept)
    kept.foldl([], (acc26, q) => acc26.append({ ...q, a: div(q.a, t) }))
  }
  pure def echoLists(es: List[Echo]): str -> List[int] =
    Map("echo_y" -> es.foldl([], (acc27, q) => acc27.append(real(q.dy))), "echo_x" -> es.foldl([], (acc28, q) => acc28.append(real(q.dx))), "echo_a" -> es.foldl([], (acc29, q) => acc29.append(q.a)))
  pure def echoPsfCase(r: int -> int): Case = {
    val n = [61, 101, 201, 301, 401, 601, 1501][pick(r, 0, 7)] - (if (yes(r, 1, 30)) 1 else 0)
    val es = genEchoes(r, 2, n)
    val w = echoWindow(es, n)
    val df = logu(r, 14, 2, 5)
    { op: "echo_psf", k: Map("n" -> n), f: merge(echoLists(es), Map("df" -> [df], "dx" -> [div(ONE, mul(df, real(n) + uni(r, 15, dec(5, -2), dec(95, -2))))])),
      e: echoLists(echoKernel(es, n)), ek: Map("size" -> w._2 - w._1, "middle" -> n / 2 - w._1, "near" -> (if (echoMargin(es, n) < dec(1, -5)) 1 else 0)) }
  }
  action stepPsf = { nondet r = RV.oneOf() c' = if (yes(r, 70, 6)) largePsfCase(r) else if (yes(r, 71, 6)) echoPsfCase(r) else psfCase(r) }
  val lawPsf = and {
    c.op == "echo_psf" implies near(suml(c.e.get("echo_a")), ONE, TINY),
    c.op == "large_psf" implies near(mul(suml(c.e.get("y_0")), suml(c.e.get("x_0"))) + mul(suml(c.e.get("y_1")), suml(c.e.get("x_1"))), ONE, TINY),
    (c.op == "psf") implies {
    val p = c.e.get("psf")
    val m = p.length()
    and { near(suml(p), ONE, TINY),
          c.ek.get("symmetric") == 1 implies range(0, m).foldl(true, (b, i) => b and near(p[i], p[m - 1 - i], TINY)) } } }

  // ------------------------------------------------------------------ C13
  pure def genImage(r: int -> int, i: int, rows: int, cols: int): List[Term] =
    [{ y: values(r, i, rows, ONE, real(9)), x: values(r, i + 3, cols, ONE, real(9)) },
     { y: values(r, i + 1, rows, 0, real(20)), x: values(r, i + 4, cols, 0, real(20)) }]
  // contents of either sign, and now and then nothing but negative values
  pure def signed(r: int -> int, i: int, j: int, img: List[Term]): List[Term] =
    if (not(yes(r, j, 35))) img
    else [{ y: values(r, i, img[0].y.length(), -real(9), -ONE), x: img[0].x },
          { y: img[1].y.foldl([], (neg1, y) => neg1.append(if (yes(r, j + 1, 50)) -y else y)), x: img[1].x }]
  pure def genSize(r: int -> int, i: int, n: int): int = n
  pure def applyCase(r: int -> int): Case = {
    val n = if (yes(r, 0, 25)) 5 + pick(r, 1, 6) else 11 + pick(r, 1, 6)
    val ts = genTransfer(r, 3, n, false)
    val m = 3 + pick(r, 13, n + 4)
    val k = psf(ts, m)
    val ks = k[0].x.length()
    // a fifth of the images smaller than the kernel in one direction or both
    val rows = if (yes(r, 26, 20)) 2 + pick(r, 16, ks) else ks + pick(r, 16, 8)
    val cols = if (yes(r, 27, 20)) 2 + pick(r, 17, ks) else ks + 2 + pick(r, 17, 8)
    val img = signed(r, 18, 73, genImage(r, 18, rows, cols))
    // a reference pixel subtends 2 atan(gsd/2/range); now and then that is a wide angle
    val per = real(m) + uni(r, 15, dec(1, -1), dec(9, -1))
    val df = if (yes(r, 28, 15)) div(ONE, mul(uni(r, 14, dec(5, -2), dec(2, 0)), per)) else logu(r, 14, 2, 5)
    val dx = div(ONE, mul(df, per))
    val rng = logu(r, 24, 2, 6)
    val gsd = 2 * mul(rng, tan(dx / 2))
    val ratio = uni(r, 25, dec(3, -1), dec(14, -1))
    val ifov = div(div(gsd, rng), ratio)
    val orows = newSize(rows, div(gsd, rng), ifov)
    val ocols = newSize(cols, div(gsd, rng), ifov)
    val out = resizeBoth(filtered(img, k), orows, ocols)
    // distance of each side from a rounding decision
    val tie = (if (abs(mul(real(rows), ratio) - real(floorR(mul(real(rows), ratio))) - HALF) < dec(1, -3)) 1 else 0)
      + (if (abs(mul(real(cols), ratio) - real(floorR(mul(real(cols), ratio))) - HALF) < dec(1, -3)) 1 else 0)
    { op: "apply", k: Map("n" -> n, "rows" -> rows, "cols" -> cols),
      f: Map("otf" -> dense(ts), "img" -> dense(img), "df" -> [df], "gsd" -> [gsd], "range" -> [rng], "ifov" -> [ifov]),
      e: Map("sim" -> dense(out), "psf" -> dense(k)),
      ek: Map("orows" -> orows, "ocols" -> ocols, "tie" -> tie, "near" -> (if (cropMargin(spread(ts, m), m, n) < dec(1, -5)) 1 else 0)) }
  }
  // a large image of separable content: everything acts per axis, and the axes are what is exchanged
  pure def long(r: int -> int, i: int, n: int): List[int] = range(0, n).foldl([], (acc6, j) => acc6.append(ONE + real(mix(r, i, j) % 900) / 100))
  pure def largeCase(r: int -> int): Case = {
    val n = 11 + pick(r, 1, 6)
    val ts = [genTransfer(r, 3, n, false)[0]]
    val m = 3 + pick(r, 13, n + 4)
    val k = psf(ts, m)
    val ks = k[0].x.length()
    val rows = if (yes(r, 20, 70)) 130 + pick(r, 16, 500) else ks + 1 + pick(r, 16, 40)
    val cols = if (yes(r, 20, 35)) ks + 1 + pick(r, 17, 40) else 130 + pick(r, 17, 400)
    val img = [{ y: long(r, 18, rows), x: long(r, 19, cols) }]
    val df = logu(r, 14, 2, 5)
    val dx = div(ONE, mul(df, real(m) + uni(r, 15, dec(1, -1), dec(9, -1))))
    val rng = logu(r, 24, 2, 6)
    val gsd = 2 * mul(rng, tan(dx / 2))
    val ratio = uni(r, 25, dec(3, -1), dec(14, -1))
    val ifov = div(div(gsd, rng), ratio)
    val orows = newSize(rows, div(gsd, rng), ifov)
    val ocols = newSize(cols, div(gsd, rng), ifov)
    val out = resizeBoth(filtered(img, k), orows, ocols)
    val tie = (if (abs(mul(real(rows), ratio) - real(floorR(mul(real(rows), ratio))) - HALF) < dec(1, -3)) 1 else 0)
      + (if (abs(mul(real(cols), ratio) - real(floorR(mul(real(cols), ratio))) - HALF) < dec(1, -3)) 1 else 0)
    { op: "large", k: Map("n" -> n), f: Map("otf" -> dense(ts), "image_y" -> img[0].y, "image_x" -> img[0].x, "df" -> [df], "gsd" -> [gsd], "range" -> [rng], "ifov" -> [ifov]),
      e: Map("y_0" -> out[0].y, "x_0" -> out[0].x, "y_1" -> out[1].y, "x_1" -> out[1].x),
      ek: Map("tie" -> tie, "near" -> (if (cropMargin(spread(ts, m), m, n) < dec(1, -5)) 1 else 0)) }
  }
  pure def resampleCase(r: int -> int): Case = {
    val rows = 1 + pick(r, 0, 12)
    val cols = 1 + pick(r, 1, 12)
    val img = signed(r, 2, 73, genImage(r, 2, rows, cols))
    val ratio = uni(r, 8, dec(6, -1), dec(3, 0))
    val dx = logu(r, 9, -7, 1)
    val orows = roundR(mul(real(rows), ratio))
    val ocols = roundR(mul(real(cols), ratio))
    val tie = (if (abs(mul(real(rows), ratio) - real(floorR(mul(real(rows), ratio))) - HALF) < dec(1, -3)) 1 else 0)
      + (if (abs(mul(real(cols), ratio) - real(floorR(mul(real(cols), ratio))) - HALF) < dec(1, -3)) 1 else 0)
    { op: "resample", k: Map("rows" -> rows, "cols" -> cols), f: Map("img" -> dense(img), "dx_in" -> [dx], "dx_out" -> [div(dx, ratio)]),
      e: Map("out" -> dense(resizeBoth(img, orows, ocols))), ek: Map("orows" -> orows, "ocols" -> ocols, "tie" -> tie) }
  }
  // images of separable content plus a constant under such echoes, camera and image sampled alike: a pixel
  // gathers what lies at the echoes' displacements
  pure def echoImageCase(r: int -> int): Case = {
    val n = [31, 61, 101, 151, 201, 301][pick(r, 0, 6)]
    val es = genEchoes(r, 2, n)
    val k = echoKernel(es, n)
    val rows = 3 + pick(r, 10, 2 * n)
    val cols = 3 + pick(r, 11, 2 * n)
    val y = long(r, 18, rows)
    val x = long(r, 19, cols)
    val offset = real([0, 0, 10^6, 10^9][pick(r, 12, 4)])
    val df = logu(r, 14, 2, 5)
    val dx = div(ONE, mul(df, real(n) + uni(r, 15, dec(1, -1), dec(9, -1))))
    val rng = logu(r, 24, 2, 6)
    val gsd = 2 * mul(rng, tan(dx / 2))
    val at = range(0, 40).foldl([], (acc30, j) => acc30.append(((if (j < 4) (j % 2) * (rows - 1) else mix(r, 26, j) % rows), (if (j < 4) (j / 2) * (cols - 1) else mix(r, 28, j) % cols))))
    { op: "echo_image", k: Map("n" -> n), f: merge(echoLists(es), Map("image_y" -> y, "image_x" -> x, "offset" -> [offset], "df" -> [df], "gsd" -> [gsd], "range" -> [rng], "ifov" -> [div(gsd, rng)])),
      e: Map("row" -> at.foldl([], (acc31, p) => acc31.append(real(p._1))), "col" -> at.foldl([], (acc32, p) => acc32.append(real(p._2))),
             "value" -> at.foldl([], (acc33, p) => acc33.append(k.foldl(0, (acc34, q) => acc34 + mul3(q.a, y[mirrored(p._1 + q.dy, rows)], x[mirrored(p._2 + q.dx, cols)])))),
             "turned" -> at.foldl([], (acc36, p) => acc36.append(k.foldl(0, (acc37, q) => acc37 + mul3(q.a, y[mirrored(p._1 - q.dy, rows)], x[mirrored(p._2 - q.dx, cols)]))))),
      ek: Map("near" -> (if (echoMargin(es, n) < dec(1, -5)) 1 else 0)) }
  }
  action stepApply = { nondet r = RV.oneOf() c' = if (yes(r, 71, 5)) largeCase(r) else if (yes(r, 72, 6)) echoImageCase(r) else if (yes(r, 70, 75)) applyCase(r) else resampleCase(r) }
  val lawApply = (c.op == "resample") implies {
    val x = c.f.get("img")
    c.e.get("out").foldl(true, (acc5, y) => acc5 and (y <= maxl(x) + TINY and y >= minl(x) - TINY)) }

  action init = c' = NOCASE
}
