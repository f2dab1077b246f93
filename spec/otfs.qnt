// Closed forms of the component transfer functions (pybsm.otf), one frequency
// pair (u, v) at a time; u, v in cycles/radian unless noted.
module otfs {
  import fx.* from "./fx"
  import cases.* from "./cases"

  pure def hypot(u: int, v: int): int = sqrt(sq(u) + sq(v))

  // overlap of two unit-diameter discs at relative distance x
  pure def disc(x: int): int =
    if (x >= ONE) 0 else mul(div(TWO, PI), acos(x) - mul(x, sqrt(ONE - sq(x))))
  // diffraction by an annular aperture, linear obscuration eta (O'Neill 1956)
  pure def aperture(u: int, v: int, lambda: int, D: int, eta: int): int = {
    val x = div(mul(hypot(u, v), lambda), D)          // frequency over cutoff
    if (x >= ONE) 0
    else if (eta == 0) disc(x)
    else {
      val e2 = sq(eta)
      val c = if (2 * x <= ONE - eta) -2 * e2
        else if (2 * x >= ONE + eta) 0
        else {
          val phi = acos(div(ONE + e2 - 4 * sq(x), 2 * eta))
          mul(div(2 * eta, PI), sin(phi)) + mul(div(ONE + e2, PI), phi)
            - mul(div(2 * (ONE - e2), PI), atan(div(mul(ONE + eta, tan(phi / 2)), ONE - eta))) - 2 * e2
        }
      div(disc(x) + mul(e2, disc(div(x, eta))) + c, ONE - e2)
    }
  }
  // clear aperture with defocus (Hopkins 1955, series up to J7/J8)
  pure def defocusAlpha(u: int, v: int, lambda: int, D: int, f: int, dz: int): int = {
    val s = 2 * div(mul(hypot(u, v), lambda), D)
    val w20 = div(dz / 2, ONE + 4 * sq(div(f, D)))
    mul(div(mul(4 * PI, w20), lambda), s)
  }
  pure def defocusedAperture(u: int, v: int, lambda: int, D: int, f: int, dz: int): int = {
    val s = 2 * div(mul(hypot(u, v), lambda), D)
    if (s >= TWO) 0
    else {
      val b = acos(s / 2)
      if (dz == 0) div(2 * b - sin(2 * b), PI)
      else if (s == 0) ONE
      else {
        val a = defocusAlpha(u, v, lambda, D, f, dz)
        val j = range(0, 19).foldl([], (acc, n) => acc.append(bessel(n, a)))
        val even = range(1, 9).foldl(mul(b, j[1]), (t, k) =>
          t + (if (k % 2 == 1) 1 else -1) * mul(sin(2 * k * b), j[2 * k - 1] - j[2 * k + 1]) / (2 * k))
        val odd = range(0, 9).foldl(0, (t, k) =>
          t + (if (k % 2 == 0) 1 else -1) * mul(sin((2 * k + 1) * b), j[2 * k] - j[2 * k + 2]) / (2 * k + 1))
        div(4 * (mul(cos(mul(a, s) / 2), even) - mul(sin(mul(a, s) / 2), odd)), mul(PI, a))
      }
    }
  }
  // the same with the terms that are printed and no more: for strong defocus the two differ by up to 0.007
  pure def printedDefocus(u: int, v: int, lambda: int, D: int, f: int, dz: int): int = {
    val s = 2 * div(mul(hypot(u, v), lambda), D)
    if (s >= TWO) 0
    else if (s == 0) ONE
    else {
      val b = acos(s / 2)
      val a = defocusAlpha(u, v, lambda, D, f, dz)
      val j = range(0, 9).foldl([], (accp1, n) => accp1.append(bessel(n, a)))
      val even = range(1, 4).foldl(mul(b, j[1]), (t, k) =>
        t + (if (k % 2 == 1) 1 else -1) * mul(sin(2 * k * b), j[2 * k - 1] - j[2 * k + 1]) / (2 * k))
      val odd = range(0, 4).foldl(0, (t, k) =>
        t + (if (k % 2 == 0) 1 else -1) * mul(sin((2 * k + 1) * b), j[2 * k] - j[2 * k + 2]) / (2 * k + 1))
      div(4 * (mul(cos(mul(a, s) / 2), even) - mul(sin(mul(a, s) / 2), odd)), mul(PI, a))
    }
  }
  pure def chargeTransferAxis(pu: int, n: int, phases: int, eff: int, f: int): int =
    exp(-mul(mul(real(phases), mul(n, ONE - eff)), ONE - cosPi(2 * div(pu, f))))
  pure def chargeTransfer(u: int, v: int, pX: int, pY: int, nX: int, nY: int, phases: int, eff: int, f: int): int =
    mul(chargeTransferAxis(mul(pX, u), nX, phases, eff, f), chargeTransferAxis(mul(pY, v), nY, phases, eff, f))
  pure def geomDefocus(u: int, v: int, wX: int, wY: int): int =
    exp(-mul(sq(PI) / 4, sq(mul(wX, u)) + sq(mul(wY, v))))
  pure def detector(u: int, v: int, wX: int, wY: int, f: int): int =
    mul(sinc(div(mul(wX, u), f)), sinc(div(mul(wY, v), f)))
  // n x n detectors at pitch p summed into one
  pure def aggregate(pu: int, f: int, n: int): int =
    range(0, n).foldl(0, (t, i) => t + cosPi(div(mul(pu, real(2 * i - n + 1)), f))) / n
  pure def aggregatedDetector(u: int, v: int, wX: int, wY: int, pX: int, pY: int, f: int, n: int): int =
    mul3(aggregate(mul(pX, u), f, n), aggregate(mul(pY, v), f, n), detector(u, v, wX, wY, f))
  // carrier diffusion; alpha: absorption, ald: depletion width, al0: diffusion length
  pure def diffusionTerm(al: int, alpha: int, ald: int): int =
    ONE - div(exp(-mul(alpha, ald)), ONE + mul(alpha, al))
  pure def diffusion(u: int, v: int, alpha: int, ald: int, al0: int, f: int): int = {
    // al0 = 0: no diffusion, both terms are the same
    val q = mul(al0, div(mul(2 * PI, hypot(u, v)), f))
    div(diffusionTerm(div(al0, sqrt(ONE + sq(q))), alpha, ald), diffusionTerm(al0, alpha, ald))
  }
  pure def drift(u: int, v: int, aX: int, aY: int): int = mul(sinc(mul(aX, u)), sinc(mul(aY, v)))
  pure def gaussian(u: int, v: int, bX: int, bY: int): int = exp(-mul(PI, sq(mul(u, bX)) + sq(mul(v, bY))))
  pure def jitter(u: int, v: int, sX: int, sY: int): int =
    exp(-mul(2 * sq(PI), sq(mul(sX, u)) + sq(mul(sY, v))))
  // time-delay integration: real and imaginary part
  pure def tdi(u: int, w: int, stages: int, phases: int, beta: int, f: int): (int, int) = {
    val x = div(mul(w, u), mul(f, beta))
    val n = stages * phases
    val a = sinc(x)
    val y = mul(x, beta - ONE)
    // many steps: the sum of the geometric series
    val bottom = sinPi(y)
    if (n > 80) {
      if (abs(bottom) < 10^20) (a, 0)
      else {
        val q = div(sinPi(n * y), bottom)
        (mul3(a, q, cosPi((n - 1) * y)) / n, -mul3(a, q, sinPi((n - 1) * y)) / n)
      }
    } else {
      val re = range(0, n).foldl(0, (t, i) => t + cosPi(2 * i * y))
      val im = range(0, n).foldl(0, (t, i) => t - sinPi(2 * i * y))
      (mul(a, re) / n, mul(a, im) / n)
    }
  }
  // atmospheric turbulence; alpha 0: long exposure, 1/2: short exposure (far field)
  pure def turbulence(u: int, v: int, lambda: int, D: int, r0: int, alpha: int): int = {
    val lr = mul(lambda, hypot(u, v))
    val x = div(lr, r0)
    val x53 = { val c = cbrt(x) mul3(x, c, c) }
    exp(-mul3(dec(344, -2), x53, ONE - mul(alpha, cbrt(div(lr, D)))))
  }
  // wind-adjusted: exp(-vel t/r0) of the short exposure, the rest of the long one
  pure def windTurbulence(u: int, v: int, lambda: int, D: int, r0: int, t: int, vel: int): int = {
    val w = exp(-div(mul(vel, t), r0))
    mul(w, turbulence(u, v, lambda, D, r0, HALF)) + mul(ONE - w, turbulence(u, v, lambda, D, r0, 0))
  }
  pure def wavefront(u: int, v: int, lambda: int, pv: int, lX: int, lY: int): int = {
    val a = exp(-(sq(div(mul(lambda, u), lX)) + sq(div(mul(lambda, v), lY))))
    exp(-mul(pv, ONE - a))
  }
  pure def wavefront2(u: int, v: int, cutoff: int, rms: int): int = {
    val x = div(hypot(u, v), cutoff)
    ONE - mul(sq(div(rms, dec(18, -2))), ONE - 4 * sq(x - HALF))
  }
  // magnitude of a kernel's frequency response; a, b in cycles per sample along
  // columns (right) and rows (down)
  pure def kernelResponse(k: List[List[int]], a: int, b: int): int = {
    val re = range(0, k.length()).foldl(0, (t, i) => t + range(0, k[i].length()).foldl(0, (q, j) =>
      q + mul(k[i][j], cosPi(2 * (j * a + i * b)))))
    val im = range(0, k.length()).foldl(0, (t, i) => t + range(0, k[i].length()).foldl(0, (q, j) =>
      q + mul(k[i][j], sinPi(2 * (j * a + i * b)))))
    sqrt(sq(re) + sq(im))
  }
}
