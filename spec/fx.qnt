// -*- mode: Bluespec; -*-
// Fixed-point real arithmetic with 60 decimals, used by every other module.
// A "real" x is represented by the integer round(x * ONE).  All operators are
// executable, so the specification is an executable reference model.
module fx {
  pure val ONE = 10^60
  pure val HALF = 5 * 10^59
  pure val TWO = 2 * 10^60
  pure val PI = 3141592653589793238462643383279502884197169399375105820974945
  pure val LN2 = 693147180559945309417232121458176568075500134360255254120680
  pure val LN10 = 2302585092994045684017991454684364207601101488628772976033328

  // n as a real; n * 10^e as a real (e may be negative, >= -60)
  pure def real(n: int): int = n * ONE
  pure def dec(n: int, e: int): int = n * 10^(60 + e)

  pure def abs(x: int): int = if (x < 0) -x else x
  pure def min2(a: int, b: int): int = if (a < b) a else b
  pure def max2(a: int, b: int): int = if (a > b) a else b
  pure def clamp(x: int, lo: int, hi: int): int = max2(lo, min2(hi, x))
  // floor division and non-negative remainder for positive b
  pure def fdivi(a: int, b: int): int = if (a >= 0) a / b else -((-a + b - 1) / b)
  pure def pmod(a: int, b: int): int = a - b * fdivi(a, b)

  pure def mul(a: int, b: int): int = a * b / ONE
  pure def div(a: int, b: int): int = a * ONE / b
  pure def sq(a: int): int = mul(a, a)
  pure def mul3(a: int, b: int, c: int): int = mul(mul(a, b), c)
  pure def floorR(x: int): int = fdivi(x, ONE)          // real -> integer
  pure def roundR(x: int): int = fdivi(x + HALF, ONE)   // nearest integer, halves up
  // a^k for a small natural exponent
  pure def powi(a: int, k: int): int = range(0, k).foldl(ONE, (p, i) => mul(p, a))

  // ---------------------------------------------------------------- roots
  // number of bits of n, rounded up to even, found by binary descent
  pure def bits2(n: int): int =
    [256, 128, 64, 32, 16, 8, 4, 2, 1].foldl(0, (e, k) => if (n >= 2^(2 * (e + k))) e + k else e)
  // floor of the integer square root (Newton from above)
  pure def isqrt(n: int): int =
    if (n <= 0) 0
    else range(0, 9).foldl(2^(bits2(n) + 1), (x, i) => (x + n / x) / 2)
  pure def sqrt(x: int): int = isqrt(x * ONE)
  // cube root of a non-negative real: Newton, started from a power of two
  pure def cbrt(x: int): int =
    if (x <= 0) 0
    else {
      val n = x * ONE * ONE
      val e = [128, 64, 32, 16, 8, 4, 2, 1].foldl(0, (e, k) => if (n >= 2^(3 * (e + k))) e + k else e)
      range(0, 11).foldl(2^(e + 1), (y, i) => (2 * y + n / (y * y)) / 3)
    }

  // ------------------------------------------------- exponential, logarithm
  // exp for any x below about 140; exactly 0 below -140 (10^-60)
  pure def exp(x: int): int =
    if (x < real(-140)) 0
    else {
      val k = fdivi(x + LN2 / 2, LN2)
      val r = (x - k * LN2) / 256
      val s = range(1, 19).foldl((ONE, ONE), (acc, i) => {
        val t = acc._1 * r / ONE / i
        (t, acc._2 + t)
      })._2
      val p = range(0, 8).foldl(s, (y, i) => y * y / ONE)
      if (k >= 0) p * 2^k else p / 2^(-k)
    }
  // natural logarithm of a positive real
  pure def ln(x: int): int = {
    val n = range(0, 1).foldl((x, 0), (acc, i) => {   // coarse scaling into [2/3, 4/3]
      val b = bits2f(acc._1)
      if (b >= 0) (acc._1 / 2^b, acc._2 + b) else (acc._1 * 2^(-b), acc._2 + b)
    })
    val m = if (n._1 > 4 * ONE / 3) (n._1 / 2, n._2 + 1) else n
    val z = (m._1 - ONE) * ONE / (m._1 + ONE)
    val z2 = z * z / ONE
    val s = range(0, 45).foldl((z, 0), (acc, i) => (acc._1 * z2 / ONE, acc._2 + acc._1 / (2 * i + 1)))._2
    2 * s + m._2 * LN2
  }
  // floor(log2(x)) of a positive real
  pure def bits2f(x: int): int =
    if (x >= ONE)
      [256, 128, 64, 32, 16, 8, 4, 2, 1].foldl(0, (e, k) => if (x >= ONE * 2^(e + k)) e + k else e)
    else
      -([128, 64, 32, 16, 8, 4, 2, 1].foldl(0, (e, k) => if (x * 2^(e + k) < ONE) e + k else e)) - 1
  pure def log10(x: int): int = div(ln(x), LN10)
  // x^p for x >= 0
  pure def pow(x: int, p: int): int = if (x <= 0) (if (p == 0) ONE else 0) else exp(mul(p, ln(x)))

  // ---------------------------------------------------------- trigonometry
  pure def sinTaylor(x: int): int = {
    val x2 = x * x / ONE
    range(1, 24).foldl((x, x), (acc, i) => {
      val t = -(acc._1 * x2 / ONE) / ((2 * i) * (2 * i + 1))
      (t, acc._2 + t)
    })._2
  }
  pure def cosTaylor(x: int): int = {
    val x2 = x * x / ONE
    range(1, 24).foldl((ONE, ONE), (acc, i) => {
      val t = -(acc._1 * x2 / ONE) / ((2 * i - 1) * (2 * i))
      (t, acc._2 + t)
    })._2
  }
  pure def sin(x: int): int = {
    val q = fdivi(x + PI / 4, PI / 2)
    val r = x - q * PI / 2
    val m = pmod(q, 4)
    if (m == 0) sinTaylor(r) else if (m == 1) cosTaylor(r)
    else if (m == 2) -sinTaylor(r) else -cosTaylor(r)
  }
  pure def cos(x: int): int = sin(x + PI / 2)
  // sin(pi x) and cos(pi x): exact at the integers and half-integers
  pure def sinPi(x: int): int = {
    val q = fdivi(x + ONE / 4, HALF)
    val r = mul(x - q * HALF, PI)
    val m = pmod(q, 4)
    if (m == 0) sinTaylor(r) else if (m == 1) cosTaylor(r)
    else if (m == 2) -sinTaylor(r) else -cosTaylor(r)
  }
  pure def cosPi(x: int): int = sinPi(x + HALF)
  pure def sinc(x: int): int = if (x == 0) ONE else div(sinPi(x), mul(PI, x))
  pure def tan(x: int): int = div(sin(x), cos(x))
  // arctangent: three half-angle steps, then the series
  pure def atan(x: int): int =
    if (x < 0) -atanPos(-x) else atanPos(x)
  pure def atanPos(x: int): int =
    if (x > ONE) PI / 2 - atan01(ONE * ONE / x) else atan01(x)
  pure def atan01(x: int): int = {
    val y = range(0, 3).foldl(x, (t, i) => div(t, ONE + sqrt(ONE + mul(t, t))))
    val y2 = y * y / ONE
    8 * range(0, 32).foldl((y, 0), (acc, i) => (-(acc._1 * y2 / ONE), acc._2 + acc._1 / (2 * i + 1)))._2
  }
  // arccosine on [-1, 1]
  pure def acos(x: int): int =
    if (x <= -ONE) PI else if (x >= ONE) 0
    else 2 * atan(sqrt(div(ONE - x, ONE + x)))
  pure def asin(x: int): int = PI / 2 - acos(x)

  // Bessel function of the first kind of integer order: by its power series, and far
  // from zero by Hankel's asymptotic expansion (low orders; error below 10^-25)
  pure def besselNear(n: int, x: int): int = {
    val h = x / 2
    val t0 = range(1, n + 1).foldl(ONE, (t, i) => mul(t, h) / i)
    val h2 = mul(h, h)
    range(1, 60 + 2 * (abs(x) / ONE)).foldl((t0, t0), (acc, k) => {
      val t = -mul(acc._1, h2) / (k * (k + n))
      (t, acc._2 + t)
    })._2
  }
  pure def besselFar(n: int, x: int): int = {
    val chi = x - n * PI / 2 - PI / 4
    // terms a_k / x^k with signs + + - - : even ones go with the cosine, odd ones with the sine
    val pq = range(1, 50).foldl((ONE, ONE, 0), (accb1, k) => {
      val t = div(accb1._1 * (4 * n * n - (2 * k - 1) * (2 * k - 1)) / (8 * k), x)
      if (k % 2 == 1) (t, accb1._2, accb1._3 + (if (k % 4 == 1) t else -t))
      else (t, accb1._2 + (if (k % 4 == 2) -t else t), accb1._3)
    })
    mul(sqrt(div(TWO, mul(PI, x))), mul(pq._2, cos(chi)) - mul(pq._3, sin(chi)))
  }
  pure def bessel(n: int, x: int): int =
    if (abs(x) <= 36 * ONE) besselNear(n, x)
    else if (x > 0) besselFar(n, x)
    else (if (n % 2 == 0) 1 else -1) * besselFar(n, -x)

  // ------------------------------------------------------- self checks
  pure def near(a: int, b: int, tol: int): bool = abs(a - b) <= tol
  pure val EPS = 10^10   // 1e-50
  run sqrtTest = all { assert(near(sq(sqrt(real(2))), real(2), EPS)), assert(sqrt(0) == 0), assert(sqrt(real(9)) == real(3)) }
  run cbrtTest = all { assert(near(powi(cbrt(real(7)), 3), real(7), EPS)), assert(near(cbrt(dec(1, -30)), dec(1, -10), EPS)) }
  run expLnTest = all {
    assert(near(exp(ln(dec(37, -1))), dec(37, -1), EPS)),
    assert(near(ln(dec(1, -30)), -30 * LN10, EPS)),
    assert(near(exp(ONE), 2718281828459045235360287471352662497757247093699959574966967, EPS)),
    assert(near(log10(dec(1, 25)), real(25), EPS)),
    assert(exp(real(-200)) == 0) }
  run trigTest = all {
    assert(near(sin(PI / 6), HALF, EPS)), assert(near(cos(PI), -ONE, EPS)),
    assert(near(tan(PI / 4), ONE, EPS)), assert(near(4 * atan(ONE), PI, EPS)),
    assert(near(acos(HALF), PI / 3, EPS)), assert(near(acos(-HALF), 2 * PI / 3, EPS)),
    assert(sinPi(real(7)) == 0), assert(near(sinc(HALF), div(TWO, PI), EPS)),
    assert(near(sq(sin(real(-123))) + sq(cos(real(-123))), ONE, EPS)) }
  run besselTest = assert(near(bessel(0, real(5)), -177596771314338304347397013056, 10^45 * 10^15)
    and near(mul(real(5), bessel(1, real(5)) + bessel(3, real(5))), 4 * bessel(2, real(5)), EPS))
  run besselFarTest = assert(near(besselFar(0, real(34)), besselNear(0, real(34)), 10^38) and near(besselFar(8, real(34)), besselNear(8, real(34)), 10^38)
    and near(besselFar(3, real(34)), besselNear(3, real(34)), 10^38))
}
