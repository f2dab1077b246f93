// Restoration of a blurred image (Wiener filter) and the footprint of one detector.
module restore {
  import fx.* from "./fx"

  // conj(H) / (|H|^2 + N) at one spatial frequency, H = re + i im
  pure def power(re: int, im: int): int = sq(re) + sq(im)
  pure def wiener(re: int, im: int, noise: int): (int, int) = {
    val den = power(re, im) + noise
    (div(re, den), -div(im, den))
  }
  // what is left of the scene at that frequency once blurred and restored: real, 0 to 1
  pure def restored(re: int, im: int, noise: int): int = div(power(re, im), power(re, im) + noise)
  pure def fieldOfView(width: int, focal: int): int = div(width, focal)
}
