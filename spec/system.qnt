// The system transfer function of a sensor and scenario (pybsm.otf.common_OTFs).
module system {
  import fx.* from "./fx"
  import cases.* from "./cases"
  import otfs.* from "./otfs"
  import analytic.* from "./analytic"
  import turbulence.* from "./turbulence"
  import camera.* from "./camera"

  type Scene = { haze: int, altitude: int, ground: int, aircraft: int, wind: int, cn2: int }
  pure def sceneF(s: Scene): str -> List[int] = Map("altitude" -> [s.altitude], "ground_range" -> [s.ground],
    "aircraft_speed" -> [s.aircraft], "ha_wind_speed" -> [s.wind], "cn2_at_1m" -> [s.cn2])
  pure def sceneK(s: Scene): str -> int = Map("ihaze" -> s.haze)

  // components at (u, v); `time` the integration time of one TDI stage
  pure def apertureBand(s: Sensor, wl: List[int], ws: List[int], u: int, v: int): int =
    weighted(ws, range(0, wl.length()).foldl([], (acc1, i) => acc1.append(aperture(u, v, wl[i], s.D, s.eta))))
  pure def wavefrontBand(s: Sensor, wl: List[int], ws: List[int], u: int, v: int): int =
    weighted(ws, range(0, wl.length()).foldl([], (acc2, i) => acc2.append(wavefront(u, v, wl[i], mul(s.pv, sq(div(s.pvW, wl[i]))), s.lX, s.lY))))
  pure def driftOf(s: Sensor, time: int, u: int, v: int): int =
    drift(u, v, mul3(s.daX, time, s.nTdi), mul3(s.daY, time, s.nTdi))
  // r1: coherence diameter at one micrometre along the line of sight
  pure def turbulenceBand(s: Sensor, sc: Scene, wl: List[int], ws: List[int], r1: int, time: int, u: int, v: int): int =
    if (sc.cn2 == 0) ONE else polychromatic(u, v, wl, ws, r1, s.D, mul(time, s.nTdi), sc.aircraft)
  pure def pathFried(sc: Scene, slant: int): int =
    if (sc.cn2 == 0) 0 else friedOnPath(dec(1, -6), sc.altitude, slant, sc.wind, sc.cn2)

  pure def kernelOf(s: Sensor): List[int] = s.kernel.foldl([], (l, row) => l.concat(row))
  pure def isFilter(s: Sensor): bool = kernelOf(s).length() > 1
  // the kernel's response within 1/100 cycle of (u, v): lowest and highest value
  pure def filterAround(s: Sensor, u: int, v: int): List[int] = {
    val ifov = div(s.pX, s.f)
    val rows = s.kernel.length()
    val cols = s.kernel[0].length()
    val k = kernelOf(s)
    if (not(isFilter(s))) [ONE]
    else range(0, 9).foldl([], (acc3, i) => acc3.append(response(k, rows, cols, mul(u, ifov) + dec(i % 3 - 1, -2), -mul(v, ifov) + dec(i / 3 - 1, -2))))
  }

  // --------------------------------------------------------- generators
  // kernels that sum to one: none, row, column, 3x3, 5x5
  pure def genKernel(r: int -> int, i: int): List[List[int]] = {
    val kind = pick(r, i, 10)
    val rows = [1, 1, 3, 3, 3, 5, 1, 1, 1, 1][kind]
    val cols = [1, 3, 1, 3, 3, 5, 1, 1, 1, 1][kind]
    val n = rows * cols
    val raw = values(r, i + 1, n, -dec(4, -1), dec(6, -1))
    val mid = (rows / 2) * cols + cols / 2
    val flat = range(0, n).foldl([], (acc1, j) => acc1.append(if (j == mid) raw[j] + ONE - suml(raw) else raw[j]))
    range(0, rows).foldl([], (acc2, a) => acc2.append(flat.slice(a * cols, (a + 1) * cols)))
  }
  pure def genScene(r: int -> int, i: int): Scene = {
    val alt = [uni(r, i, real(2), real(100)), uni(r, i, real(100), real(2000)), uni(r, i, real(2000), real(20000))][pick(r, i + 1, 3)]
    { haze: 1 + pick(r, i + 6, 2), altitude: alt,
      ground: if (yes(r, i + 2, 20)) 0 else mul(alt, uni(r, i + 3, 0, real(4))),
      // from standing still to a satellite
      aircraft: if (yes(r, i + 4, 30)) 0 else if (yes(r, i + 7, 15)) uni(r, i + 4, real(250), real(8000)) else uni(r, i + 4, ONE, real(250)),
      wind: if (yes(r, i + 5, 20)) 0 else uni(r, i + 5, ONE, real(40)),
      cn2: if (yes(r, i + 6, 30)) 0 else if (yes(r, i + 3, 35)) logu(r, i + 7, -22, -16) else logu(r, i + 7, -16, -13) }
  }
}
