// Descriptions of sensors, scenarios and estimated cameras (pybsm.simulation):
// what each one holds after construction, and that operations on one leave all
// others as they were.  The state is the table of all living descriptions.
module objects {
  import fx.* from "./fx"
  import cases.* from "./cases"

  type Obj = { kind: int, f: str -> List[int] }          // kind 0 sensor, 1 scenario

  var objs: List[Obj]
  var c: Case                                            // the operation just performed

  // documented defaults of the optional scalar arguments of a sensor
  pure val SENSOR_SCALARS = Map(
    "eta" -> 0, "int_time" -> ONE, "dark_current" -> 0, "other_irradiance" -> 0, "read_noise" -> 0,
    "max_n" -> dec(1, 8), "max_well_fill" -> ONE, "bit_depth" -> real(100), "n_tdi" -> ONE,
    "cold_shield_temperature" -> real(70), "optics_temperature" -> real(270), "optics_emissivity" -> 0,
    "cold_filter_transmission" -> ONE, "cold_filter_temperature" -> real(70), "cold_filter_emissivity" -> 0,
    "s_x" -> 0, "s_y" -> 0, "da_x" -> 0, "da_y" -> 0, "pv" -> 0, "pv_wavelength" -> dec(633, -9))
  pure val SCENARIO_SCALARS = Map(
    "aircraft_speed" -> 0, "target_reflectance" -> dec(15, -2), "target_temperature" -> real(295),
    "background_reflectance" -> dec(7, -2), "background_temperature" -> real(293),
    "ha_wind_speed" -> real(21), "cn2_at_1m" -> dec(17, -15))

  // a sensor from the arguments that were given
  pure def newSensor(given: str -> List[int]): str -> List[int] = {
    val px = given.get("p_x")[0]
    val py = if (given.keys().contains("p_y")) given.get("p_y")[0] else px
    val wx = if (given.keys().contains("w_x")) given.get("w_x")[0] else px
    // the fill factor of x holds for y unless a width is given
    val wy = if (given.keys().contains("w_y")) given.get("w_y")[0] else div(mul(wx, py), px)
    val n = given.get("opt_trans_wavelengths").length()
    val base = SENSOR_SCALARS.keys().mapBy(k => [SENSOR_SCALARS.get(k)])
    merge(merge(base, given), Map(
      "p_y" -> [py], "w_x" -> [wx], "w_y" -> [wy], "L_x" -> given.get("D"), "L_y" -> given.get("D"),
      "optics_transmission" -> replicate(n, ONE), "qe_wavelengths" -> given.get("opt_trans_wavelengths"),
      "qe" -> replicate(n, ONE), "other_noise" -> [0], "filter_kernel" -> [ONE], "frame_stacks" -> [ONE]))
  }
  pure def newScenario(given: str -> List[int]): str -> List[int] =
    merge(SCENARIO_SCALARS.keys().mapBy(k => [SCENARIO_SCALARS.get(k)]), given)

  pure def LIMIT: int = 6
  pure def sensorArgs(r: int -> int): str -> List[int] = {
    val px = uni(r, 0, dec(2, -6), dec(40, -6))
    val n = 2 + pick(r, 1, 3)
    val lo = uni(r, 2, dec(35, -8), dec(8, -6))
    val must = Map("D" -> [logu(r, 3, -2, 1)], "f" -> [logu(r, 4, -1, 1)], "p_x" -> [px],
                   "opt_trans_wavelengths" -> knots(r, 5, n, lo, lo + uni(r, 6, dec(1, -7), dec(5, -6))))
    val density = [5, 40, 95][pick(r, 7, 3)]
    val a = if (yes(r, 8, density)) merge(must, Map("p_y" -> [mul(px, uni(r, 9, dec(5, -1), TWO))])) else must
    val b = if (yes(r, 10, density)) merge(a, Map("w_x" -> [mul(px, uni(r, 11, dec(3, -1), ONE))])) else a
    val d = if (yes(r, 12, density)) merge(b, Map("w_y" -> [mul(px, uni(r, 13, dec(3, -1), ONE))])) else b
    val names = ["eta", "int_time", "dark_current", "other_irradiance", "read_noise", "max_n", "max_well_fill", "bit_depth", "n_tdi",
      "cold_shield_temperature", "optics_temperature", "optics_emissivity", "cold_filter_transmission", "cold_filter_temperature",
      "cold_filter_emissivity", "s_x", "s_y", "da_x", "da_y", "pv", "pv_wavelength"]
    range(0, 21).foldl(d, (m, i) => if (yes(r, 20 + i, density))
      merge(m, [(names[i], [if (r.get(45 + i) / 10000 % 100 < 20) 0 else dec(1 + r.get(45 + i) % 9999, -3)])].foldl(Map("D" -> m.get("D")), (q, kv) => q.put(kv._1, kv._2))) else m)
  }
  pure def scenarioArgs(r: int -> int): str -> List[int] = {
    val must = Map("ihaze" -> [real(1 + pick(r, 0, 2))], "altitude" -> [logu(r, 1, 1, 5)], "ground_range" -> [logu(r, 2, 1, 6)])
    val density = [5, 40, 95][pick(r, 7, 3)]
    val names = ["aircraft_speed", "target_reflectance", "target_temperature", "background_reflectance", "background_temperature",
      "ha_wind_speed", "cn2_at_1m"]
    range(0, 7).foldl(must, (m, i) => if (yes(r, 20 + i, density)) m.put(names[i], [if (r.get(45 + i) / 10000 % 100 < 20) 0 else dec(1 + r.get(45 + i) % 9999, -3)]) else m)
  }
  pure def bareCase(op: str, k: str -> int, f: str -> List[int]): Case = { op: op, k: k, f: f, e: Map(), ek: Map() }

  action makeSensor(r: int -> int): bool = {
    val g = sensorArgs(r)
    all { objs.length() < LIMIT, objs' = objs.append({ kind: 0, f: newSensor(g) }), c' = bareCase("sensor", Map(), g) }
  }
  action makeScenario(r: int -> int): bool = {
    val g = scenarioArgs(r)
    all { objs.length() < LIMIT, objs' = objs.append({ kind: 1, f: newScenario(g) }), c' = bareCase("scenario", Map("interp" -> pick(r, 60, 3)), g) }
  }
  // overwrite one element of one of the arrays a sensor owns
  pure val ARRAYS = ["optics_transmission", "qe", "other_noise", "filter_kernel"]
  action poke(r: int -> int): bool = {
    val o = pick(r, 0, max2(1, objs.length()))
    val name = ARRAYS[pick(r, 1, 4)]
    // (other_noise and filter_kernel may be integer arrays)
    val x = real(2 + pick(r, 2, 50))
    all {
      objs.length() > 0, objs[o].kind == 0,
      objs' = objs.replaceAt(o, { kind: 0, f: objs[o].f.put(name, objs[o].f.get(name).replaceAt(0, x)) }),
      c' = bareCase("poke", Map("obj" -> o, "array" -> pick(r, 1, 4)), Map("x" -> [x])) }
  }
  // replace a scalar attribute
  action setField(r: int -> int): bool = {
    val o = pick(r, 0, max2(1, objs.length()))
    val x = logu(r, 2, -2, 3)
    val names = if (objs.length() > 0 and objs[o].kind == 0) ["D", "int_time", "s_x", "L_x", "frame_stacks", "w_y"]
      else ["altitude", "ground_range", "target_temperature", "cn2_at_1m", "aircraft_speed", "background_reflectance"]
    val j = pick(r, 1, 6)
    all {
      objs.length() > 0,
      objs' = objs.replaceAt(o, { kind: objs[o].kind, f: objs[o].f.put(names[j], [x]) }),
      c' = bareCase("assign", Map("obj" -> o, "field" -> j), Map("x" -> [x])) }
  }
  // the camera estimated for a reference image yields a sensor and a scenario
  action estimate(r: int -> int): bool = {
    val altitude = if (yes(r, 0, 25)) real(2000000) else logu(r, 1, 1, 7)
    val gsd = logu(r, 2, -3, 2)
    all {
      objs' = objs,
      c' = { op: "estimate", k: Map("default" -> (if (yes(r, 0, 25)) 1 else 0), "before" -> pick(r, 3, 3)), f: Map("altitude" -> [altitude], "gsd" -> [gsd]),
             e: Map("gsd_over_altitude" -> [div(gsd, altitude)]), ek: Map() } }
  }

  action init = all { objs' = [], c' = NOCASE }
  action step = {
    nondet r = RV.oneOf()
    nondet a = 0.to(9).oneOf()
    if (objs.length() == 0 or (a <= 3 and objs.length() < LIMIT)) (if (a % 4 == 3) makeScenario(r) else makeSensor(r))
    else if (a <= 5 and objs[pick(r, 0, objs.length())].kind == 0) poke(r)
    else if (a <= 7) setField(r)
    else estimate(r)
  }
  // a fully filled square pixel unless told otherwise; x fill factor carried to y
  val lawFill = (c.op == "sensor") implies {
    val s = objs[objs.length() - 1].f
    and { c.f.keys().contains("w_y") or near(mul(s.get("w_y")[0], s.get("p_x")[0]), mul(s.get("w_x")[0], s.get("p_y")[0]), 10^20),
          c.f.keys().contains("p_y") or s.get("p_y") == s.get("p_x") }
  }
}
