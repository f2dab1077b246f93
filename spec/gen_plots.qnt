// Diagnostic plots of evaluations (C27): one evaluation, then several plots of it.
module gen_plots {
  import fx.* from "./fx"
  import cases.* from "./cases"
  import chain.* from "./chain"

  var c: Case
  var held: Case      // the evaluation whose metrics are plotted
  var turn: int

  // components as exact planes with a twist: one sign over the whole square
  pure def plane(r: int -> int, i: int): List[int] = {
    val b = uni(r, i, dec(-3, -1), dec(3, -1))
    val cc = uni(r, i + 1, dec(-3, -1), dec(3, -1))
    val d = uni(r, i + 2, dec(-2, -1), dec(2, -1))
    val a = uni(r, i + 3, dec(9, -1), TWO)
    val s = if (yes(r, i + 4, 25)) -1 else 1
    [s * a, s * b, s * cc, s * d]
  }
  pure def valueAt(p: List[int], x: int, y: int): int = p[0] + mul(p[1], x) + mul(p[2], y) + mul3(p[3], x, y)
  pure def along(p: List[int], ang: int): List[int] =
    range(0, 51).foldl([], (l, k) => l.append(abs(valueAt(p, mul(2 * ONE * k / 100, cos(ang)), mul(2 * ONE * k / 100, sin(ang))))))
  pure val COMPONENTS = ["ap_OTF", "turb_OTF", "det_OTF", "jit_OTF", "drft_OTF", "wav_OTF", "filter_OTF", "system_OTF"]
  pure def mtfPlot(r: int -> int, q: Case): Case = {
    val ps = range(0, 8).foldl([], (l, i) => l.append(plane(r, 5 * i)))
    val turns = if (yes(r, 54, 25)) pick(r, 55, 9) - 4 else 0
    val ang = turns * 2 * PI + if (yes(r, 50, 50)) mul(PI / 4, real(pick(r, 51, 9))) else uni(r, 51, 0, 2 * PI)
    { op: "mtf", k: Map("size" -> pick(r, 52, 3), "default" -> (if (ang == 0) pick(r, 53, 2) else 0)),
      f: range(0, 8).foldl(Map("angle" -> [ang]), (m, i) => m.put(COMPONENTS[i], ps[i])),
      e: range(0, 8).foldl(Map("freq" -> range(0, 51).foldl([], (l, k) => l.append(div(q.e.get("cutoff")[0] * 2 * k / 100, q.f.get("f")[0]) / 1000)),
                               "nyquist" -> [div(HALF, q.f.get("p_x")[0]) / 1000]), (m, i) => m.put(COMPONENTS[i], along(ps[i], ang))),
      ek: Map() }
  }
  // the evaluation's own transfer functions along u (0) or v (1), first samples
  pure def ownPlot(r: int -> int, q: Case): Case = {
    val vertical = pick(r, 50, 2)
    val i = 1 + vertical
    { op: "own", k: Map("vertical" -> vertical, "size" -> pick(r, 52, 3), "default" -> 0), f: Map("angle" -> [if (vertical == 1) PI / 2 else 0]),
      e: Map("ap_OTF" -> [q.e.get("ap")[0], q.e.get("ap")[i]], "det_OTF" -> [q.e.get("det")[0], q.e.get("det")[i]],
             "jit_OTF" -> [q.e.get("jit")[0], q.e.get("jit")[i]], "drft_OTF" -> [q.e.get("drft")[0], q.e.get("drft")[i]],
             "wav_OTF" -> [q.e.get("wav")[0], q.e.get("wav")[i]], "turb_OTF" -> [q.e.get("turb")[0], q.e.get("turb")[i]],
             "freq" -> range(0, 51).foldl([], (l, k) => l.append(div(q.e.get("cutoff")[0] * 2 * k / 100, q.f.get("f")[0]) / 1000)),
             "nyquist" -> [div(HALF, q.f.get("p_x")[0]) / 1000]), ek: Map() }
  }
  pure def noisePlot(r: int -> int, q: Case): Case = {
    val e = q.e
    { op: "noise", k: Map("limit" -> (if (yes(r, 0, 40)) 0 else if (yes(r, 0, 55)) 5 * (1 + pick(r, 1, 180)) else 1000 * (1 + pick(r, 1, 5000))), "size" -> pick(r, 52, 3)), f: Map(),
      e: Map("total" -> [e.get("total_noise")[0]], "scene" -> [e.get("scene_squared")[0]], "path" -> [e.get("path_squared")[0]],
             "emission" -> e.get("self_emission_noise"), "dark" -> e.get("dark_current_noise"), "quantization" -> e.get("quantization_noise"),
             "readout" -> q.f.get("read_noise"),
             "photoelectrons" -> e.get("tgt_n"), "contrast" -> [e.get("tgt_n")[0] - e.get("bkg_n")[0]], "fill" -> [100 * e.get("well_fraction")[0]]), ek: Map() }
  }

  // noise terms of an evaluation that reports these, whichever of target and background is brighter
  pure val TERMS = ["total_noise", "scene_noise", "path_noise", "self_emission_noise", "dark_current_noise", "quantization_noise", "read_noise", "tgt_n", "bkg_n"]
  pure def reportPlot(r: int -> int): Case = {
    val x = range(0, 9).foldl([], (l, i) => l.append(if (yes(r, 10 + 2 * i, 10)) 0 else logu(r, 11 + 2 * i, if (i >= 7) 1 else -2, if (i >= 7) 7 else 4)))
    val fill = if (yes(r, 30, 10)) ONE else uni(r, 31, 0, ONE)
    { op: "report", k: Map("limit" -> (if (yes(r, 0, 40)) 0 else if (yes(r, 0, 55)) 5 * (1 + pick(r, 1, 180)) else 1000 * (1 + pick(r, 1, 5000))), "size" -> pick(r, 52, 3)),
      f: range(0, 9).foldl(Map("well_fraction" -> [fill]), (m, i) => m.put(TERMS[i], [x[i]])),
      e: Map("total" -> [x[0]], "scene" -> [sq(x[1])], "path" -> [sq(x[2])], "emission" -> [x[3]], "dark" -> [x[4]], "quantization" -> [x[5]], "readout" -> [x[6]],
             "photoelectrons" -> [x[7]], "contrast" -> [x[7] - x[8]], "fill" -> [100 * fill]), ek: Map() }
  }
  // a reference image on the ground: its middle at the origin, one pixel per ground sample distance
  pure def showPlot(r: int -> int): Case = {
    val rows = 1 + pick(r, 0, 9)
    val cols = 1 + pick(r, 1, 9)
    val gsd = logu(r, 2, -3, 2)
    { op: "show", k: Map("rows" -> rows, "cols" -> cols, "size" -> pick(r, 52, 3), "colour" -> pick(r, 3, 2)), f: Map("img" -> values(r, 4, rows * cols, 0, ONE), "gsd" -> [gsd]),
      e: Map("extent" -> [-(gsd * cols / 2), gsd * cols / 2, -(gsd * rows / 2), gsd * rows / 2]), ek: Map() }
  }

  action step = {
    nondet r = RV.oneOf()
    val kind = turn % 6
    val q = if (kind == 0) chainCase(r) else held
    all {
      held' = q,
      c' = if (kind == 0) q else if (kind == 1) ownPlot(r, held) else if (kind == 2) mtfPlot(r, held) else if (kind == 3) noisePlot(r, held) else if (kind == 4) reportPlot(r) else showPlot(r),
      turn' = turn + 1 }
  }
  action init = all { c' = NOCASE, held' = NOCASE, turn' = 0 }

  val lawPlots = and {
    c.op == "show" implies c.e.get("extent")[0] + c.e.get("extent")[1] == 0 and c.e.get("extent")[2] + c.e.get("extent")[3] == 0,
    c.op == "noise" implies c.e.get("total")[0] >= 0 and c.e.get("photoelectrons")[0] >= c.e.get("contrast")[0],
    c.op == "mtf" implies c.e.get("ap_OTF")[0] == abs(c.f.get("ap_OTF")[0]),
    // plotting reads an evaluation that has happened
    (c.op == "mtf" or c.op == "own" or c.op == "noise") implies held.op == "chain" }
}
