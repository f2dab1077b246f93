// Judges recorded NIIRS evaluations: every derived term recomputed from the
// reported quantities it depends on (C18).
module judge {
  import fx.* from "./fx"
  import analytic.* from "./analytic"
  import recorded.* from "./recorded"

  var at: int
  var verdict: str -> List[int]

  pure def rated(q: str -> List[int], key: str): int = q.get(key)[0]
  // signal-to-noise ratio after stacking frames
  pure def stacked(q: str -> List[int]): int = mul(sqrt(rated(q, "stacks")), rated(q, "snr"))
  // the slice ends at the cutoff; its last sample may be lost to rounding: both readings, per direction
  pure def ends(xs: List[int]): List[List[int]] = [xs, xs.slice(0, xs.length() - 1)]
  pure def gm(a: int, b: int): int = if (a > 0 and b > 0) sqrt(mul(a, b)) else 0
  pure def pairs(us: List[int], vs: List[int]): List[int] = [gm(us[0], vs[0]), gm(us[0], vs[1]), gm(us[1], vs[0]), gm(us[1], vs[1])]
  pure def relEdges(xs: List[int], df: int, ifov: int): List[int] = {
    val q = ends(xs)
    [relativeEdge(q[0], df, ifov), relativeEdge(q[1], df, ifov)]
  }
  pure def edges(q: str -> List[int]): str -> List[int] = {
    val ru = relEdges(q.get("u"), rated(q, "df"), rated(q, "ifov_x"))
    val rv = relEdges(q.get("v"), rated(q, "df"), rated(q, "ifov_y"))
    Map("rer0" -> ru, "rer90" -> rv, "rer" -> pairs(ru, rv))
  }
  pure def tables(xs: List[int], df: int, ifov: int): (List[int], List[int]) = {
    val q = ends(xs)
    (overshootTable(q[0], df, ifov), overshootTable(q[1], df, ifov))
  }
  pure def overshoot(q: str -> List[int]): str -> List[int] = {
    val tu = tables(q.get("u"), rated(q, "df"), rated(q, "ifov_x"))
    val tv = tables(q.get("v"), rated(q, "df"), rated(q, "ifov_y"))
    val margin = min2(min2(overshootMargin(tu._1), overshootMargin(tu._2)), min2(overshootMargin(tv._1), overshootMargin(tv._2)))
    Map("eho" -> pairs([overshootOf(tu._1), overshootOf(tu._2)], [overshootOf(tv._1), overshootOf(tv._2)]),
        "tie" -> [if (margin < dec(1, -6)) 1 else 0])
  }
  // place: what follows from the reported slant range
  pure def placed(q: str -> List[int]): str -> List[int] =
    Map("gsd_x" -> [mul(rated(q, "ifov_x"), rated(q, "slant"))], "gsd_y" -> [mul(rated(q, "ifov_y"), rated(q, "slant"))],
        "gsd_gm" -> [mul(sqrt(mul(rated(q, "ifov_x"), rated(q, "ifov_y"))), rated(q, "slant"))],
        "sin" -> [sin(rated(q, "elev"))], "horizon" -> [cosNadir(0, rated(q, "altitude"), rated(q, "slant"))])
  // versions 3 and 4, where they are defined
  pure def rating34(q: str -> List[int]): str -> List[int] =
    if (rated(q, "rer") <= 0 or rated(q, "snr") <= 0 or sin(rated(q, "elev")) <= 0) Map("n3" -> [], "n4" -> [], "gsd_gp" -> [])
    else Map("n3" -> [giqe3(rated(q, "rer"), rated(q, "gsd"), rated(q, "eho"), rated(q, "ng"), stacked(q))],
             "n4" -> [giqe4(rated(q, "rer"), rated(q, "gsd"), rated(q, "eho"), rated(q, "ng"), stacked(q), rated(q, "elev"))],
             "gsd_gp" -> [giqe4Gsd(rated(q, "gsd"), rated(q, "elev"))])
  pure def rating5(q: str -> List[int]): str -> List[int] =
    if (rated(q, "rer0") <= 0 or rated(q, "rer90") <= 0 or rated(q, "snr") <= 0 or sin(rated(q, "elev")) <= 0) Map("n5" -> [], "gsd_w" -> [], "rer5" -> [])
    else Map("n5" -> [giqe5(rated(q, "rer0"), rated(q, "rer90"), rated(q, "gsd"), stacked(q), rated(q, "elev"))],
             "gsd_w" -> [giqe5Gsd(rated(q, "gsd"), rated(q, "elev"))], "rer5" -> [giqe5Rer(rated(q, "rer0"), rated(q, "rer90"))])
  pure def both(a: str -> List[int], b: str -> List[int]): str -> List[int] =
    a.keys().union(b.keys()).mapBy(k => if (a.keys().contains(k)) a.get(k) else b.get(k))
  // the records of version 5 carry no overshoot
  pure def judge(q: str -> List[int]): str -> List[int] = {
    val common = both(edges(q), placed(q))
    if (q.keys().contains("eho")) both(common, both(overshoot(q), rating34(q))) else both(common, rating5(q))
  }

  action init = all { at' = 0, verdict' = Map() }
  action step = all {
    at < RECORDS.length(),
    verdict' = judge(RECORDS[at]),
    at' = at + 1 }

}
