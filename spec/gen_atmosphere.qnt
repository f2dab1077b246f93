// Calls of the atmosphere lookups (C02, C03) and histories of scenarios (C01).
// The database the calls run against has contents defined here: record n holds
// trans(n, row) and raw(n, row, column), exactly representable in its file format.
module gen_atmosphere {
  import fx.* from "./fx"
  import cases.* from "./cases"
  import catalogue.* from "./catalogue"
  import scenarios(N = 4).* from "./scenarios"

  var c: Case
  var n: int                                            // position of the enumeration

  // ------------------------------------------------------------- contents
  pure def trans(rec: int, row: int): int = real((rec * 389 + row * 57) % 1024) / 1024
  // in W/(sr cm^2 um), columns 1 to 4
  pure def raw(rec: int, row: int, j: int): int =
    real(1 + (rec * (97 + j * 1201) + row * (31 + 7 * j) + j * 4099) % 65521) / 2^(30 - 4 * ((rec + row) % 5))
  // what a lookup returns for a row: metres, transmission, W/(sr m^2 m)
  pure def wavelength(row: int): int = dec(30 + row, -8)
  pure val ROWS = [0, 1, 685, 1370]
  // rows of one record
  pure def rowsOf(rec: int): List[int] = ROWS.foldl([], (l, row) =>
    l.concat([wavelength(row), trans(rec, row)]).concat(range(1, 5).foldl([], (m, j) => m.append(raw(rec, row, j) * 10^10))))
  // distance of x between lo and hi as a weight
  pure def weight(x: int, lo: int, hi: int): int = if (lo == hi) 0 else div(x - lo, hi - lo)
  // bilinear combination of the four records around (alt, ground), reals in metres
  pure def mix4(recs: List[int], wa: int, wg: int): List[int] = {
    val t0 = rowsOf(recs[0])
    val t1 = rowsOf(recs[1])
    val t2 = rowsOf(recs[2])
    val t3 = rowsOf(recs[3])
    range(0, t0.length()).foldl([], (l, i) => l.append(
      mul(ONE - wg, mul(ONE - wa, t0[i]) + mul(wa, t1[i])) + mul(wg, mul(ONE - wa, t2[i]) + mul(wa, t3[i]))))
  }
  pure def mm(x: int): int = dec(x, -3)                  // millimetres to metres
  // how far (alt, ground), reals in metres, lie between the surrounding grid values;
  // grid values are whole millimetres
  pure def weightsAt(alt: int, ground: int): List[int] = {
    val fa = floorR(alt * 1000)
    val ca = -floorR(-alt * 1000)
    val fg = floorR(ground * 1000)
    val cg = -floorR(-ground * 1000)
    [weight(alt, mm(ALT[altBelow(fa)]), mm(ALT[altAbove(ca)])), weight(ground, mm(RANGE(rangeBelow(fg))), mm(RANGE(rangeAbove(cg))))]
  }
  pure def tableAt(recs: List[int], alt: int, ground: int): List[int] = {
    val w = weightsAt(alt, ground)
    mix4(recs, w[0], w[1])
  }
  // brackets of a real condition: grid values are whole millimetres
  pure def bracket(haze: int, alt: int, ground: int): List[int] = {
    val fa = floorR(alt * 1000)
    val ca = -floorR(-alt * 1000)
    val fg = floorR(ground * 1000)
    val cg = -floorR(-ground * 1000)
    if (not(within(fa, fg)) or not(within(ca, cg))) []
    else [record(haze, altBelow(fa), rangeBelow(fg)), record(haze, altAbove(ca), rangeBelow(fg)),
          record(haze, altBelow(fa), rangeAbove(cg)), record(haze, altAbove(ca), rangeAbove(cg))]
  }

  // ------------------------------------------- C02: every record, one by one
  pure def altOf(rec: int): (int, int, int) = {
    // haze, altitude position, range position of record number rec
    val half = countTo(22)
    val base = if (rec <= 2 * half) (rec - 1) % half else if (rec <= 2 * half + 194) (rec - 2 * half - 1) % 97 else 0
    val haze = if (rec <= 2 * half) (rec - 1) / half + 1 else if (rec <= 2 * half + 194) (rec - 2 * half - 1) / 97 + 1 else rec - 2 * half - 194
    val a = if (rec > 2 * half + 194) 23 else if (rec > 2 * half) 22
      else range(0, 22).foldl(0, (b, j) => if (countTo(j) <= base) j else b)
    (haze, a, if (rec <= 2 * half) base - countTo(a) else base)
  }
  action initEnum = all { init, c' = NOCASE, n' = 0 }
  action stepRecord = {
    val rec = n + 1
    val p = altOf(rec)
    all {
      rec <= 3430, n' = rec, scs' = scs, call' = call,
      c' = { op: "record", k: Map("haze" -> p._1, "record" -> rec),
             f: Map("altitude" -> [mm(ALT[p._2])], "ground" -> [mm(RANGE(p._3))]),
             e: Map("rows" -> rowsOf(rec)), ek: Map() } }
  }
  // the enumeration meets every listed condition, in the catalogue's own order
  val lawRecord = (c.op == "record") implies {
    val p = altOf(n)
    record(p._1, p._2, p._3) == n and lookup(p._1, ALT[p._2], RANGE(p._3)) == n
  }

  // conditions next to listed ones
  pure def genNeighbour(r: int -> int): Case = {
    val p = altOf(1 + pick(r, 0, 3430))
    val a = mm(ALT[p._2])
    val g = mm(RANGE(p._3))
    val m = pick(r, 1, 11)
    val eps = [dec(1, -9), dec(1, -6), dec(1, -3), dec(1, -1)][pick(r, 2, 4)]
    val s = if (yes(r, 3, 50)) ONE + eps else ONE - eps
    val anyG = mm(RANGE(pick(r, 4, 97)))
    val alt = if (m == 0 or m == 4) mul(a, s) else if (m == 5) a + ONE else if (m == 6) mm(ALT[pick(r, 5, 24)])
      else if (m == 7) (a + mm(ALT[pick(r, 5, 24)])) / 2 else if (m == 8) mul(a, dec(1, -3)) else a
    val ground = if (m == 1 or m == 4) mul(g, s) + (if (g == 0) eps else 0) else if (m == 2) g + real(50) else if (m == 6 or m == 10) anyG
      else if (m == 8) mul(g, dec(1, -3)) else if (m == 9) -g else g
    // an unlisted visibility, whole or not
    val haze = if (m == 3) [0, real(3), -ONE, real(12), dec(15, -1), real(p._1) + eps, real(p._1) - eps, dec(5, -1), dec(25, -1)][pick(r, 6, 9)]
      else real(p._1)
    val whole = haze % ONE == 0 and (alt * 1000) % ONE == 0 and (ground * 1000) % ONE == 0
    val rec = if (whole) lookup(floorR(haze), floorR(alt * 1000), floorR(ground * 1000)) else 0
    { op: "neighbour", k: Map("style" -> pick(r, 7, 3)), f: Map("haze" -> [haze], "altitude" -> [alt], "ground" -> [ground]),
      e: if (rec == 0) Map() else Map("rows" -> rowsOf(rec)), ek: Map("record" -> rec) }
  }
  action stepNeighbour = { nondet r = RV.oneOf()
    all { c' = genNeighbour(r), n' = n, scs' = scs, call' = call } }

  // ------------------------------------------- C03: interpolated lookups
  pure def pickAlt(r: int -> int): int = {
    val j = pick(r, 10, GRID)
    val lo = mm(ALT[if (j == GRID - 1) j - 1 else j])
    val hi = mm(ALT[if (j == GRID - 1) j else j + 1])
    val m = pick(r, 11, 13)
    if (m < 3) mm(ALT[j])
    else if (m < 8) uni(r, 12, lo, hi)
    else if (m == 8) mul(mm(ALT[j]), ONE + dec(1, -9))
    else if (m == 9) mul(mm(ALT[j]), ONE - dec(1, -9))
    else if (m == 10) logu(r, 13, 0, 6)
    else if (m == 12) lo + (hi - lo) * (1 + pick(r, 13, 7)) / 8
    else [real(2), real(20000), dec(19999999, -7), real(20001), dec(20000001, -3), 0, -real(5), real(24500), dec(325, -1), real(20000)][pick(r, 14, 10)]
  }
  pure def pickGround(r: int -> int, cap: int): int = {
    val j = pick(r, 20, cap)
    val lo = mm(RANGE(if (j == RANGES - 1) j - 1 else j))
    val hi = mm(RANGE(if (j == RANGES - 1) j else j + 1))
    val m = pick(r, 21, 13)
    if (m < 3) mm(RANGE(j))
    else if (m < 8) uni(r, 22, lo, hi)
    else if (m == 8) mul(mm(RANGE(j)), ONE + dec(1, -9))
    else if (m == 9) mul(mm(RANGE(j)), ONE - dec(1, -9))
    else if (m == 10) logu(r, 23, 0, 6)
    else if (m == 12) lo + (hi - lo) * (1 + pick(r, 23, 7)) / 8
    else [0, real(300000), real(300001), real(305000), -ONE, dec(1, -6), real(299999), real(20500), real(81000), real(750)][pick(r, 24, 10)]
  }
  pure def genInterp(r: int -> int): Case = {
    val alt = pickAlt(r)
    // mostly ranges above the horizon of the bracketing altitudes
    val a = altBelow(clamp(floorR(alt * 1000), ALT[0], ALT[GRID - 1]))
    val ground = pickGround(r, if (yes(r, 1, 75)) COUNT[a] else RANGES)
    val haze = if (yes(r, 2, 94)) 1 + pick(r, 3, 2) else [0, 3, -1, 21][pick(r, 3, 4)]
    val recs = bracket(haze, alt, ground)
    val ok = succeeds(recs)
    // sometimes one of the needed files is absent
    val gone = if (ok and yes(r, 4, 12)) recs[pick(r, 5, 4)] else 0
    { op: "interp", k: Map("haze" -> haze, "gone" -> gone, "style" -> pick(r, 7, 3)), f: Map("altitude" -> [alt], "ground" -> [ground]),
      e: if (ok and gone == 0) Map("rows" -> tableAt(recs, alt, ground), "weights" -> weightsAt(alt, ground)) else Map(),
      ek: Map("ok" -> (if (ok and gone == 0) 1 else 0)).keys().union(Set("r0", "r1", "r2", "r3")).mapBy(k =>
        if (k == "ok") (if (ok and gone == 0) 1 else 0) else if (not(ok)) 0
        else if (k == "r0") recs[0] else if (k == "r1") recs[1] else if (k == "r2") recs[2] else recs[3]) }
  }
  action stepInterp = { nondet r = RV.oneOf()
    all { c' = genInterp(r), n' = n, scs' = scs, call' = call } }
  // on a listed condition of the grid the interpolated lookup is the plain one
  val lawNode = (c.op == "interp" and c.ek.get("ok") == 1) implies {
    val alt = c.f.get("altitude")[0]
    val ground = c.f.get("ground")[0]
    val onMM = (alt * 1000) % ONE == 0 and (ground * 1000) % ONE == 0
    val rec = if (onMM) lookup(c.k.get("haze"), floorR(alt * 1000), floorR(ground * 1000)) else 0
    rec == 0 or c.e.get("rows") == rowsOf(rec)
  }
  // values lie between those of the records: no extrapolation
  val lawBetween = (c.op == "interp" and c.ek.get("ok") == 1) implies {
    val recs = bracket(c.k.get("haze"), c.f.get("altitude")[0], c.f.get("ground")[0])
    val t = recs.foldl([], (l, q) => l.append(rowsOf(q)))
    val v = c.e.get("rows")
    range(0, v.length()).foldl(true, (b, i) => b and v[i] <= t.foldl(t[0][i], (m, row) => max2(m, row[i])) + 1000
      and v[i] >= t.foldl(t[0][i], (m, row) => min2(m, row[i])) - 1000)
  }

  // ------------------------------------------- C01: histories of scenarios
  // the places visited: mostly valid for some mode, sometimes valid for none
  pure val HALT = [2000, 32500, 75000, 1000000, 7000000, 20000000, 24500000, 550000000, 50000, 1500000, 15500000, 1000, 21000000]
  pure val HGROUND = [0, 100000, 500000, 5000000, 50000000, 300000000, 250000, 42100000, 299000000, 301000000, -1000, 750000]
  // 15 and 19 stand for visibilities of 1.5 and 1.9, which no record has
  pure val HHAZE = [1, 2, 1, 2, 1, 2, 3, 15, 19]
  pure def kReal(i: int, p: Place): Case = { op: "x", k: Map("who" -> i, "haze" -> p.haze),
    f: Map("altitude" -> [mm(p.alt)], "ground" -> [mm(p.ground)]), e: Map(), ek: Map() }
  action initScenarios = all { init, c' = NOCASE, n' = 0 }
  action stepScenarios = {
    nondet r = RV.oneOf()
    val len = scs.length()
    val w = if (len == 0) 0 else pick(r, 0, len)
    val m = if (len == 0) 0 else pick(r, 1, 16)
    val p = { haze: HHAZE[pick(r, 2, 9)], alt: HALT[pick(r, 3, 13)], ground: HGROUND[pick(r, 4, 12)] }
    val easy = { ...p, haze: 1 + pick(r, 2, 2), alt: HALT[pick(r, 3, 6)], ground: HGROUND[pick(r, 4, 3)] }
    // or hardly moved: a move of a few millimetres is a move
    val here = if (len == 0) easy else scs[w].at
    val d = if (pick(r, 9, 2) == 0) 1 + pick(r, 10, 9) else -1 - pick(r, 10, 9)
    val nudged = { ...here, alt: here.alt + d, ground: here.ground + (if (here.ground > 10000000) 17 * d else d) }
    val q = if (yes(r, 7, 25)) nudged else if (yes(r, 5, 50)) p else easy
    all {
      n' = n,
      if (m == 0 and len < 4) all { create(yes(r, 6, 50), q),
        c' = { ...kReal(len, q), op: "create", k: Map("who" -> len, "haze" -> q.haze, "interp" -> (if (yes(r, 6, 50)) 1 else 0)) } }
      else if (m == 15 and len < 4) all { copied(w), c' = { ...kReal(w, scs[w].at), op: "copy", k: Map("who" -> w, "how" -> pick(r, 11, 3)) } }
      else if (m <= 2) all { setHaze(w, q.haze), c' = { ...kReal(w, q), op: "haze" } }
      else if (m <= 4) all { setAlt(w, q.alt), c' = { ...kReal(w, q), op: "altitude" } }
      else if (m == 14) {
        val i = yes(r, 6, 50)
        all { rated(w, i), c' = { ...kReal(w, scs[w].at), op: "rate",
          k: Map("who" -> w, "interp" -> (if (i) 1 else 0), "version" -> pick(r, 11, 2), "thermal" -> pick(r, 12, 2)),
          ek: Map("ok" -> (if (outcome(i, scs[w].at).length() == 0) 0 else 1)) } }
      }
      else if (m == 13) all { adjusted(w), c' = { ...kReal(w, scs[w].at), op: "adjust", k: Map("who" -> w, "which" -> pick(r, 11, 9)) } }
      else if (m <= 6) all { setGround(w, q.ground), c' = { ...kReal(w, q), op: "ground" } }
      else {
        val o = readSc(scs[w])
        all { read(w),
          c' = { ...kReal(w, scs[w].at), op: "read", k: Map("who" -> w, "mutate" -> pick(r, 8, 2)),
                 e: if (o._2.length() == 0) Map() else if (o._2.length() == 1) Map("rows" -> rowsOf(o._2[0]))
                    else Map("rows" -> tableAt(o._2, mm(o._3.alt), mm(o._3.ground))),
                 ek: Map("ok" -> (if (o._2.length() == 0) 0 else 1)) } }
      }
    }
  }
}
