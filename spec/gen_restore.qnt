// Generator machine for restore.qnt: each state is one call with its outcome.
module gen_restore {
  import fx.* from "./fx"
  import cases.* from "./cases"
  import restore.* from "./restore"

  var c: Case
  pure def wienerCase(r: int -> int): Case = {
    val rows = if (yes(r, 0, 30)) 1 else 1 + pick(r, 1, 6)
    val cols = 1 + pick(r, 2, 8)
    val n = rows * cols
    // a third of the transfer functions are real (kind 1), a tenth of them of whole numbers (kind 2)
    val kind = if (yes(r, 3, 55)) 0 else if (yes(r, 4, 25)) 2 else 1
    val scale = if (yes(r, 5, 30)) logu(r, 6, if (yes(r, 8, 50)) -11 else -9, 0) else ONE
    val re0 = if (kind == 2) range(0, n).foldl([], (accW, i) => accW.append(real(mix(r, 7, i) % 3 - 1)))
      else (values(r, 7, n, -ONE, ONE)).foldl([], (accS, x) => accS.append(mul(x, scale)))
    val im = if (kind == 0) (values(r, 10, n, -ONE, ONE)).foldl([], (accI, x) => accI.append(mul(x, scale)))
      else re0.foldl([], (accZ, x) => accZ.append(0))
    // a few frequencies are lost altogether
    val holes = yes(r, 13, 30)
    val re = range(0, n).foldl([], (accR, i) => accR.append(if (holes and mix(r, 14, i) % 4 == 0) 0 else re0[i]))
    val imh = range(0, n).foldl([], (accH, i) => accH.append(if (holes and mix(r, 14, i) % 4 == 0) 0 else im[i]))
    val alive = range(0, n).foldl(true, (b, i) => b and power(re[i], imh[i]) > dec(1, -24))
    // noise power over signal power: none, one number, or one number per frequency
    val how = pick(r, 15, 4)
    val noise = if (how == 0 and alive) replicate(n, 0)
      else if (how == 1) (values(r, 16, n, dec(1, -6), TWO)).foldl([], (accN, x) => accN.append(x))
      else replicate(n, if (how == 2) logu(r, 19, -10, 12) else real(1 + pick(r, 19, 3)))
    { op: "wiener", k: Map("rows" -> rows, "cols" -> cols, "kind" -> kind, "each" -> (if (how == 1) 1 else 0), "line" -> (if (rows == 1 and yes(r, 20, 50)) 1 else 0)),
      f: Map("re" -> re, "im" -> imh, "noise" -> noise),
      e: Map("re" -> range(0, n).foldl([], (accA, i) => accA.append(wiener(re[i], imh[i], noise[i])._1)),
             "im" -> range(0, n).foldl([], (accB, i) => accB.append(wiener(re[i], imh[i], noise[i])._2)),
             "restored" -> range(0, n).foldl([], (accC, i) => accC.append(restored(re[i], imh[i], noise[i])))),
      ek: Map("inverse" -> (if (suml(noise) == 0) 1 else 0)) }
  }
  pure def footprintCase(r: int -> int): Case = {
    val w = if (yes(r, 0, 20)) real(1 + pick(r, 1, 9)) else logu(r, 1, -7, -2)
    val f = if (yes(r, 2, 20)) real(1 + pick(r, 3, 9)) else logu(r, 3, -3, 2)
    { op: "ifov", k: Map(), f: Map("w" -> [w], "f" -> [f]), e: Map("ifov" -> [fieldOfView(w, f)]), ek: Map() }
  }
  action stepRestore = { nondet r = RV.oneOf() c' = if (yes(r, 78, 92)) wienerCase(r) else footprintCase(r) }
  val lawRestore = c.op == "wiener" implies {
    val re = c.f.get("re")
    val im = c.f.get("im")
    range(0, re.length()).foldl(true, (b, i) => {
      val wr = c.e.get("re")[i]
      val wi = c.e.get("im")[i]
      val left = c.e.get("restored")[i]
      // blurring and restoring leaves a real fraction: all of it without noise, none of a lost frequency
      b and near(mul(re[i], wr) - mul(im[i], wi), left, 10^25) and abs(mul(re[i], wi) + mul(im[i], wr)) <= 10^25
        and left >= 0 and left <= ONE and (c.f.get("noise")[i] == 0 implies left == ONE)
        and (power(re[i], im[i]) == 0 implies left == 0)
    })
  }
  action init = c' = NOCASE
}
