// Generator of whole evaluations (C18).
module gen_chain {
  import fx.* from "./fx"
  import cases.* from "./cases"
  import chain.* from "./chain"

  var c: Case

  action stepChain = { nondet r = RV.oneOf() c' = chainCase(r) }

  val lawChain = (c.op == "chain") implies and {
    c.ek.get("lit") >= 1,
    // scene photons are what remains of all photons after the path's
    c.e.get("scene_squared")[0] >= -(10^30),
    // the target is the brighter of a GIQE pair, but for a sunless band that reaches far into the thermal infrared
    c.k.get("dusk") == 1 or c.e.get("contrast_signal")[0] > 0,
    c.e.get("cutoff")[0] > 0,
    near(c.e.get("ap")[0], ONE, 10^30) }

  action init = c' = NOCASE
}
