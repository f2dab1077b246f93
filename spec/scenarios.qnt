// Scenarios and the atmosphere each of them keeps (pybsm.simulation.Scenario).
// Every scenario has a location, a lookup mode fixed at construction, and possibly the
// atmosphere that an earlier read loaded.  Small pools of conditions make the machine
// finite: the model checker visits every reachable state.
module scenarios {
  import catalogue.* from "./catalogue"

  pure val HAZES = [1, 2, 3]
  pure val ALTS = [2000, 32500, 50000, 75000, 1000]
  pure val GROUNDS = [0, 100000, 250000, 8000000, -1]
  const N: int                                            // number of scenarios

  type Place = { haze: int, alt: int, ground: int }
  type Sc = { at: Place, interp: bool, loaded: bool, from: Place }
  // the call just performed and, for a read, its outcome: the records it combines
  // (none: IndexError) and the place they surround
  type Call = { op: str, who: int, recs: List[int], place: Place }
  var scs: List[Sc]
  var call: Call

  pure val NOWHERE = { haze: 0, alt: 0, ground: 0 }
  pure def bare(op: str, who: int): Call = { op: op, who: who, recs: [], place: NOWHERE }
  pure def outcome(interp: bool, p: Place): List[int] = {
    val n = needs(interp, p.haze, p.alt, p.ground)
    if (succeeds(n)) n else []
  }
  // a read loads unless something is already loaded; a failing read loads nothing
  pure def readSc(s: Sc): (Sc, List[int], Place) = {
    val recs = if (s.loaded) outcome(s.interp, s.from) else outcome(s.interp, s.at)
    if (recs.length() == 0) (s, [], s.at)
    else if (s.loaded) (s, recs, s.from)
    else ({ ...s, loaded: true, from: s.at }, recs, s.at)
  }
  pure def moveSc(s: Sc, p: Place): Sc = { ...s, at: p, loaded: false, from: NOWHERE }

  action create(interp: bool, p: Place): bool = all {
    scs.length() < N,
    scs' = scs.append({ at: p, interp: interp, loaded: false, from: NOWHERE }),
    call' = { ...bare("create", scs.length()), place: p } }
  // a copy is another scenario: it keeps what was loaded, and goes its own way
  action copied(w: int): bool = all {
    scs.length() < N,
    scs' = scs.append(scs[w]),
    call' = { ...bare("copy", w), place: scs[w].at } }
  action setHaze(w: int, x: int): bool = all {
    scs' = scs.replaceAt(w, moveSc(scs[w], { ...scs[w].at, haze: x })), call' = bare("haze", w) }
  action setAlt(w: int, x: int): bool = all {
    scs' = scs.replaceAt(w, moveSc(scs[w], { ...scs[w].at, alt: x })), call' = bare("altitude", w) }
  action setGround(w: int, x: int): bool = all {
    scs' = scs.replaceAt(w, moveSc(scs[w], { ...scs[w].at, ground: x })), call' = bare("ground", w) }
  action read(w: int): bool = {
    val r = readSc(scs[w])
    all { scs' = scs.replaceAt(w, r._1), call' = { op: "read", who: w, recs: r._2, place: r._3 } }
  }

  // a rating of the scenario, under either lookup mode, looks the atmosphere up for
  // itself: what the scenario keeps and its own mode stay as they were
  action rated(w: int, interp: bool): bool = all {
    scs' = scs,
    call' = { op: "rate", who: w, recs: outcome(interp, scs[w].at), place: scs[w].at } }
  // the scenario's other attributes have nothing to do with its atmosphere
  action adjusted(w: int): bool = all { scs' = scs, call' = { ...bare("adjust", w), place: scs[w].at } }

  action init = all { scs' = [], call' = bare("none", 0) }
  action step = any {
    { nondet i = Set(true, false).oneOf()
      nondet h = 0.to(2).oneOf()
      nondet a = 0.to(4).oneOf()
      nondet g = 0.to(4).oneOf()
      create(i, { haze: HAZES[h], alt: ALTS[a], ground: GROUNDS[g] }) },
    { nondet w = 0.to(N - 1).oneOf()
      nondet h = 0.to(2).oneOf()
      all { w < scs.length(), setHaze(w, HAZES[h]) } },
    { nondet w = 0.to(N - 1).oneOf()
      nondet a = 0.to(4).oneOf()
      all { w < scs.length(), setAlt(w, ALTS[a]) } },
    { nondet w = 0.to(N - 1).oneOf()
      nondet g = 0.to(4).oneOf()
      all { w < scs.length(), setGround(w, GROUNDS[g]) } },
    { nondet w = 0.to(N - 1).oneOf()
      all { w < scs.length(), read(w) } },
    { nondet w = 0.to(N - 1).oneOf()
      all { w < scs.length(), copied(w) } },
    { nondet w = 0.to(N - 1).oneOf()
      nondet i = Set(true, false).oneOf()
      all { w < scs.length(), rated(w, i) } },
    { nondet w = 0.to(N - 1).oneOf()
      all { w < scs.length(), adjusted(w) } },
  }

  // what users rely on: a read is always about the current place, and yields
  // exactly what the database has for it
  val lawFresh = 0.to(N - 1).forall(w => (w < scs.length() and scs[w].loaded) implies (scs[w].from == scs[w].at))
  val lawRead = (call.op == "read") implies and {
    call.place == scs[call.who].at,
    call.recs == outcome(scs[call.who].interp, scs[call.who].at) }
  // nothing but a call on a scenario moves it: the copy starts where the original is
  val lawCopy = (call.op == "copy") implies (scs[scs.length() - 1] == scs[call.who])
  // a loaded atmosphere exists: failing reads leave nothing behind
  val lawLoaded = 0.to(N - 1).forall(w => (w < scs.length() and scs[w].loaded) implies
    (outcome(scs[w].interp, scs[w].at).length() > 0))
  val laws = lawCopy and lawFresh and lawRead and lawLoaded
}
module scenarios1 { import scenarios(N = 1).* }
module scenarios2 { import scenarios(N = 2).* }
