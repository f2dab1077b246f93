// What a caller may rely on between calls (C04): the library is a function of the
// values its arguments have at the time of the call.  A caller holds, for every
// operation, arguments that he changes (by assigning new ones, or by writing into
// the arrays he holds) and results that he keeps or overwrites; any operations
// are called in any order.
module stateless {
  const OPS: int        // operations in play
  const SLOTS: int      // arguments to start from, per operation
  const CHANGES: int    // neighbouring arguments: one real argument differs (0: none does)

  pure val KEPT = 3
  type Args = { slot: int, change: int }
  type Event = { kind: str, op: int, args: Args, fresh: bool }
  var held: int -> Args           // the caller's current arguments of each operation
  var results: List[(int, Args)]  // results still held: of which operation, for which arguments
  var event: Event

  pure val START = { slot: 0, change: 0 }
  action init = all {
    held' = 0.to(OPS - 1).mapBy(i => START),
    results' = [],
    event' = { kind: "start", op: 0, args: START, fresh: true }
  }
  // the caller gives an operation new arguments, or writes new values into the arrays it
  // was given before, and calls it: the result is the function's value at them; they stay
  // as they are, and so do the results of earlier calls
  action call(op: int, a: Args, fresh: bool): bool = all {
    held' = held.set(op, a),
    results' = (if (results.length() >= KEPT) results.slice(1, KEPT) else results).append((op, a)),
    event' = { kind: "call", op: op, args: a, fresh: fresh }
  }
  // results belong to the caller: overwriting them changes nothing else
  action scribble = all {
    results.length() > 0,
    held' = held, results' = [],
    event' = { kind: "scribble", op: results[0]._1, args: results[0]._2, fresh: true }
  }
  // arguments next to those of the last call, as often as not
  action near = {
    nondet op = 0.to(OPS - 1).oneOf()
    nondet f = Set(true, false).oneOf()
    nondet c = 1.to(CHANGES).oneOf()
    call(op, { ...held.get(op), change: if (held.get(op).change == 0) c else 0 }, f) }
  action step = any {
    near, near, near, near,
    { nondet op = 0.to(OPS - 1).oneOf()
      nondet s = 0.to(SLOTS - 1).oneOf()
      nondet c = 0.to(CHANGES).oneOf()
      nondet f = Set(true, false).oneOf()
      call(op, { slot: s, change: c }, f) },
    scribble
  }
  // a call is about the arguments held when it is made, whatever happened before
  val lawCurrent = event.kind == "call" implies and {
    event.args == held.get(event.op),
    results.length() > 0,
    results[results.length() - 1] == (event.op, held.get(event.op)) }
  // and the results a caller still holds are each about the arguments it was called with
  val lawHeld = results.foldl(true, (ok, x) => ok and x._2.slot < SLOTS and x._2.change <= CHANGES) and results.length() <= KEPT
  val laws = lawCurrent and lawHeld
}
module stateless_small { import stateless(OPS = 2, SLOTS = 2, CHANGES = 1).* }
module stateless_walk { import stateless(OPS = 2, SLOTS = 2, CHANGES = 5).* }
