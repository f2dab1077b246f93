// The optional dependency (C26): an environment where OpenCV is installed, is not
// installed, or is installed but does not load; modules imported in any order,
// operations called in any order.
module optional {
  type Env = Present | Missing | Broken
  pure val ENVS = [Present, Missing, Broken]
  pure val MODULES = ["geospatial", "noise", "utils", "radiance", "otf", "simulation", "metrics"]
  // operations by what they produce; the names of gen_* cases
  pure val IMAGING = ["psf", "apply", "resample_image", "image"]
  pure val PLAIN = ["snr", "curve", "blackbody", "emission", "integrated", "detection", "scene", "resample",
    "component", "system", "filter", "weighted", "slice", "profile", "wind", "polychromatic",
    "calibrate", "ref_image", "stretch", "edge", "resolved", "terms2d", "giqe", "geometry",
    "noise_gain", "quantization", "radii", "chain", "plots", "objects"]
  pure def needs(op: str): bool = IMAGING.select(x => x == op).length() > 0

  var env: Env
  var imported: Set[str]
  // what happened last: an import or a call and its outcome
  var event: { kind: str, what: str, outcome: str, env: int }
  var done: Set[str]        // imaging operations that have worked

  pure def number(e: Env): int = match e { | Present => 0 | Missing => 1 | Broken => 2 }
  // an import always succeeds; it may pull in any other module
  pure def outcome(e: Env, op: str): str = if (needs(op) and e != Present) "refused" else "works"

  action init = all {
    nondet e = Set(Present, Missing, Broken).oneOf()
    env' = e,
    imported' = Set(), done' = Set(),
    event' = { kind: "start", what: "", outcome: "works", env: 0 }
  }
  action load(m: str): bool = all {
    env' = env, imported' = imported.union(Set(m)), done' = done,
    event' = { kind: "import", what: m, outcome: "works", env: number(env) }
  }
  action call(op: str): bool = all {
    env' = env, imported' = imported,
    done' = if (needs(op) and outcome(env, op) == "works") done.union(Set(op)) else done,
    event' = { kind: "call", what: op, outcome: outcome(env, op), env: number(env) }
  }
  action step = any {
    { nondet i = 0.to(6).oneOf() load(MODULES[i]) },
    { nondet i = 0.to(3).oneOf() call(IMAGING[i]) },
    { nondet i = 0.to(29).oneOf() call(PLAIN[i]) },
    { nondet i = 0.to(29).oneOf() call(PLAIN[i]) }
  }

  // only imaging is ever refused, and only where OpenCV cannot be loaded
  val onlyImaging = event.outcome == "refused" implies and { event.kind == "call", needs(event.what), env != Present }
  // where it cannot be loaded imaging never works, whatever was imported or called before
  val neverWrong = env != Present implies and { done == Set(), (event.kind == "call" and needs(event.what)) implies event.outcome == "refused" }
  val safe = onlyImaging and neverWrong
}
