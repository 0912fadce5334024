RULE = ("random points (log-uniform radii over 1e-8..1e8, 64 combinations of degenerate loci: axis, plane, vanishing velocity components, "
  "near-axis), random smooth test functions and focal distances; a case is non-trivial if all oracles of the pair of systems were evaluated on it; "
  "distinct = different generated arguments")
ASSUMPTIONS = ["oracle: textbook definitions evaluated in 80-bit arithmetic with automatic differentiation"]
GROUPS = {g: dict(cpp="c01_coord", args=[g], cost=5) for g in ("chain", "posvel", "spheroidal", "rotation")}
