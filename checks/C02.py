import os
RULE = ("random models of 23 kinds x random parameters x random points (log-uniform radii, directions with 5 of 12 on degenerate loci, 30% near grid boundaries); "
  "a case is one model at one point (all outputs compared) and is non-trivial if all oracles were evaluated on it")
ASSUMPTIONS = ["finite differences use the best of four step sizes with rounding estimates; kinks of thin exponential disks at z=0 are excluded from the second-derivative oracle"]
GROUPS = {g: dict(cpp="c02_pot", args=[g], cost=c) for g, c in
  dict(analytic=20, expansion=20, compound=20, cylspline=40, disk=30, cylblob=30).items()}
