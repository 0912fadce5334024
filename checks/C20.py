RULE = ("Fokker-Planck: random spherical models (Plummer, Dehnen of any cusp; one or two stellar species of different mass; optional central black hole) x four discretisations x grid sizes x time steps x sources, capture radii, capture fractions; a case is one evolution whose masses, energies, potential, sinks and distribution function are recorded step by step. "
    "Monte Carlo: random particles in analytic or self-consistent potentials x single or binary black holes x capture radii and fractions x relaxation x potential updates x snapshot output; a case is a sequence of episodes whose particles, black holes, potential and output files are recorded")
ASSUMPTIONS = ["the phase volume and the spherical density routines are correct (decided by C19)", "accuracy thresholds are those of the discretisation on 100-250 nodes", "orbit integration in fixed potentials is accurate (decided by C09)"]
_g = lambda n, cost=10: dict(cpp="c20_fp", args=[n], cost=cost)
_r = lambda n, cost=10: dict(cpp="c20_raga", args=[n], cost=cost)
GROUPS = dict(conserve=_g("conserve", 30), equation=_g("equation"), meta=_g("meta", 20), budget=_g("budget"), cusp=_g("cusp"), invalid=_g("invalid", 1),
    frozen=_r("frozen"), capture=_r("capture", 15), binary=_r("binary"), relax=_r("relax"), update=_r("update", 15))
