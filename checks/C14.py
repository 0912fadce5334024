RULE = ("random functions (polynomial, steep, flat, discontinuous, oscillating) x intervals (any orientation, offset and scale, infinite via scaling transformations) x tolerances; polynomials built from known real and complex roots; random dense, banded, "
  "sparse, triangular and rectangular matrices; linear programs constructed together with a dual certificate; special functions over their domains; linear and Kepler ODEs with closed solutions; spherical harmonics of every symmetry class; star-shaped polygons")
ASSUMPTIONS = ["quartic equations are judged for roots of comparable scale and separation above 1e-3; the quadratic optimisation solver is not available in this build and is not judged", "oracles for special functions: boost::math in long double, power series, integral representations"]
_g = lambda n, cost=5: dict(cpp="c14_num", args=[n], cost=cost)
GROUPS = dict(roots=_g("roots"), poly=_g("poly"), quad=_g("quad"), linalg=_g("linalg", 8), special=_g("special", 8), ode=_g("ode", 8), sph=_g("sph", 8))
