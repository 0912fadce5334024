import os, numpy as np, scipy.special as sp
from common import *
RULE = ("random sources (sums of Plummer spheres with each symmetry; band-limited sums of solid harmonics with exactly known potential-density pairs; analytic models; particle samples) x expansion type x order x grid; "
  "a case is one constructed expansion compared with its exact source inside, at the edge and outside of its grid, under the symmetry operations, and with the expansion rebuilt from itself")
ASSUMPTIONS = ["accuracy thresholds are those a smooth source of the given order allows (see DESIGN.md), at least three times the largest error observed on the unchanged tree"]
PTYPES = ["Multipole", "BasisSet", "CylSpline"]
class Harm:
    """sum of Clutton-Brock-like pairs: Phi = -sum a_lm r^l (1+r^2)^(-l-1/2) S_lm(angles), the density is its exact Laplacian"""
    def __init__(self, rng, lm, amp=.25, L=1., M=1.):
        self.lm = lm; self.a = [1. if l == 0 else amp*rng.uniform(.4, 1)*(1 if rng.random() < .5 else -1)*2.**l/len(lm) for l, m in lm]; self.L = L; self.M = M
    def S(self, x, l, m):
        """real solid harmonic r^l P_l^|m|(cos) cos/sin, normalised by its maximal value"""
        r = np.sqrt((x**2).sum(1)); ct = np.where(r > 0, x[:, 2]/np.where(r > 0, r, 1), 1.); ph = np.arctan2(x[:, 1], x[:, 0]); am = abs(m)
        N = abs(sp.lpmv(am, l, np.linspace(-1, 1, 201))).max()
        return r**l*sp.lpmv(am, l, ct)/N*(np.cos(am*ph) if m >= 0 else np.sin(am*ph))
    def phi(self, x):
        x = np.atleast_2d(x)/self.L; q = 1+(x**2).sum(1)
        return -self.M/self.L*sum(a*self.S(x, l, m)*q**(-l-.5) for a, (l, m) in zip(self.a, self.lm))
    def rho(self, x):
        x = np.atleast_2d(x)/self.L; q = 1+(x**2).sum(1)
        return self.M/self.L**3/(4*pi)*sum(a*(2*l+1)*(2*l+3)*self.S(x, l, m)*q**(-l-2.5) for a, (l, m) in zip(self.a, self.lm))
    def acc(self, x):
        h = 1e-3*np.sqrt((x**2).sum(1)+self.L**2*1e-4); o = np.zeros_like(x)
        for k in range(3):
            e = np.zeros(3); e[k] = 1; d = h[:, None]*e
            o[:, k] = -(8*(self.phi(x+d)-self.phi(x-d))-(self.phi(x+2*d)-self.phi(x-2*d)))/(12*h)
        return o
    def symmetry(self):
        """numerical code of the symmetry (coord.h): which reflections leave every term unchanged"""
        xs = ys = zs = rs = True; zr = True
        for l, m in self.lm:
            am = abs(m); zs &= (l+am) % 2 == 0; rs &= l % 2 == 0; zr &= m == 0
            ys &= m >= 0                              # y -> -y: sin terms change sign
            xs &= (am % 2 == 0) if m >= 0 else (am % 2 == 1)   # x -> -x: phi -> pi-phi
        return (1 if xs else 0)+(2 if ys else 0)+(4 if zs else 0)+(8 if rs else 0)+(16 if zr else 0)
SYMOPS = dict(none=[], reflection=[[-1,-1,-1]], bisymmetric=[[-1,-1,-1],[1,1,-1],[-1,-1,1]], triaxial=[[-1,1,1],[1,-1,1],[1,1,-1]], axisymmetric="rot", spherical="sph")
def opts(typ, rng, L, hi=True):
    if typ == "Multipole": return dict(gridSizeR=30 if hi else 20, rmin=1e-3*L, rmax=1e3*L) if rng.random() < .6 else dict(gridSizeR=30)
    if typ == "BasisSet": return dict(nmax=16 if hi else 10, eta=pick(rng, [.5, 1, 1], .5, 1.5))
    return dict(gridSizeR=24, gridSizeZ=24, Rmin=.05*L, Rmax=60*L, zmin=.05*L, zmax=60*L)
def rels(pot, src, x, L):
    """errors relative to the monopole-like scales"""
    s = np.sqrt((x**2).sum(1)+L*L); M = src.M
    eP = np.abs(pot.potential(x)-src.phi(x))*s/M; eA = np.abs(pot.force(x)-src.acc(x)).max(1)*s*s/M; eD = np.abs(pot.density(x)-src.rho(x))*s**3/M
    return eP, eA, eD
def source_obj(src, how):
    """the same source given to the library in different ways"""
    if how == "native": return src.potential()
    if how == "nativedens": return agama.Density(*[agama.Density(type="Plummer", mass=p[3], scaleRadius=p[4], center=list(p[:3])) for p in src.P])
    if how == "rho": return lambda x: src.rho(x)
    return lambda x: src.phi(x)
def blobs(c):
    """smooth multi-centre sources of every symmetry, moderate off-centre distance"""
    rng = c.rng; i = 0
    for rep in range(c.n(1, 6)):
        for sym in Blobs.SYM:
            for typ in PTYPES:
                L = logu(rng, .1, 10); src = Blobs(rng, sym, L, off=.5, nb=1 if sym in ("bisymmetric", "triaxial") else 2)
                how = ["native", "rho", "phi", "nativedens"][rng.integers(4)]; o = opts(typ, rng, L)
                if typ == "CylSpline" and sym not in ("spherical", "axisymmetric"): how = ["native", "phi"][rng.integers(2)]
                if how == "phi" and typ == "Multipole": o.update(rmin=1e-3*L, rmax=1e3*L)   # automatic grid selection relies on the density = finite differences of the user function
                if sym == "none" and how in ("native", "nativedens") and rng.random() < .5: sarg = {}
                else: sarg = dict(symmetry=sym)
                key = "density" if how in ("rho", "nativedens") else "potential"
                mk = lambda l: agama.Potential(type=typ, **{key: source_obj(src, how)}, **o, **(dict(lmax=l, mmax=l) if typ != "CylSpline" else dict(mmax=l)), **sarg)
                with c.case("blobs:%s:%s" % (typ, sym), dict(P=src.P, how=how, o=o)):
                    p = mk(14 if typ != "CylSpline" else 8); x = points(rng, 60, .02*L, 30*L); X = points(rng, 20, 300*L, 3000*L)
                    eP, eA, eD = rels(p, src, x, L)
                    tol = dict(Multipole=(3e-3, 1e-2, 4e-2), BasisSet=(3e-3, 2e-2, .3), CylSpline=(2e-3, 1e-2, 5e-2))[typ]
                    for nm, e, t in zip(("potential", "force", "density"), (eP, eA, eD), tol):
                        c.ok(np.all(e <= t), "%s:%s:%s" % (nm, typ, sym), "max error %g at r/L=%g" % (e.max(), np.linalg.norm(x[e.argmax()])/L), info=x[e.argmax()]); c.maxrel["%s:%s" % (nm, typ)] = max(c.maxrel.get("%s:%s" % (nm, typ), 0), e.max()/t)
                    # well outside of the grid
                    c.close(p.potential(X), src.phi(X), "far:%s:%s" % (typ, sym), 3e-3); c.close(p.force(X), src.acc(X), "farforce:%s:%s" % (typ, sym), 0, 1e-2*np.linalg.norm(src.acc(X), axis=1)[:, None])
                    x0 = points(rng, 10, 1e-6*L, 1e-4*L, 0); c.close(p.potential(x0), src.phi(x0), "near:%s:%s" % (typ, sym), 5e-3)
                    rr = np.array([.3, 1, 3, 20.])*L; c.close(p.enclosedMass(rr), source_obj(src, "native").enclosedMass(rr), "mass:%s:%s" % (typ, sym), 5e-3, 2e-3*src.M)
                    check_sym(c, p, sym, typ, L)
                    if rep % 3 == 0 and typ != "CylSpline" or c.thorough:
                        ps = mk(4 if typ != "CylSpline" else 2); a = rels(ps, src, x, L)
                        for nm, e0, e1, t in zip(("potential", "force", "density"), a, (eP, eA, eD), tol):
                            c.ok(np.sqrt(np.mean(e1**2)) <= 1.2*np.sqrt(np.mean(e0**2)) + .1*t, "refine:%s:%s" % (nm, typ), "rms error grows from %g to %g when the order is increased" % (np.sqrt(np.mean(e0**2)), np.sqrt(np.mean(e1**2))))
def check_sym(c, p, sym, typ, L):
    rng = c.rng; x = points(rng, 20, .05*L, 50*L, .2); ph, a, r = p.potential(x), p.force(x), p.density(x); fa = np.linalg.norm(a, axis=1); sc = np.sqrt((x**2).sum(1))
    def cmp(x2, M, tag):
        c.close(p.potential(x2), ph, "sym-phi:%s:%s" % (typ, tag), 1e-9); c.close(p.force(x2), a @ M.T, "sym-acc:%s:%s" % (typ, tag), 0, 1e-7*fa[:, None]); c.close(p.density(x2), r, "sym-rho:%s:%s" % (typ, tag), 1e-6, 1e-6*fa/sc)
    if typ == "CylSpline" and sym == "spherical": sym = "axisymmetric"
    ops = SYMOPS[sym]
    if ops == "sph":
        M = rotmat(*rng.uniform(0, 3, 3)); cmp(x @ M.T, M, sym)
    else:
        if ops == "rot":
            M = rotmat(rng.uniform(-3, 3), 0, 0); cmp(x @ M.T, M, sym); ops = SYMOPS["triaxial"]
        for op in ops: cmp(x*np.array(op), np.diag(op), sym)
def harmonics(c):
    """every single spherical harmonic must be retained with its amplitude and sign"""
    rng = c.rng; nm = 5
    allm = [(l, m) for l in range(1, nm+1) for m in range(-l, l+1)]
    def one(lm, typ, viaphi, sym, tag):
        L, M = logu(rng, .1, 10), logu(rng, .1, 10); src = Harm(rng, [(0, 0)]+lm, .2, L, M); lmx = max([l for l, m in lm]); mmx = max([abs(m) for l, m in lm])
        if sym == "exact": s = src.symmetry()
        else: s = "none"
        lx = lmx+int(rng.integers(0, 3)); o = dict(lmax=lx, mmax=min(lx, mmx+int(rng.integers(0, 2))))
        if typ == "BasisSet": o.update(nmax=int(rng.integers(2, 8)), eta=.5, r0=L)
        elif typ == "CylSpline": del o["lmax"]; o.update(gridSizeR=20, gridSizeZ=20, Rmin=.05*L, Rmax=60*L, zmin=.05*L, zmax=60*L)
        else: o.update(gridSizeR=40, rmin=3e-3*L, rmax=3e2*L)
        if typ != "CylSpline" and rng.random() < .3: o["fixOrder"] = True
        with c.case("harm:%s:%s" % (typ, tag), dict(lm=lm, a=src.a, o=o, sym=s, viaphi=viaphi)):
            kw = dict(potential=lambda x: src.phi(x)) if viaphi else dict(density=lambda x: src.rho(x))
            p = agama.Potential(type=typ, symmetry=s, **kw, **o)
            x = points(rng, 40, .05*L, 20*L, .3); eP, eA, eD = rels(p, src, x, L)
            t = dict(Multipole=(1e-4, 1e-3, 1e-2), BasisSet=(2e-4, 3e-4, 5e-4), CylSpline=(1e-3, 5e-3, 3e-2))[typ]
            for n_, e, tt in zip(("phi", "acc", "rho"), (eP, eA, eD), t):
                c.ok(np.all(e <= tt), "harm-%s:%s:%s" % (n_, typ, tag), "max error %g at %s" % (e.max(), x[e.argmax()]), info=x[e.argmax()]); k = "harm-%s:%s" % (n_, typ); c.maxrel[k] = max(c.maxrel.get(k, 0), e.max()/tt)
        c.event("harmonic-terms", len(lm))
    for l, m in (allm if c.thorough else [allm[i] for i in rng.permutation(len(allm))[:24]]):
        for typ in ("Multipole", "BasisSet"): one([(l, m)], typ, rng.random() < .5 and typ == "Multipole", "exact" if rng.random() < .5 else "none", "single")
    for l, m in [allm[i] for i in rng.permutation(len(allm))[:c.n(4, 35)]]: one([(l, m)], "CylSpline", True, "exact" if rng.random() < .5 else "none", "single")
    for i in range(c.n(16)):
        lm = [allm[k] for k in rng.permutation(len(allm))[:rng.integers(2, 7)]]; one(lm, PTYPES[i % 2] if i % 5 else "CylSpline", i % 5 == 0 or rng.random() < .5 and i % 2 == 0, "exact" if rng.random() < .5 else "none", "multi")
def densexp(c):
    """density-only expansions"""
    rng = c.rng
    allm = [(l, m) for l in range(1, 6) for m in range(-l, l+1)]
    for i in range(c.n(24)):
        sph = i % 2 == 0; L, M = logu(rng, .1, 10), logu(rng, .1, 10); lm = [allm[k] for k in rng.permutation(len(allm))[:rng.integers(1, 5)]]; src = Harm(rng, [(0, 0)]+lm, .15, L, M)
        lmx = max(l for l, m in lm); mmx = max(abs(m) for l, m in lm); s = src.symmetry() if rng.random() < .5 else "n"; typ = "DensitySphericalHarmonic" if sph else "DensityAzimuthalHarmonic"
        o = dict(lmax=lmx, mmax=mmx, gridSizeR=50, rmin=1e-2*L, rmax=1e2*L) if sph else dict(mmax=mmx, gridSizeR=40, gridSizeZ=40, Rmin=.02*L, Rmax=50*L, zmin=.02*L, zmax=50*L)
        with c.case("densexp:" + typ, dict(lm=lm, a=src.a, o=o, s=s)):
            d = agama.Density(type=typ, density=lambda x: src.rho(x), symmetry=s, **o); x = points(rng, 60, .05*L, 20*L, .3); r = np.sqrt((x**2).sum(1))
            e = abs(d.density(x)-src.rho(x))*(r*r+L*L)**2.5/(M*L*L); c.ok(np.all(e < 3e-3), "densexp:" + typ, "error %g at %s" % (e.max(), x[e.argmax()]/L)); c.maxrel["densexp:" + typ] = max(c.maxrel.get("densexp:" + typ, 0), e.max()/3e-3)
            c.close(d.totalMass(), M, "densmass:" + typ, 5e-3 if sph else 2e-2)
            # rebuilt from itself
            d2 = agama.Density(type=typ, density=d, **o); c.close(d2.density(x), d.density(x), "rebuild:" + typ, 0, 1e-3*M*L*L/(r*r+L*L)**2.5)
            # linear in the source
            d3 = agama.Density(type=typ, density=lambda x: 2.5*src.rho(x), symmetry=s, **o); c.close(d3.density(x), 2.5*d.density(x), "linear:" + typ, 1e-9, 1e-9*M*L*L/(r*r+L*L)**2.5)
def rebuild(c):
    rng = c.rng
    for i in range(c.n(18)):
        typ = PTYPES[i % 3]; sym = Blobs.SYM[i % 6 if i % 3 != 2 else rng.integers(6)]; L = logu(rng, .1, 10); src = Blobs(rng, sym, L); l = int(rng.integers(2, 7)); o = opts(typ, rng, L); o.pop("eta", 0)
        if typ == "Multipole": o = dict(gridSizeR=30, rmin=1e-2*L, rmax=1e2*L)
        if typ == "BasisSet": o.update(r0=L*float(rng.uniform(.8, 1.5)), eta=pick(rng, [.5, 1, 2], .5, 2))
        if typ == "CylSpline": l = min(l, 3); o.update(gridSizeR=15, gridSizeZ=15)
        o.update(dict(mmax=l if sym not in ("spherical", "axisymmetric") else 0) if typ == "CylSpline" else dict(lmax=l, mmax=int(rng.integers(0, l+1))))
        with c.case("rebuild:" + typ, dict(P=src.P, o=o)):
            cyl = typ == "CylSpline" and sym not in ("spherical", "axisymmetric"); bld = lambda d: agama.Potential(type=typ, symmetry=sym, **(dict(potential=agama.Potential(*[agama.Potential(type="Plummer", mass=e["mass"], scaleRadius=e["scaleRadius"], center=e["center"]) for e in d])) if cyl else dict(density=agama.Density(*[agama.Density(type="Plummer", **e) for e in d]))), **o)
            p = bld([dict(mass=b[3], scaleRadius=b[4], center=list(b[:3])) for b in src.P]); x = points(rng, 40, .1*L, 10*L, .2); s = np.sqrt((x**2).sum(1)+L*L)
            kw = [dict(potential=p), dict(density=p)] if typ == "Multipole" else [dict(density=p)] if typ == "BasisSet" else [dict(potential=p)]
            for k in kw:
                for extra in (0, 3):
                    oo = dict(o); 
                    for q in ("lmax", "mmax"):
                        if q in oo: oo[q] += extra
                    p2 = agama.Potential(type=typ, **k, **oo); t = dict(Multipole=1e-4, BasisSet=1e-3, CylSpline=1e-3)[typ]; kk = "%s:%s" % (typ, list(k)[0])
                    # at equal order the angular content is identical, a higher order only adds zeros
                    c.close(p2.potential(x), p.potential(x), "rebuild-phi:" + kk, 0, t*src.M/s); c.close(p2.force(x), p.force(x), "rebuild-acc:" + kk, 0, (10*t*src.M/s**2)[:, None])
            # cross-type: the potential of another type built from this one
            t2 = PTYPES[(i+1) % 2]; q = agama.Potential(type=t2, density=p, lmax=l, mmax=l, **(dict(nmax=16) if t2 == "BasisSet" else dict(gridSizeR=30)))
            if typ != "CylSpline": c.close(q.potential(x), p.potential(x), "cross:%s-%s" % (typ, t2), 0, 5e-3*src.M/s)
            # linearity in the source mass, invariance under unit rescaling of the length
            q = bld([dict(mass=7*b[3], scaleRadius=b[4], center=list(b[:3])) for b in src.P])
            c.close(q.potential(x), 7*p.potential(x), "linear:" + typ, 1e-7); c.close(q.force(x), 7*p.force(x), "linear:" + typ, 0, 1e-5*src.M/L**2)
            k = 3.7; oo, o = o, {a: (b*k if a in ("rmin", "rmax", "Rmin", "Rmax", "zmin", "zmax", "r0") else b) for a, b in o.items()}
            q = bld([dict(mass=b[3], scaleRadius=k*b[4], center=list(k*b[:3])) for b in src.P]); c.close(k*q.potential(k*x), p.potential(x), "scalefree:" + typ, 1e-4); c.close(k*k*q.force(k*x), p.force(x), "scalefree:" + typ, 0, 3e-3*src.M/L**2)
def analytic(c): _analytic(c, 0)
def analytic2(c): _analytic(c, 1)
def analytic3(c): _analytic(c, 2)
def _analytic(c, part):
    """axisymmetric and spherical analytic models, including cusps, strongly flattened and truncated ones, and behaviour outside the grid"""
    rng = c.rng
    for i in range(part, part+c.n(8)):
        kind = ["Dehnen", "NFW", "MiyamotoNagai", "PerfectEllipsoid", "Plummer"][i % 5]; m = randmodel(rng, kind); L, M = m.L, m.M; pot = m.obj
        for typ in PTYPES:
            if typ == "BasisSet" and kind == "NFW": continue
            q = m.spec.get("axisRatioZ", 1) if kind != "MiyamotoNagai" else min(1, m.spec["scaleHeight"]/L)
            if typ != "CylSpline" and q < .5: continue
            g = m.spec.get("gamma", 1 if kind == "NFW" else 0)
            if kind == "MiyamotoNagai" and typ != "CylSpline" or kind == "NFW" and typ == "CylSpline": continue
            if typ == "CylSpline" and g > 1 or typ == "BasisSet" and g > 1.3: continue
            for key in ("potential", "density"):
                o = dict(gridSizeR=30, lmax=20) if typ == "Multipole" else dict(nmax=20, lmax=16) if typ == "BasisSet" else dict(gridSizeR=30, gridSizeZ=30, Rmin=.02*L*min(1, q), Rmax=100*L, zmin=.02*L*min(1, q), zmax=100*L, mmax=0)
                with c.case("analytic:%s:%s:%s" % (typ, kind, key), dict(s=m.spec, o=o)):
                    p = agama.Potential(type=typ, **{key: pot}, **o); x = points(rng, 40, .05*L, 30*L, .3); a0 = pot.force(x); fa = np.linalg.norm(a0, axis=1)[:, None]; tol = dict(Multipole=1e-3, BasisSet=2e-2, CylSpline=2e-2)[typ]
                    if kind in ("MiyamotoNagai", "PerfectEllipsoid"): tol = max(tol, 1e-2*(.5/q)**2)
                    if kind == "NFW" and typ == "CylSpline": tol = 3e-2
                    if kind == "MiyamotoNagai": tol = max(tol, .1)
                    c.close(p.force(x), a0, "ana-acc:%s:%s" % (typ, kind), 0, tol*fa); c.close(p.potential(x), pot.potential(x), "ana-phi:%s:%s" % (typ, kind), 2*tol)
                    if typ != "BasisSet" or kind == "Plummer":
                        d, d0 = p.density(x), pot.density(x); e = abs(d-d0)/(8*tol*d0+3*tol*fa[:, 0]/np.sqrt((x**2).sum(1))/(4*pi))
                        # second derivatives of CylSpline near the boundary of the grid may be inaccurate: isolated points are allowed to deviate
                        e = (.4 if typ == "CylSpline" else 1.)*np.sort(e)[-6 if typ == "CylSpline" else -1]; c.ok(e < 1, "ana-rho:%s:%s" % (typ, kind), "density deviates by %g x tolerance" % e); c.maxrel["ana-rho:" + typ] = max(c.maxrel.get("ana-rho:" + typ, 0), e)
                    X = points(rng, 10, 3e2*L, 3e3*L); c.close(p.potential(X), pot.potential(X), "ana-far:%s:%s" % (typ, kind), 3e-2 if kind == "NFW" or typ == "CylSpline" else 1e-2)
                    rr = np.array([.1, 1, 10, 80])*L; c.close(p.enclosedMass(rr), pot.enclosedMass(rr), "ana-mass:%s:%s" % (typ, kind), 4*tol, 2*tol*pot.enclosedMass(L))
                    if kind != "NFW": c.close(p.totalMass(), M, "ana-total:%s:%s" % (typ, kind), 3e-2 if typ != "Multipole" or key == "potential" or kind == "PerfectEllipsoid" else 5e-3)
def particles(c):
    rng = c.rng; N = c.n(30000, 100000)
    for i in range(c.n(10)):
        typ = PTYPES[i % 2] if i % 5 != 4 else "CylSpline"; L, M = logu(rng, .1, 10), logu(rng, .1, 10); q = float(rng.uniform(.6, 1)); p_ = float(rng.uniform(.7, 1))
        d = agama.Density(type="Spheroid", gamma=pick(rng, [0, 1], 0, 1), beta=5., scaleRadius=L, mass=M, axisRatioY=p_, axisRatioZ=q, **(dict(outerCutoffRadius=30*L)))
        sym = ["t", "r", "n", "b"][rng.integers(4)]; sym = "b" if sym == "r" and typ == "CylSpline" else sym   # CylSpline cannot represent a pure mirror symmetry
        o = dict(lmax=4, mmax=4) if typ == "Multipole" else dict(lmax=4, nmax=8) if typ == "BasisSet" else dict(mmax=2)
        with c.case("particles:" + typ, dict(q=q, p=p_, sym=sym, L=L, M=M)):
            agama.setRandomSeed(int(rng.integers(1, 10**6))); xv, mm = d.sample(N); ref = agama.Potential(type="Multipole", density=d, lmax=12)
            if i % 3 == 0:   # unequal masses representing the same density
                k = rng.random(N) < .5; w = np.where(k, rng.uniform(.5, 1.5, N), 1); mm = mm*w*(M/np.sum(mm*w))
            p = agama.Potential(type=typ, particles=(xv, mm), symmetry=sym, **o); x = points(rng, 40, .3*L, 10*L); fa = np.linalg.norm(ref.force(x), axis=1)
            c.close(p.potential(x), ref.potential(x), "part-phi:" + typ, 3e-2); e = np.linalg.norm(p.force(x)-ref.force(x), axis=1)/fa; c.ok(np.sqrt(np.mean(e**2)) < .06, "part-acc:" + typ, "rms force error %g" % np.sqrt(np.mean(e**2)))
            c.maxrel["part-acc:" + typ] = max(c.maxrel.get("part-acc:" + typ, 0), np.sqrt(np.mean(e**2))/.06)
            r = np.sqrt((xv**2).sum(1)); rr = np.array([.5, 1, 3, 10])*L
            c.close(p.enclosedMass(rr), [mm[r < k].sum() for k in rr], "part-mass:" + typ, 0, 3e-2*M); c.close(p.totalMass(), mm.sum(), "part-total:" + typ, 3e-2)
            check_sym(c, p, dict(t="triaxial", r="reflection", n="none", b="bisymmetric")[sym], typ, L)
            p2 = agama.Potential(type=typ, particles=(xv, 3*mm), symmetry=sym, **o); c.close(p2.potential(x), 3*p.potential(x), "part-linear:" + typ, 1e-6)
            k = rng.permutation(N); p2 = agama.Potential(type=typ, particles=(xv[k], mm[k]), symmetry=sym, **o); c.close(p2.potential(x), p.potential(x), "part-order:" + typ, 1e-6)
    for i in range(c.n(6)):   # BasisSet of a particle set is the exact projection: linear in particles, additive
        L = logu(rng, .3, 3); x1, x2 = rng.normal(size=(200, 3))*L, rng.normal(size=(100, 3))*L; m1, m2 = rng.random(200), rng.random(100); o = dict(type="BasisSet", lmax=int(rng.integers(0, 6)), nmax=int(rng.integers(0, 8)), r0=L, symmetry="n")
        with c.case("basis-additive", o):
            p1, p2, p3 = (agama.Potential(particles=(a, b), **o) for a, b in ((x1, m1), (x2, m2), (np.vstack((x1, x2)), np.hstack((m1, m2))))); x = points(rng, 30, .1*L, 10*L)
            c.close(p1.potential(x)+p2.potential(x), p3.potential(x), "basis-additive", 1e-10, 1e-10*200/L)
            # projection: the same coefficients as for the smooth source in the limit: monopole n=0 and other terms checked through a shell of particles
    # point-mass shell / ring: harmonics with definite sign and parity from few particles
    for i in range(c.n(12)):
        L = logu(rng, .3, 3); lm = [(1, 0), (1, 1), (1, -1), (2, -2), (2, 1), (2, -1), (3, 3), (3, -3), (2, 2), (3, -2), (3, 2), (4, -3)][i % 12]; l, m = lm
        with c.case("part-harm:%d:%d" % lm, dict(L=L)):
            # particles weighted by 1 + 0.8 S_lm on a Fibonacci sphere, Plummer-distributed radii: a particle realisation of Harm
            n = 20000; k = np.arange(n)+.5; ct = 1-2*k/n; ph = 2*pi*k*(np.sqrt(5)-1)/2; u = (rng.permutation(n)+.5)/n; u = u*.9999; r = L/np.sqrt(u**(-2/3.)-1); st = np.sqrt(1-ct*ct); xx = r[:, None]*np.column_stack((st*np.cos(ph), st*np.sin(ph), ct))
            h = Harm(rng, [(0, 0), lm]); S = h.S(xx/r[:, None], l, m); g = (r/L)**l*(1+(r/L)**2)**(-l); A = .8; w = 1+A*S*g*4**(l/2)*.5   # rho_lm ~ r^l (1+r^2)^(-l-5/2)
            h.a = [1., A*4**(l/2)*.5*3/((2*l+1)*(2*l+3))]; h.L, h.M = L, 1.
            for typ in ("Multipole", "BasisSet"):
                p = agama.Potential(type=typ, particles=(xx, w/n), symmetry="n", **(dict(lmax=l, gridSizeR=20, rmin=.05*L, rmax=20*L) if typ == "Multipole" else dict(lmax=l, nmax=4, eta=.5, r0=L))); x = dirs(rng, 200)*L
                d = p.potential(x); s = h.S(x/L, l, m); amp = np.sum((d-np.mean(d))*s)/np.sum(s*s); ref = -h.a[1]*2**(-l-.5)/L
                c.close(amp, ref, "part-harm:%s:%d,%d" % (typ, l, m), .12, .004/L); c.maxrel["ph"] = max(c.maxrel.get("ph", 0), abs(amp/ref-1)/.12)
    # an arbitrary lopsided cloud, compared with direct summation well outside of it
    for i in range(c.n(12)):
        typ = PTYPES[i % 3]; L = logu(rng, .3, 3); N = 400; x0 = L*rng.normal(size=3)*[.8, .8, .5]; xx = x0+.25*L*rng.normal(size=(N, 3)); m = rng.uniform(.5, 1.5, N)/N
        o = dict(Multipole=dict(lmax=12), BasisSet=dict(lmax=12, nmax=20, r0=L), CylSpline=dict(mmax=12, gridSizeR=22, gridSizeZ=22, Rmin=.1*L, Rmax=30*L, zmin=.1*L, zmax=30*L))[typ]
        with c.case("part-direct:" + typ, dict(L=L, x0=x0, o=o)):
            p = agama.Potential(type=typ, particles=(xx, m), symmetry="none", **o); rm = np.sqrt((xx**2).sum(1)).max(); X = dirs(rng, 60)*rng.uniform(2, 6, (60, 1))*rm
            d = X[:, None]-xx[None]; r = np.sqrt((d**2).sum(-1)); ph = -(m/r).sum(1); F = -((m/r**3)[:, :, None]*d).sum(1)
            e1 = abs(p.potential(X)/ph-1).max(); e2 = (np.linalg.norm(p.force(X)-F, axis=1)/np.linalg.norm(F, axis=1)).max()
            t1, t2 = dict(Multipole=(8e-3, 3e-2), BasisSet=(2e-2, .15), CylSpline=(1e-3, 5e-3))[typ]
            c.ok(e1 < t1, "part-direct-phi:" + typ, "max error %g" % e1); c.ok(e2 < t2, "part-direct-acc:" + typ, "max error %g" % e2); c.maxrel["pdp:" + typ] = max(c.maxrel.get("pdp:" + typ, 0), e1/t1); c.maxrel["pda:" + typ] = max(c.maxrel.get("pda:" + typ, 0), e2/t2)
    # known finding: a Multipole grid reaching far beyond the particles extrapolates the l>0 harmonics without bound
    with c.case("part-widegrid", {}):
        R = np.random.default_rng(2); xx = R.normal(size=3)+.25*R.normal(size=(400, 3)); m = np.ones(400)/400; X = dirs(R, 60)*R.uniform(2, 6, (60, 1))*np.sqrt((xx**2).sum(1)).max()
        p = agama.Potential(type="Multipole", particles=(xx, m), symmetry="none", lmax=12, rmin=.05, rmax=30, gridSizeR=30); ph = -(m/np.sqrt(((X[:, None]-xx)**2).sum(-1))).sum(1)
        e = abs(p.potential(X)/ph-1).max(); c.ok(e < .05, "part-widegrid-phi:Multipole", "relative error of the potential %g" % e)
GROUPS = dict(blobs=dict(fn=blobs, cost=30), harmonics=dict(fn=harmonics, cost=25), densexp=dict(fn=densexp, cost=10), rebuild=dict(fn=rebuild, cost=25), analytic=dict(fn=analytic, cost=20), analytic2=dict(fn=analytic2, cost=20), analytic3=dict(fn=analytic3, cost=20), particles=dict(fn=particles, cost=25))
