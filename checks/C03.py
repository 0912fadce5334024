import os, numpy as np
from common import *
RULE = ("random models of 18 kinds x random parameters; a case is one model (or one model with one viewing direction) on which every oracle was evaluated: Poisson's equation, Gauss' theorem, quadrature of the density, "
  "line-of-sight quadratures, defining equations of derived quantities; non-trivial unless the model lacks the quantity (infinite mass, singular centre)")
ASSUMPTIONS = ["independent quadratures are Gauss-Legendre rules refined to well below the tolerance; library routines promise a relative accuracy of 1e-4 (1e-3 with caps on evaluations)"]
def acc_all(o, x, t=0): return o.eval(x, pot=True, acc=True, der=True, t=t)
def poisson(c):
    rng = c.rng
    for i in range(c.n(240)):
        kind = KINDS[i % len(KINDS)]; m = randmodel(rng, kind); pot = m.obj
        with c.case("poisson:" + kind, m.spec):
            x = points(rng, 60, m.L*m.rlo, m.L*m.rhi); phi, a, h = acc_all(pot, x); rho = pot.density(x)
            tr = -h[:, :3].sum(1) / (4*pi); sc = np.abs(h[:, :3]).max(1) / (4*pi); r = np.sqrt((x**2).sum(1))
            A = np.sqrt((a**2).sum(1)); sc = sc + A / r / (4*pi)
            # models with closed-form densities satisfy it to rounding, approximate ones to their documented accuracy
            tol = {"DehnenTriax": 3e-3, "Ferrers": 3e-3, "CylSpline": 1e-8, "Disk": 3e-2}.get(kind, 1e-6)
            if kind in ("Composite", "Modified"): tol = max(tol, m.approx)
            good = np.ones(len(x), bool)
            if kind == "Disk": good = np.abs(x[:, 2]) > 0.02*m.L     # thin layer: the expansion is smooth only to interpolation error
            c.close(rho[good], tr[good], "poisson:" + kind, 0, tol*sc[good])
            # finite differences of the force alone, independent of the reported derivatives
            if not m.thin and m.approx <= 1e-3 and kind not in ("Composite", "Modified"):
                best = np.full(len(x), np.inf)
                for st in (3e-3, 3e-4, 3e-5):
                    d = st*r; div = np.zeros(len(x))
                    for k in range(3):
                        e = np.zeros(3); e[k] = 1
                        f1 = pot.force(x + d[:, None]*e) - pot.force(x - d[:, None]*e); f2 = pot.force(x + 2*d[:, None]*e) - pot.force(x - 2*d[:, None]*e)
                        div += (8*f1[:, k] - f2[:, k]) / (12*d)
                    best = np.minimum(best, np.abs(-div/(4*pi) - rho))
                c.ok(np.all(best <= 2e-4*sc), "divergence:" + kind, "max dev %g" % np.max(best/sc))
            if kind != "Logarithmic" and kind not in ("King", "Composite", "Modified", "BasisSet", "CylSpline", "Disk", "MultipoleTriax", "Multipole"):
                c.ok(np.all(rho >= -1e-10*sc), "nonneg:" + kind, "negative density")
def mass(c):
    rng = c.rng
    kinds = [k for k in KINDS if k not in ("Modified",)]
    D, W = sphere(80, 48)
    for i in range(c.n(102)):
        kind = kinds[i % len(kinds)]; m = randmodel(rng, kind); pot = m.obj
        with c.case("mass:" + kind, m.spec):
            rr = m.L*np.exp(rng.uniform(np.log(.05), np.log(30), 5)); rr.sort()
            if kind in ("CylSpline", "Disk"): rr = m.L*np.exp(rng.uniform(np.log(.3), np.log(10), 5)); rr.sort()
            me = pot.enclosedMass(rr); Mref = me[-1]
            tol = 3e-2 if m.thin or kind in ("CylSpline", "King", "BasisSet") else max(1e-3, 3*m.approx)
            # Gauss' theorem: flux of the force through the sphere
            for r, M in zip(rr, me):
                flux = -np.sum((pot.force(r*D) * D).sum(1) * W) * r*r / (4*pi)
                c.close(M, flux, "gauss:" + kind, tol, 1e-4*Mref)
            c.ok(np.all(np.diff(me) >= -(1e-6 if m.approx == 0 else tol)*Mref), "monotone:" + kind, "enclosed mass decreases", info=list(me))
            c.close(pot.enclosedMass(0), 0, "zero:" + kind, 0, 0)
            # volume integral between two radii
            if not m.thin and kind != "BasisSet":
                c.close(me[-1]-me[1], massquad(pot, rr[1], rr[-1], 48, 48), "volume:" + kind, 5*tol, 1e-3*Mref)
            M = pot.totalMass()
            if m.infmass: c.ok(M == np.inf or not np.isfinite(M), "total:" + kind, "mass of an infinite model is %g" % M)
            else:
                slow = kind in ("PerfectEllipsoid", "BasisSet", "King", "Isochrone") or m.approx > 0
                c.close(pot.enclosedMass(np.inf), M, "minf:" + kind, 5e-3 if m.approx else 1e-12)
                c.le(me, M*(1+tol), "bounded:" + kind)
                if kind in ("Plummer", "Isochrone", "MiyamotoNagai", "PerfectEllipsoid", "Dehnen", "DehnenTriax", "Ferrers", "King"): c.close(M, m.M, "totalmass:" + kind, 1e-3)
                rf = m.L*1e4; x = rf*dirs(rng, 5)
                c.close(-pot.potential(x)*rf, M, "farfield:" + kind, 3e-2 if kind in ("BasisSet", "Composite", "Multipole", "MultipoleTriax", "CylSpline", "Disk") else 3e-3)
def densmass(c):
    """stand-alone density models: mass integrals, infinite mass, monotonicity"""
    rng = c.rng
    for i in range(c.n(60)):
        L, M = logu(rng, .01, 100), logu(rng, .01, 100); kind = ["Spheroid", "Nuker", "Sersic", "Disk", "King", "PerfectEllipsoid", "Blobs", "PythonFn"][i % 8]
        p, q = float(rng.uniform(.5, 1)), float(rng.uniform(.3, 1)); fin = True
        if kind == "Spheroid":
            s = dict(type=kind, mass=M, scaleRadius=L, gamma=pick(rng, [0, 1, 2], 0, 2.2), beta=pick(rng, [4, 5], 3.7, 6), alpha=pick(rng, [1, 2], .5, 3), axisRatioY=p, axisRatioZ=q)
            if rng.random() < .5: s.update(outerCutoffRadius=L*logu(rng, .5, 20), cutoffStrength=float(rng.uniform(.5, 4)))
            if rng.random() < .3: s = {**s, "densityNorm": M/L**3}; s.pop("mass")
        elif kind == "Nuker": s = dict(type=kind, mass=M, scaleRadius=L, gamma=float(rng.uniform(0, 1.1)), beta=float(rng.uniform(2.8, 4)), alpha=float(rng.uniform(.7, 3)), axisRatioY=p, axisRatioZ=q)
        elif kind == "Sersic": s = dict(type=kind, mass=M, scaleRadius=L, sersicIndex=float(rng.uniform(.6, 5)), axisRatioY=p, axisRatioZ=q)
        elif kind == "Disk":
            s = dict(type=kind, mass=M, scaleRadius=L, scaleHeight=L*float(rng.uniform(.05, .4))*rng.choice([1, -1]), sersicIndex=pick(rng, [1], .6, 2), innerCutoffRadius=pick(rng, [0], 0, L*.8))
        elif kind == "King": s = dict(type=kind, mass=M, scaleRadius=L, W0=float(rng.uniform(1, 8)), trunc=pick(rng, [0, 1], 0, 1.5))
        elif kind == "PerfectEllipsoid": s = dict(type=kind, mass=M, scaleRadius=L, axisRatioZ=q)
        if kind in ("Blobs", "PythonFn"):
            b = Blobs(rng, Blobs.SYM[rng.integers(6)], L); M = b.M; s = dict(blobs=b.P, sym=b.sym)
            den = agama.Density(*[dict(type="Plummer", mass=x[3], scaleRadius=x[4], center=list(x[:3])) for x in b.P]) if kind == "Blobs" else agama.Density(density=b.rho, symmetry=b.sym)
        else: den = None
        with c.case("densmass:" + kind, s):
            if den is None: den = agama.Density(**s)
            rr = np.sort(L*np.exp(rng.uniform(np.log(.05), np.log(30), 4))); me = den.enclosedMass(rr)
            MT = den.totalMass()
            if "densityNorm" not in s: c.close(MT, M, "totalmass:" + kind, 2e-2 if kind == "Disk" else 3e-3)
            if kind == "Disk":    # cylindrical geometry: integrate rho(r,theta) with nodes clustered towards the plane
                f = lambda r: 0
                u, w = glpanels([0, .02, .1, .3, 1], 16); lr, lw = glpanels(np.linspace(np.log(rr[0]), np.log(rr[-1]), 8), 8); r = np.exp(lr)
                X = np.zeros((len(r), len(u), 3)); X[..., 2] = r[:, None]*u; X[..., 0] = r[:, None]*np.sqrt(1-u*u)
                ref = np.sum(den.density(X.reshape(-1, 3)).reshape(len(r), len(u)) @ w * 4*pi * r**3 * lw)
            else: ref = massquad(den, rr[0], rr[-1], 48, 48)
            c.close(me[-1]-me[0], ref, "volume:" + kind, 3e-2 if kind == "King" else 8e-3, 1e-3*me[-1])
            c.ok(np.all(np.diff(me) >= -2e-3*me[-1]), "monotone:" + kind, "", info=list(me)); c.le(me, MT*(1.03 if kind == "Disk" else 1.003), "bounded:" + kind)
            c.close(den.enclosedMass(rr[2]), me[2], "scalar:" + kind, 1e-14)
            c.close(den.enclosedMass(L*1e4), MT, "limit:" + kind, 3e-2 if s.get("beta", 9) < 4 else 5e-2 if kind == "Disk" else 1e-2)
def los(f, m, X, R, n=14):
    """line-of-sight integral of f(x) over Z for each image point X (k,2); R = rotation matrix; composite rule in asinh(Z)"""
    L = m.L; out = []
    U = np.arcsinh(1e6)
    for p in np.atleast_2d(X):
        b = max(np.hypot(*p), 1e-3*L)
        lo = min(b, L)
        u, w = glpanels(np.linspace(-np.arcsinh(1e5*L/lo), np.arcsinh(1e5*L/lo), 60), n)
        Z = lo*np.sinh(u); w = w*lo*np.cosh(u)
        P = np.stack([np.full_like(Z, p[0]), np.full_like(Z, p[1]), Z], -1) @ R        # x = R^T X
        v = f(P); out.append((w[:, None]*v.reshape(len(Z), -1)).sum(0))
    return np.array(out)
def projection(c):
    rng = c.rng
    kinds = ["Plummer", "Isochrone", "NFW", "MiyamotoNagai", "PerfectEllipsoid", "Dehnen", "DehnenTriax", "Multipole", "MultipoleTriax", "CylSpline", "Composite", "Modified", "BlobsComposite", "Blobs"]
    for i in range(c.n(84)):
        kind = kinds[i % len(kinds)]
        m = randmodel(rng, "BlobsComposite" if kind == "Blobs" else kind)
        if kind == "Modified" and not (set(m.mod) & {"center", "orientation", "scale"}): continue
        if m.thin or kind == "Modified" and m.base.kind in ("Ferrers", "King"): continue   # compact sources: see the fixed case below
        ang = [float(v) for v in (rng.uniform(-4, 4), rng.uniform(0, 3.1), rng.uniform(-4, 4))]
        w = rng.integers(6)
        if w == 0: ang[1] = 0.
        if w == 1: ang[1] = pi/2
        if w == 2: ang = [0., 0., 0.]
        R = rotmat(*ang); pot = m.obj
        n = 3; X = m.L*np.exp(rng.uniform(np.log(.1), np.log(5), (n, 1)))*np.stack([np.cos(a := rng.uniform(0, 2*pi, n)), np.sin(a)], -1)
        with c.case("proj:" + kind, dict(spec=m.spec, angles=ang, X=X)):
            kw = dict(alpha=ang[0], beta=ang[1], gamma=ang[2])
            sd = pot.projectedDensity(X, **kw)
            ref = los(lambda P: pot.density(P), m, X, R)[:, 0]
            tol = 2e-3 if kind != "CylSpline" else 5e-2
            if kind == "Modified" and m.base.infmass or kind == "Logarithmic": tol = 1e-2
            if kind not in ("Modified",) or not m.infmass: c.close(sd, ref, "surfdens:" + kind, tol, 2e-4*abs(ref).max() + (1e-3*m.M/m.L**2 if kind == "CylSpline" else 0))
            per = np.array([pot.projectedDensity(x, **kw) for x in X]); c.close(per, sd, "surfdens-batch:" + kind, 1e-10)
            A = rng.uniform(-3, 3, (n, 3)); v = pot.projectedDensity(X, alpha=A[:, 0], beta=A[:, 1], gamma=A[:, 2])
            c.close(v, [pot.projectedDensity(X[k], alpha=A[k, 0], beta=A[k, 1], gamma=A[k, 2]) for k in range(n)], "surfdens-angles:" + kind, 1e-10)
            if m.infmass and kind != "NFW": raise vh_skip
            a, d = pot.projectedEval(X, acc=True, der=True, **kw)
            RT = R
            def fa(P): f = pot.force(P); return (f @ R.T)[:, :2]
            def fd(P):
                h = pot.eval(P, der=True); H = np.empty((len(P), 3, 3))
                H[:, 0, 0], H[:, 1, 1], H[:, 2, 2] = h[:, 0], h[:, 1], h[:, 2]; H[:, 0, 1] = H[:, 1, 0] = h[:, 3]; H[:, 1, 2] = H[:, 2, 1] = h[:, 4]; H[:, 0, 2] = H[:, 2, 0] = h[:, 5]
                G = np.einsum("ia,nab,jb->nij", R, H, R); return np.stack([G[:, 0, 0], G[:, 1, 1], G[:, 0, 1]], -1)
            ra, rd = los(fa, m, X, R), los(fd, m, X, R)
            sc = np.abs(ra).max(1)[:, None]; t2 = 5e-2 if kind == "CylSpline" else 5e-3 if kind in ("DehnenTriax", "Composite", "Modified") else 2e-3
            c.close(a, ra, "projacc:" + kind, 0, t2*sc)
            c.close(d, rd, "projder:" + kind, 0, t2*(np.abs(rd).max(1)[:, None] + sc/np.hypot(*X.T)[:, None]))
            a1 = pot.projectedEval(X, acc=True, **kw); c.close(a1, a, "projsubset:" + kind, 1e-3, 1e-3*sc)
            # divergence of the projected force = -4 pi G Sigma
            c.close(-(d[:, 0]+d[:, 1]), 4*pi*sd, "projpoisson:" + kind, 0, 3*t2*(np.abs(rd).max(1) + sc[:, 0]/np.hypot(*X.T)))
            if not m.cusp:
                p = pot.projectedEval(X, pot=True, **kw)
                # potential difference along a straight line in the image plane = integral of the projected force
                s, w = glint(0, 1, 20)
                for k in range(n):
                    pts = X[k]*s[:, None]; F = pot.projectedEval(pts, acc=True, **kw)
                    c.close(p[k], -np.sum(w*(F @ X[k])), "projpot:" + kind, 3e-3, 1e-3*sc[k, 0]*np.hypot(*X[k]))
    with c.case("compact-offset"):
        # a finite-size body displaced along the line of sight
        ref = agama.Density(type="Ferrers", axisRatioY=.8, axisRatioZ=.3, scaleRadius=1.).projectedDensity(.2, .1)
        c.close(agama.Density(type="Ferrers", axisRatioY=.8, axisRatioZ=.3, scaleRadius=1., center=[0, 0, 1.]).projectedDensity(.2, .1), ref, "surfdens-compact-offset", 1e-3)
    with c.case("spurious-convergence"):
        # the first two estimates of the adaptive quadrature coincide accidentally in an interval of R of relative width 2e-4
        a = 575.7529052599555; P = np.array([-297.88027876248424, 431.86572724995403]); d = agama.Density(type="Nuker", alpha=1.92625630283265, beta=4, gamma=.5, scaleRadius=a, mass=1)
        c.close(d.projectedDensity(P), .5*(d.projectedDensity(P*1.003)+d.projectedDensity(P*.997)), "surfdens-spurious-convergence", 1e-2)
try:
    import vh; vh_skip = vh.Skip()
except ImportError: pass
def derived(c):
    rng = c.rng
    kinds = ["Plummer", "Isochrone", "NFW", "MiyamotoNagai", "PerfectEllipsoid", "Dehnen", "Multipole", "MultipoleTriax", "King", "CylSpline", "Composite", "BlobsComposite", "Logarithmic", "DehnenTriax"]
    for i in range(c.n(112)):
        kind = kinds[i % len(kinds)]; m = randmodel(rng, kind); pot = m.obj
        if kind == "BlobsComposite":
            b = Blobs(rng, ["triaxial", "axisymmetric", "spherical"][i//len(kinds) % 3], m.L); m.obj = pot = agama.Potential(type="Multipole", potential=b.potential() if False else agama.Potential(potential=b.phi, symmetry=b.sym) , lmax=4, rmin=m.L*.01, rmax=m.L*100); m.spec = dict(blobs=b.P)
        ph = (np.arange(32)+.5)*2*pi/32; C = np.stack([np.cos(ph), np.sin(ph), 0*ph], -1)
        axi = m.axi and kind != "BlobsComposite"
        def Phi(R): return pot.potential(R*C).mean() if not axi else pot.potential(R, 0, 0)
        def dPhi(R): return -(pot.force(R*C)*C).sum(1).mean() if not axi else -pot.force(R, 0, 0)[0]
        with c.case("derived:" + kind, m.spec):
            R0 = m.L*np.exp(rng.uniform(np.log(.1), np.log(10), 4)); tol = 1e-4 if axi or kind == "Logarithmic" else 3e-3
            if kind == "Logarithmic": tol = 3e-3
            for R in R0:
                v2 = R*dPhi(R); E = Phi(R)+v2/2; L = R*np.sqrt(v2)
                c.close(pot.Rcirc(E=E), R, "rcircE:" + kind, tol); c.close(pot.Rcirc(L=L), R, "rcircL:" + kind, tol); c.close(pot.Rcirc(L=-L), R, "rcircL-:" + kind, tol)
                c.close(pot.Tcirc(E), 2*pi*R/np.sqrt(v2), "tcirc:" + kind, 2*tol)
                c.close(pot.Rmax(Phi(R)), R, "rmax:" + kind, tol)
                # peri/apocentre: choose R1<R2, the energy and momentum follow
                R2 = R*float(1+logu(rng, 1e-2, 30)); p1, p2 = Phi(R), Phi(R2)
                L2 = 2*(p2-p1)/(1/R**2-1/R2**2); E2 = p1 + L2/(2*R*R)
                r = pot.Rperiapo(E2, np.sqrt(L2)); s = (R2/R-1); te = tol*(1+.02/s)
                c.close(r, [R, R2], "rperiapo:" + kind, te); c.close(pot.Rperiapo(E2, -np.sqrt(L2)), r, "rperiapo-signL:" + kind, 1e-10)
                vt = np.sqrt(L2)/R
                if axi: c.close(pot.Rperiapo([R, 0, 0, 0, vt, 0]), [R, R2], "rperiapo-xv:" + kind, te); c.close(pot.Tcirc([R, 0, 0, 0, vt, 0]), pot.Tcirc(E2), "tcirc-xv:" + kind, 1e-6)
                rr = pot.Rperiapo(E, L*1.5); c.close(rr, [R, R], "rperiapo-largeL:" + kind, max(tol, 1e-4)) ; 
                r0 = pot.Rperiapo(E, 0); c.close(r0, [0, pot.Rmax(E)], "rperiapo-zeroL:" + kind, 3*tol, 1e-8*R)
            Es = np.array([Phi(R) for R in R0]); c.close(pot.Rmax(Es), [pot.Rmax(e) for e in Es], "batch:" + kind, 1e-13)
            c.ok(np.all(np.isnan(pot.Rmax(np.array([np.nan])))), "nan", "")
            if not m.infmass: c.ok(not pot.Rmax(.1) < 1e100*m.L, "unbound:" + kind, "Rmax of a positive energy: %s" % pot.Rmax(.1)); c.ok(not pot.Rperiapo(.1, .1)[1] < 1e100*m.L, "unbound2:" + kind, str(pot.Rperiapo(.1, .1)))
def axes(c):
    rng = c.rng
    for i in range(c.n(16)):
        L = logu(rng, .1, 10); p = float(rng.uniform(.6, .9)); q = p*float(rng.uniform(.5, .85)); g = float(rng.uniform(0, 1.2))
        ori = [float(v) for v in rng.uniform([-3, .2, -3], [3, 2.9, 3])]
        den = agama.Density(type="Spheroid", gamma=g, beta=float(rng.uniform(4, 5)), scaleRadius=L, axisRatioY=p, axisRatioZ=q); s = dict(p=p, q=q, gamma=g, L=L, ori=ori)
        with c.case("axes", s):
            for r in (L*logu(rng, .3, 5), np.inf):
                if r == np.inf: den1 = agama.Density(type="Spheroid", gamma=g, beta=4, scaleRadius=L, axisRatioY=p, axisRatioZ=q, outerCutoffRadius=5*L)
                else: den1 = den
                a, an = den1.principalAxes(r) if r != np.inf else den1.principalAxes()
                n = (p*q)**(1/3.); c.close(a, np.array([1, p, q])/n, "axesratio", 3e-3)
                tl = agama.Density(density=den1, orientation=ori); a, an = tl.principalAxes(r) if r != np.inf else tl.principalAxes()
                c.close(a, np.array([1, p, q])/n, "axesratio-tilted", 5e-3)
                A, B = rotmat(*an), rotmat(*ori)       # rows are axes; sign of each is free
                c.close(np.abs((A*B).sum(1)), 1, "axesdir", 0, 1e-3)
                c.close(np.linalg.det(A), 1, "axesdet", 1e-9); c.ok(0 <= an[1] <= pi/2+1e-9, "axesbeta", str(an))
            c.close(agama.Density(type="Plummer").principalAxes(1.)[0], 1, "axes-sph", 1e-12)
            a, an = agama.Density(type="Spheroid", alpha=2, beta=5, gamma=0, axisRatioZ=q).principalAxes([1., 2.]); c.close(a, np.tile(np.array([1, 1, q])/q**(1/3.), (2, 1)), "axes-axi", 3e-3)
            a, an = agama.Density(type="Spheroid", alpha=2, beta=5, gamma=0, axisRatioZ=1/q).principalAxes(1.); c.close(a, np.array([1/q, 1, 1])*q**(1/3.), "axes-prolate", 3e-3); c.close(abs(rotmat(*an)[0, 2]), 1, "axes-prolate-dir", 1e-3)
GROUPS = dict(interp=dict(cpp="c03_interp", args=["interp"], cost=20), phasevol=dict(cpp="c03_interp", args=["phasevol"], cost=10), symm=dict(cpp="c03_interp", args=["symm"], cost=10), poisson=dict(fn=poisson, cost=20), mass=dict(fn=mass, cost=30), densmass=dict(fn=densmass, cost=20), projection=dict(fn=projection, cost=30), derived=dict(fn=derived, cost=20), axes=dict(fn=axes, cost=10))
