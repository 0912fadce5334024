import os, numpy as np, scipy.special as sp, scipy.integrate as si, scipy.optimize as so
from common import *
RULE = ("random admissible parameters of every named model (both normalisations, axis ratios, special slopes) x random points: the reported density and/or potential is compared with the documented closed form evaluated independently; "
  "random misuses of parameters for rejections; a case is one model instance or one misuse")
ASSUMPTIONS = ["formulae are those of Table 1 of doc/reference.tex; models tabulated internally (Nuker, Sersic, King, DiskAnsatz+Multipole) are compared within the accuracy of the tabulation"]
def rt(x, p=1, q=1): return np.sqrt(x[:, 0]**2 + (x[:, 1]/p)**2 + (x[:, 2]/q)**2)
def Rc(x): return np.hypot(x[:, 0], x[:, 1])
def axes(rng): return (1. if rng.random() < .3 else logu(rng, .4, 2.2)), (1. if rng.random() < .2 else logu(rng, .2, 1.5))
def ml(rng): return logu(rng, 1e-3, 1e3), logu(rng, 1e-3, 1e3)
def vary(rng, s):
    """equivalent spellings: aliases, letter case"""
    al = dict(surfaceDensity="Sigma0", densityNorm="rho0", scaleRadius="rscale", scaleHeight="scaleRadius2", axisRatioY="p", axisRatioZ="q", cutoffStrength="xi")
    o = {}
    for k, v in s.items():
        if k in al and rng.random() < .4: k = al[k]
        if rng.random() < .3: k = k.upper()
        elif rng.random() < .3: k = k.lower()
        if isinstance(v, str) and k.lower() in ("type", "density"): v = v.upper() if rng.random() < .3 else v.lower() if rng.random() < .3 else v
        o[k] = v
    return o
def spheroid(rng):
    M, a = ml(rng); p, q = axes(rng)
    al, ga = pick(rng, [1, 2, .5, 4], .3, 5), pick(rng, [0, 1, 2, -1, 1.5, 2.5], -1, 2.7); cut = rng.random() < .5
    be = pick(rng, [4, 5, 3.5], max(3.1, ga+.1), 8) if not cut else pick(rng, [3, 4, 2, ga], ga, 6)
    be = max(be, ga)
    s = dict(type="Spheroid", alpha=al, beta=be, gamma=ga, scaleRadius=a, axisRatioY=p, axisRatioZ=q); rcut, xi = np.inf, 2.
    if cut:
        rcut = a*logu(rng, .3, 30); xi = pick(rng, [1, 2], .4, 4); s.update(outerCutoffRadius=rcut, cutoffStrength=xi)
    f = lambda r: (r/a)**-ga * (1 + (r/a)**al)**((ga-be)/al) * (np.exp(-(r/rcut)**xi) if cut else 1)
    lo, hi = np.log(a)-60/(3-ga), np.log(a)+(60/(be-3) if not cut else np.log(rcut/a)+np.log(200)/xi)
    lx, lw = glpanels(np.linspace(lo, hi, 60), 16); I = 4*pi*p*q*np.sum(f(np.exp(lx))*np.exp(3*lx)*lw) if cut else 0
    if not cut: I = 4*pi*p*q*a**3*np.exp(sp.gammaln((be-3)/al)+sp.gammaln((3-ga)/al)-sp.gammaln((be-ga)/al))/al
    if rng.random() < .5: s["mass"] = M; rho0 = M/I
    else: s["densityNorm"] = rho0 = M/a**3; M = rho0*I
    return s, (lambda x: rho0*f(rt(x, p, q))), M, a, 1e-5
def disk(rng):
    M, a = ml(rng); n = 1. if rng.random() < .5 else float(rng.uniform(.4, 3)); h = a*float(rng.uniform(.02, 1))*(1 if rng.random() < .5 else -1); rc = 0. if rng.random() < .5 else a*float(rng.uniform(.05, 2))
    s = dict(type="Disk", scaleRadius=a, scaleHeight=h, sersicIndex=n, innerCutoffRadius=rc)
    S = lambda R: np.exp(-(R/a)**(1/n) - (rc/R if rc > 0 else 0))
    x, w = glpanels(np.linspace(-30, np.log(80.)*n + 1, 60), 16); R = a*np.exp(x); I = 2*pi*np.sum(S(R)*R*R*w)
    if rng.random() < .5: s["mass"] = M; S0 = M/I
    else: s["surfaceDensity"] = S0 = M/a**2; M = S0*I
    v = (lambda z: np.exp(-abs(z/h))/(2*h)) if h > 0 else (lambda z: 1/(4*abs(h))/np.cosh(z/(2*h))**2)
    return s, (lambda x: S0*S(np.maximum(Rc(x), 1e-300))*v(x[:, 2])), M, a, 1e-5
def dehnen(rng):
    M, a = ml(rng); p, q = axes(rng); g = pick(rng, [0, 1, 2, 1.5, .5], 0, 2)
    s = dict(type="Dehnen", mass=M, gamma=g, scaleRadius=a, axisRatioY=p, axisRatioZ=q)
    return s, (lambda x: M*(3-g)/(4*pi*p*q*a**3)*(rt(x, p, q)/a)**-g*(1+rt(x, p, q)/a)**(g-4)), M, a, 1e-6
def ferrers(rng):
    M, a = ml(rng); p = float(rng.uniform(.3, .97)); q = p*float(rng.uniform(.2, .97))
    s = dict(type="Ferrers", mass=M, scaleRadius=a, axisRatioY=p, axisRatioZ=q)
    return s, (lambda x: 105*M/(32*pi*p*q*a**3)*np.maximum(0, 1-(rt(x, p, q)/a)**2)**2), M, a, 1e-6
def perfell(rng):
    M, a = ml(rng); q = float(rng.uniform(.1, .97))
    s = dict(type="PerfectEllipsoid", mass=M, scaleRadius=a, axisRatioZ=q)
    return s, (lambda x: M/(pi**2*q*a**3)*(1+(Rc(x)**2+(x[:, 2]/q)**2)/a**2)**-2), M, a, 1e-6
def plummer(rng):
    M, a = ml(rng); return dict(type="Plummer", mass=M, scaleRadius=a), (lambda x: 3*M/(4*pi*a**3)*(1+rt(x)**2/a**2)**-2.5), M, a, 1e-9
def nfw(rng):
    M, a = ml(rng); return dict(type="NFW", mass=M, scaleRadius=a), (lambda x: M/(4*pi*a**3)/(rt(x)/a)/(1+rt(x)/a)**2), np.inf, a, 1e-6
def isochrone(rng):
    M, a = ml(rng)
    def rho(x):
        r = rt(x); b = np.sqrt(a*a+r*r); return M*(3*(a+b)*b*b - r*r*(a+3*b))/(4*pi*(a+b)**3*b**3)
    return dict(type="Isochrone", mass=M, scaleRadius=a), rho, M, a, 1e-6
def mn(rng):
    M, a = ml(rng); b = a*logu(rng, .05, 5)
    def rho(x):
        R, z = Rc(x), x[:, 2]; u = np.sqrt(z*z+b*b)
        return b*b*M/(4*pi)*(a*R*R+(a+3*u)*(a+u)**2)/((R*R+(a+u)**2)**2.5*u**3)
    return dict(type="MiyamotoNagai", mass=M, scaleRadius=a, scaleHeight=b), rho, M, a, 1e-6
DENS = [spheroid, spheroid, spheroid, disk, disk, dehnen, ferrers, perfell, plummer, nfw, isochrone, mn]
def density(c):
    rng = c.rng
    for i in range(c.n(300)):
        fn = DENS[i % len(DENS)]; s, f, M, a, tol = fn(rng); name = s["type"]
        with c.case("density:" + name, s):
            d = agama.Density(**vary(rng, s)); x = points(rng, 40, a*1e-2, a*30); ref = f(x); val = d.density(x)
            peak = abs(ref).max()
            if name == "Disk" and s["sersicIndex"] != 1 and s["innerCutoffRadius"] > 0 and "mass" in s: tol = 5e-3   # normalisation by a fixed-order quadrature
            if name == "Spheroid": tol = 2e-4
            c.close(val, ref, "density:" + name, tol, 1e-250 if name != "Ferrers" else 1e-9*peak)
            if np.isfinite(M): c.close(d.totalMass(), M, "mass:" + name, 2e-2 if name == "Spheroid" else (2e-2 if tol == 5e-3 else 8e-3) if name == "Disk" else 2e-4)
            if name not in ("Spheroid", "Disk", "Ferrers", "Dehnen"):
                # the same formula through the potential class (analytic Laplacian)
                pt = agama.Potential(**vary(rng, s)); h = pt.eval(x, der=True); sc = abs(h[:, :3]).max(1)
                c.close(-h[:, :3].sum(1)/(4*pi), ref, "laplacian:" + name, tol, 1e-9*sc)
        c.event("density-models")
def deproj(c):
    rng = c.rng
    for i in range(c.n(96)):
        sersic = i % 2 == 0; M, a = ml(rng); p, q = axes(rng) if i % 4 < 2 else (1., 1.); p = (1., logu(rng, 1.1, 2), p)[i//4 % 3] if i % 4 < 2 else p
        if sersic:
            n = pick(rng, [1, 4, 2], .7, 6); b = sp.gammaincinv(2*n, .5); s = dict(type="Sersic", scaleRadius=a, axisRatioY=p, axisRatioZ=q)
            if n != 4 or rng.random() < .5: s["sersicIndex"] = n
            f = lambda R: np.exp(-b*(R/a)**(1/n)); lo, hi, tol = .1, min(5., 3.*n), 4e-3
        else:
            al, be, ga = pick(rng, [1, 2], .6, 4), pick(rng, [3, 4], 2.3, 6), pick(rng, [0, .5], 0, 1.6); cut = rng.random() < .4
            s = dict(type="Nuker", alpha=al, beta=be, gamma=ga, scaleRadius=a, axisRatioY=p, axisRatioZ=q); rcut, xi = np.inf, 2.
            if cut: rcut, xi = a*logu(rng, 1, 20), float(rng.uniform(1, 3)); s.update(outerCutoffRadius=rcut, cutoffStrength=xi)
            f = lambda R: (R/a)**-ga*(.5+.5*(R/a)**al)**((ga-be)/al)*(np.exp(-(R/rcut)**xi) if cut else 1); lo, hi, tol = .1, 10. if not cut else min(10, 1.2*rcut/a), 4e-3
        x, w = glpanels(np.linspace(-60., 45., 200), 16); R = a*np.exp(x)
        with np.errstate(all="ignore"): v = f(R)*R*R; v[~np.isfinite(v)] = 0
        I = 2*pi*np.sum(v*w)*p*q
        if rng.random() < .5: s["mass"] = M; S0 = M/I
        else: s["surfaceDensity"] = S0 = M/a**2; M = S0*I
        with c.case("deproj:" + s["type"], s):
            d = agama.Density(**vary(rng, s)); c.close(d.totalMass(), M, "mass:" + s["type"], 3e-2)
            # the density must be a function of the ellipsoidal radius whose projection is Sigma: independent line-of-sight integral on the major axis
            rr = a*np.exp(rng.uniform(np.log(lo), np.log(hi), 6))
            u, uw = glpanels(np.linspace(-12, 9, 60), 10)
            for R in rr:
                z = R*np.exp(u); r = np.hypot(R, z); xs = np.zeros((len(r), 3)); xs[:, 0] = r
                c.close(2*np.sum(d.density(xs)*z*uw), S0*f(R), "projection:" + s["type"], tol if sersic or not cut else 1e-2)
            X = points(rng, 30, lo*a, hi*a); xs = np.zeros((30, 3)); xs[:, 0] = rt(X, p, q)
            c.close(d.density(X), d.density(xs), "ellipsoidal:" + s["type"], 1e-9, 1e-300)
            # face-on projection by the library equals q * Sigma(ellipse radius)
            Y = rng.uniform(-2, 2, (6, 2))*a; Rr = np.hypot(Y[:, 0], Y[:, 1]/p)
            g = Rr < hi*a; Yg = Y[g]; ref = lambda e: q*S0*f(np.maximum(Rr[g]*e, 1e-9*a))
            # an isolated spurious convergence of the quadrature (known finding of C03) is tolerated: repeat slightly off
            rel = np.min([abs(d.projectedDensity(Yg*e)/ref(e)-1) for e in (1, 1.003, 1.011)], axis=0) if g.any() else np.zeros(1)
            c.ok(np.all(rel < 1e-2), "faceon:" + s["type"], "relative deviation %g" % rel.max())
def phi_plummer(s, x): return -s["mass"]/np.sqrt(s["scaleRadius"]**2+rt(x)**2)
def ellipsoid_phi(rhofun, a, b, cc, x, rmax):
    """Chandrasekhar's formula: Phi = -pi a2 a3/a1 * int_0^inf [psi(inf)-psi(m(tau))] dtau / Delta"""
    # psi(m)=int_0^{m^2} rho dm^2
    t, tw = glpanels(np.linspace(-24, 54, 90), 12)
    def psi_out(m2):   # int_{m2}^{inf} rho(m') d m'^2
        o = np.zeros_like(m2)
        for k, v in enumerate(m2):
            top = np.log(rmax**2) if np.isfinite(rmax) else max(np.log(v), 2*np.log(a))+30
            if np.log(v) >= top: continue
            y, w = glpanels(np.linspace(np.log(v), top, int(8+(top-np.log(v))/2.5)), 12); o[k] = np.sum(rhofun(np.exp(y/2))*np.exp(y)*w)
        return o
    res = []
    for X in x:
        s0 = (X**2).sum(); tau = s0*np.exp(t); m2 = a*a*(X[0]**2/(a*a+tau)+X[1]**2/(b*b+tau)+X[2]**2/(cc*cc+tau))
        res.append(-pi*b*cc/a*np.sum(psi_out(m2)/np.sqrt((a*a+tau)*(b*b+tau)*(cc*cc+tau))*tau*tw))
    return np.array(res)
def potential(c):
    rng = c.rng
    names = ["Plummer", "Isochrone", "NFW", "MiyamotoNagai", "Logarithmic", "Harmonic", "Dehnen", "DehnenTriax", "Ferrers", "PerfectEllipsoid", "UniformAcceleration"]
    for i in range(c.n(132)):
        name = names[i % len(names)]; M, a = ml(rng); x = points(rng, 12 if name in ("DehnenTriax", "Ferrers", "PerfectEllipsoid") else 40, a*1e-2, a*1e2); r = rt(x); R = Rc(x); z = x[:, 2]; tol = 1e-10; s = dict(type=name, mass=M, scaleRadius=a)
        n3 = 4; add = 0
        if name == "Plummer": ref = -M/np.hypot(a, r)
        elif name == "Isochrone": ref = -M/(a+np.hypot(a, r))
        elif name == "NFW": ref = -M/r*np.log1p(r/a)
        elif name == "MiyamotoNagai": b = a*logu(rng, .01, 10); s["scaleHeight"] = b; ref = -M/np.sqrt(R**2+(a+np.hypot(z, b))**2)
        elif name == "Logarithmic":
            p, q = logu(rng, .75, 1.3), logu(rng, .75, 1.3); v0 = logu(rng, .01, 100); del s["mass"]; s.update(v0=v0, axisRatioY=p, axisRatioZ=q); ref = .5*v0**2*np.log(a*a+rt(x, p, q)**2); add = 1e-10*v0**2
        elif name == "Harmonic":
            p, q = logu(rng, .5, 2), logu(rng, .5, 2); Om = logu(rng, .01, 100); s = dict(type=name, Omega=Om, axisRatioY=p, axisRatioZ=q); ref = .5*Om**2*rt(x, p, q)**2
        elif name == "Dehnen":
            g = pick(rng, [0, 1, 2, 1.5, .5], 0, 1.95); s["gamma"] = g
            ref = M/a*np.log(r/(r+a)) if g == 2 else -M/a/(2-g)*(1-(r/(r+a))**(2-g)); tol = 1e-8 if g == 2 or abs(2-g) > .2 else 1e-7
        elif name == "UniformAcceleration":
            tt = np.cumsum(rng.uniform(.5, 2, 5)); A = rng.normal(size=(5, 3)); A = np.cumsum(abs(A), axis=0)*np.sign(A[0]) if rng.random() < .6 else A; s = dict(type=name, file=np.column_stack((tt, A)).tolist()); ref = None
        elif name == "PerfectEllipsoid":
            q = float(rng.uniform(.1, .95)); s["axisRatioZ"] = q; ref = ellipsoid_phi(lambda m: M/(pi**2*q*a**3)*(1+m*m/a/a)**-2, a, a, a*q, x[:n3], np.inf); tol = 1e-6
        elif name == "DehnenTriax":
            p, q, g = float(rng.uniform(.5, .95)), float(rng.uniform(.4, .95)), pick(rng, [0, 1], 0, 1.8); s.update(type="Dehnen", gamma=g, axisRatioY=p, axisRatioZ=q)
            ref = ellipsoid_phi(lambda m: M*(3-g)/(4*pi*p*q*a**3)*(m/a)**-g*(1+m/a)**(g-4), a, a*p, a*q, x[:n3], np.inf); tol = 1e-3
        elif name == "Ferrers":
            p = float(rng.uniform(.3, .95)); q = p*float(rng.uniform(.3, .95)); s.update(axisRatioY=p, axisRatioZ=q); x[:n3] *= rng.uniform(.1, 8, n3)[:, None]*a/r[:n3, None]
            ref = ellipsoid_phi(lambda m: 105*M/(32*pi*p*q*a**3)*np.maximum(0, 1-(m/a)**2)**2, a, a*p, a*q, x[:n3], a); tol = 1e-4
        with c.case("potential:" + name, s):
            o = agama.Potential(**vary(rng, s)) if name != "UniformAcceleration" else agama.Potential(**s)
            if name == "UniformAcceleration":
                for t, aa in zip(tt, A):
                    c.close(o.potential(x, t=t), -(x @ aa), "potential:" + name, 1e-9, 1e-9*r*np.abs(aa).max()); c.close(o.force(x, t=t), np.tile(aa, (len(x), 1)), "force:" + name, 1e-9, 1e-12)
                # linear extrapolation beyond the end points, monotone between (regularised spline does not overshoot)
                d = rng.uniform(.1, 3); f0, f1, f2 = (o.force([0, 0, 0], t=tt[-1]+k*d) for k in (0, 1, 2)); c.close(f2-f1, f1-f0, "extrap:" + name, 1e-8, 1e-9*abs(A).max())
                f0, f1, f2 = (o.force([0, 0, 0], t=tt[0]-k*d) for k in (0, 1, 2)); c.close(f2-f1, f1-f0, "extrap:" + name, 1e-8, 1e-9*abs(A).max())
                for k in range(4) if np.all(np.diff(abs(A), axis=0) > 0) else ():   # monotonic input stays monotonic
                    F = np.array([o.force([0, 0, 0], t=t) for t in np.linspace(tt[k], tt[k+1], 9)]); lo, hi = np.minimum(A[k], A[k+1]), np.maximum(A[k], A[k+1]); e = 1e-9*abs(A).max()
                    c.ok(np.all(F >= lo-e) and np.all(F <= hi+e), "overshoot:" + name, "regularised spline overshoots")
            else:
                xx = x[:len(ref)]; c.close(o.potential(xx), ref, "potential:" + name, tol, add)
    # single mass points
    for i in range(c.n(20)):
        M = logu(rng, 1e-3, 1e3); x = points(rng, 20, 1e-3, 1e3); r = rt(x)
        with c.case("potential:point", dict(M=M)):
            c.close(agama.Potential(type="Plummer", mass=M, scaleRadius=0).potential(x), -M/r, "point:Plummer", 1e-12)
            c.close(agama.Potential(type="KeplerBinary", mass=M).eval(x, acc=True), -M*x/r[:, None]**3, "point:KeplerBinary", 1e-11)
def kepler(c):
    rng = c.rng
    for i in range(c.n(60)):
        m, a = ml(rng); q = pick(rng, [0, 1], 0, 3); e = pick(rng, [0, .5], 0, .97); ph = float(rng.uniform(-7, 7)); s = dict(type="KeplerBinary", mass=m, binary_q=q, binary_sma=a, binary_ecc=e, binary_phase=ph)
        if rng.random() < .3: s["center"] = [float(v) for v in a*rng.normal(size=3)]
        with c.case("kepler", s):
            o = agama.Potential(**vary(rng, s)); Om = np.sqrt(m/a**3)
            for t in rng.uniform(-50, 50, 8)/Om:
                Mn = Om*t+ph; eta = so.brentq(lambda E: E-e*np.sin(E)-Mn, Mn-1.1, Mn+1.1, xtol=1e-14)
                x1 = a*q/(1+q)*np.array([np.cos(eta)-e, np.sqrt(1-e*e)*np.sin(eta), 0]); x2 = -x1/q if q > 0 else 0*x1
                if q == 0: x1, x2, m1, m2 = 0*x1, None, m, 0
                else: m1, m2 = m/(1+q), m*q/(1+q)
                ce = np.array(s.get("center", [0, 0, 0])); X = points(rng, 12, a*.02, a*30)
                dd = np.linalg.norm(X-x1, axis=1); ref = -m1/dd; acc = -m1*(X-x1)/dd[:, None]**3
                if m2: d2 = np.linalg.norm(X-x2, axis=1); ref = ref-m2/d2; acc = acc-m2*(X-x2)/d2[:, None]**3; dd = np.minimum(dd, d2)
                pv, av = o.eval(X+ce, pot=True, acc=True, t=t); g = dd > 1e-3*a; lo = 1e-8*a*(1+abs(np.array(s.get("center", [0]))).max()/a)/dd
                c.close(pv[g], ref[g], "kepler:pot", 1e-8, lo[g]*abs(ref[g])); c.close(av[g], acc[g], "kepler:acc", 1e-8, (3*lo*np.linalg.norm(acc, axis=1))[g, None])
def king(c):
    rng = c.rng
    for i in range(c.n(20)):
        M, a = ml(rng); W0, g = pick(rng, [3, 6], .5, 10), pick(rng, [0, 1, 2], 0, 2.5); s = dict(type="King", mass=M, scaleRadius=a, W0=W0)
        if g != 1 or rng.random() < .5: s["trunc"] = g
        with c.case("king", s):
            # Gieles & Zocchi 2015: rho ~ e^phi gammainc_lower(g+3/2, phi)/Gamma(g+3/2), phi'' + 2/r phi' = -9 rho/rho0 (r in King radii)
            rho = lambda f: np.exp(f)*sp.gammainc(g+1.5, f) if f > 0 else 0.; r0 = rho(W0)
            ev = lambda t, y: y[0]; ev.terminal = True
            # near the truncation the density is cut off
            sol = si.solve_ivp(lambda t, y: [y[1], -9*rho(y[0])/r0-(2/t*y[1] if t > 0 else 0)], (1e-6, 1e4), [W0-1.5e-12, -3e-6], events=ev, rtol=1e-10, atol=1e-12, dense_output=True, method="DOP853")
            if not len(sol.t_events[0]): raise vh_skip()
            rtr = sol.t_events[0][0]; Mt = -sol.y_events[0][0][1]*rtr**2/9   # = int rho/rho0 r^2 dr
            d = agama.Density(**vary(rng, s)); pt = agama.Potential(**s)
            rr = np.exp(rng.uniform(np.log(.03), np.log(rtr*.97), 15)); xs = dirs(rng, 15)*rr[:, None]*a
            c0 = M/(4*pi*a**3*Mt); ref = c0*np.array([rho(sol.sol(r)[0]) for r in rr])/r0
            tol = 8e-3 + .08*(rr/rtr)**4
            c.close(d.density(xs), ref, "king:density", 0, tol*ref+1e-5*c0*rho(W0/3)/r0*0+1e-8*c0)
            Menc = M*np.array([-sol.sol(r)[1]*r**2 for r in rr])/(9*Mt); c.close(pt.enclosedMass(rr*a), Menc, "king:enclosedMass", 2e-3)
            # potential depth: W0 = [Phi(rt)-Phi(0)]/sigma^2 with sigma^2 = M/(9 Mt a)
            s2 = M/(9*Mt*a)
            ph = pt.potential(np.vstack([[0, 0, 0], xs])); c.close(ph[1:]-ph[0], s2*np.array([W0-sol.sol(r)[0] for r in rr]), "king:potential", 2e-3, 1e-4*s2*W0)
            c.close(ph[0], -M/(rtr*a)-s2*W0, "king:phi0", 1e-3)
            far = points(rng, 8, rtr*a*1.01, rtr*a*100); c.close(d.density(far), 0*far[:, 0], "king:outside", 0, 1e-6*c0); c.close(pt.potential(far), -M/rt(far), "king:farpot", 2e-4)
def vh_skip():
    import vh; return vh.Skip("no truncation")
def galpot(c):
    rng = c.rng
    for i in range(c.n(8)):
        comps, fs, Mt = [], [], 0
        a0 = logu(rng, .1, 10); kinds = [int(k) for k in rng.integers(0, 4, rng.integers(1, 4))]
        for k in kinds:
            if k < 2:
                M, a = logu(rng, .3, 3), a0*logu(rng, .5, 2); h = a*float(rng.uniform(.08, .3))*(1 if rng.random() < .5 else -1); s = dict(type="Disk", mass=M, scaleRadius=a, scaleHeight=h)
            elif k == 2: s = dict(type="Spheroid", mass=logu(rng, .3, 3), scaleRadius=a0*logu(rng, .5, 2), gamma=float(rng.uniform(0, 1.2)), beta=4., axisRatioZ=float(rng.uniform(.5, 1)))
            else: s = dict(type="Sersic", mass=logu(rng, .3, 3), scaleRadius=a0*logu(rng, .5, 2), sersicIndex=float(rng.uniform(1, 4)), axisRatioZ=float(rng.uniform(.6, 1)))
            comps.append(s); Mt += s["mass"]
        with c.case("galpot", dict(c=comps)):
            pt = agama.Potential(*[dict(s) for s in comps]); dn = agama.Density(*[agama.Density(**s) for s in comps])
            # reference: the same density through a different solver (high-order Multipole of the composite with a fine grid or CylSpline for discs)
            disk = any(s["type"] == "Disk" for s in comps)
            ref = agama.Potential(type="CylSpline", density=dn, mmax=0, gridSizeR=40, gridSizeZ=40, Rmin=.01*a0, Rmax=100*a0, zmin=.005*a0, zmax=100*a0)
            x = points(rng, 40, a0*.3, a0*15, 0); f, g = pt.force(x), ref.force(x)
            c.close(f, g, "galpot:force", 0, 2e-2*np.linalg.norm(g, axis=1)[:, None])
            c.close(pt.potential(x), ref.potential(x), "galpot:potential", 1e-2)
            c.close(pt.enclosedMass([30*a0, 300*a0]), dn.enclosedMass([30*a0, 300*a0]), "galpot:mass", 2e-2)
            one = [agama.Potential(**s) for s in comps]
            c.close(sum(o.force(x) for o in one), f, "galpot:sum", 0, 1.5e-2*np.linalg.norm(g, axis=1)[:, None])
DEF = dict(mass=1., scaleRadius=1., scaleHeight=1., innerCutoffRadius=0., alpha=1., beta=4., gamma=1., axisRatioY=1., axisRatioZ=1., cutoffStrength=2., Omega=1., v0=1., binary_q=0., binary_sma=0., binary_ecc=0., binary_phase=0., trunc=1.)
PAR = dict(Disk=["mass", "scaleRadius", "scaleHeight", "innerCutoffRadius", ("sersicIndex", 1.)],
    Spheroid=["mass", "alpha", "beta", "gamma", "scaleRadius", "axisRatioY", "axisRatioZ", "outerCutoffRadius", "cutoffStrength"],
    Nuker=["mass", "alpha", "beta", "gamma", "scaleRadius", "axisRatioY", "axisRatioZ", "outerCutoffRadius", "cutoffStrength"],
    Sersic=["mass", "scaleRadius", ("sersicIndex", 4.), "axisRatioY", "axisRatioZ"], Plummer=["mass", "scaleRadius"], Isochrone=["mass", "scaleRadius"], NFW=["mass", "scaleRadius"],
    MiyamotoNagai=["mass", "scaleRadius", "scaleHeight"], Dehnen=["mass", "gamma", "scaleRadius", "axisRatioY", "axisRatioZ"], King=["mass", "scaleRadius", "trunc"],
    Logarithmic=["v0", "axisRatioY", "axisRatioZ"], Harmonic=["Omega", "axisRatioY", "axisRatioZ"], KeplerBinary=["mass", "binary_q", "binary_ecc", "binary_phase"],
    PerfectEllipsoid=["mass", "scaleRadius"], Ferrers=["mass", "scaleRadius"])
REQ = dict(King=dict(W0=5), PerfectEllipsoid=dict(axisRatioZ=.6), Ferrers=dict(axisRatioY=.8, axisRatioZ=.5), Logarithmic=dict(scaleRadius=.5), KeplerBinary=dict(binary_sma=1.3))
ALLP = ["mass", "scaleRadius", "scaleHeight", "innerCutoffRadius", "outerCutoffRadius", "alpha", "beta", "gamma", "axisRatioY", "axisRatioZ", "cutoffStrength", "Omega", "v0", "binary_q", "binary_sma", "binary_ecc", "binary_phase", "trunc", "W0", "sersicIndex", "surfaceDensity", "densityNorm", "nmax", "eta", "r0", "gridSizeR", "gridSizeZ", "rmin", "zmax", "lmax"]
EXTRA = dict(Disk=["surfaceDensity"], Nuker=["surfaceDensity"], Sersic=["surfaceDensity"], Spheroid=["densityNorm"], King=["W0"], Logarithmic=["scaleRadius"], KeplerBinary=["binary_sma"], PerfectEllipsoid=["axisRatioZ"], Ferrers=["axisRatioY", "axisRatioZ"])
def params(c):
    rng = c.rng
    x = points(rng, 12, .1, 5, 0)
    def ev(o, pot): return o.eval(x, pot=True, acc=True, t=.7)[1] if pot else o.density(x)
    for name in PAR:
        pot = name not in ("Disk", "Spheroid", "Nuker", "Sersic"); K = agama.Potential if pot else agama.Density
        req = REQ.get(name, {}); ref = ev(K(type=name, **req), pot)
        for p in PAR[name]:
            k, v = p if isinstance(p, tuple) else (p, DEF.get(p, np.inf))
            if k == "outerCutoffRadius": continue
            with c.case("default:%s:%s" % (name, k), {}):
                c.close(ev(K(type=name, **req, **{k: v}), pot), ref, "default:%s:%s" % (name, k), 1e-12)
                if k not in ("binary_phase",) :
                    pass
        allowed = [p if isinstance(p, str) else p[0] for p in PAR[name]] + EXTRA.get(name, [])
        for k in ALLP:
            if k in allowed or (k == "lmax" and not pot): continue
            with c.case("notallowed:%s:%s" % (name, k), {}): c.raises(lambda: K(type=name, **req, **{k: .9}), "notallowed:%s:%s" % (name, k))
        with c.case("unknown:" + name, {}):
            for k in ("foo", "massx", "scale_radius", "gama"): c.raises(lambda: K(type=name, **req, **{k: 1}), "unknown:%s:%s" % (name, k))
            c.raises(lambda: K(type=name+"x", **req), "unknown-type:" + name); c.raises(lambda: K(type="", **req), "empty-type:" + name)
            c.raises(lambda: K(**req), "no-type:" + name)
            for k, al in (("scaleRadius", "rscale"), ("axisRatioZ", "q"), ("scaleHeight", "scaleRadius2")):
                if k in allowed: c.raises(lambda: K(type=name, **{**req, k: .8, al: .8}), "duplicate:%s:%s" % (name, k))
    bad = [("Density", dict(type="Spheroid", scaleRadius=0)), ("Density", dict(type="Spheroid", scaleRadius=-1)), ("Density", dict(type="Spheroid", gamma=3)), ("Density", dict(type="Spheroid", gamma=3.5)), ("Density", dict(type="Spheroid", alpha=0)), ("Density", dict(type="Spheroid", alpha=-1)),
        ("Density", dict(type="Spheroid", beta=2, densityNorm=1)), ("Density", dict(type="Spheroid", beta=1.5, densityNorm=1)), ("Density", dict(type="Spheroid", beta=3)), ("Density", dict(type="Spheroid", beta=2.8, mass=1)), ("Density", dict(type="Spheroid", axisRatioY=0)), ("Density", dict(type="Spheroid", axisRatioZ=-.5)),
        ("Density", dict(type="Spheroid", mass=1, densityNorm=1)), ("Density", dict(type="Spheroid", outerCutoffRadius=-1)), ("Density", dict(type="Spheroid", outerCutoffRadius=1, cutoffStrength=0)), ("Density", dict(type="Spheroid", outerCutoffRadius=1, cutoffStrength=-2)), ("Density", dict(type="Spheroid", mass="abc")), ("Density", dict(type="Spheroid", mass="")),
        ("Density", dict(type="Nuker", gamma=2)), ("Density", dict(type="Nuker", gamma=-.1)), ("Density", dict(type="Nuker", beta=2)), ("Density", dict(type="Nuker", alpha=0)), ("Density", dict(type="Nuker", mass=1, surfaceDensity=1)), ("Density", dict(type="Nuker", scaleRadius=-1)), ("Density", dict(type="Nuker", axisRatioY=-1)), ("Density", dict(type="Nuker", outerCutoffRadius=-1)),
        ("Density", dict(type="Sersic", sersicIndex=.3)), ("Density", dict(type="Sersic", sersicIndex=-1)), ("Density", dict(type="Sersic", scaleRadius=0)), ("Density", dict(type="Sersic", axisRatioZ=0)), ("Density", dict(type="Sersic", mass=1, surfaceDensity=1)),
        ("Density", dict(type="Disk", scaleRadius=0)), ("Density", dict(type="Disk", scaleRadius=-1)), ("Density", dict(type="Disk", innerCutoffRadius=-1)), ("Density", dict(type="Disk", sersicIndex=0)), ("Density", dict(type="Disk", sersicIndex=-1)), ("Density", dict(type="Disk", mass=1, surfaceDensity=1)), ("Density", dict(type="Disk", axisRatioZ=.5)),
        ("Potential", dict(type="Dehnen", gamma=2.1)), ("Potential", dict(type="Dehnen", gamma=-.1)), ("Potential", dict(type="Dehnen", scaleRadius=0)), ("Potential", dict(type="Dehnen", scaleRadius=-1)),
        ("Potential", dict(type="Ferrers", axisRatioY=1, axisRatioZ=.5)), ("Potential", dict(type="Ferrers", axisRatioY=.5, axisRatioZ=.6)), ("Potential", dict(type="Ferrers", axisRatioY=.5, axisRatioZ=0)), ("Potential", dict(type="Ferrers", axisRatioY=.5, axisRatioZ=.3, scaleRadius=0)), ("Potential", dict(type="Ferrers", axisRatioY=.5, axisRatioZ=.3, scaleRadius=-1)), ("Potential", dict(type="Ferrers")),
        ("Potential", dict(type="PerfectEllipsoid", axisRatioZ=0)), ("Potential", dict(type="PerfectEllipsoid", axisRatioZ=-.5)), ("Potential", dict(type="PerfectEllipsoid", axisRatioZ=.5, axisRatioY=.8)),
        ("Potential", dict(type="King", W0=0)), ("Potential", dict(type="King", W0=-1)), ("Potential", dict(type="King")), ("Potential", dict(type="King", W0=3, trunc=-.1)), ("Potential", dict(type="King", W0=3, trunc=3.6)), ("Potential", dict(type="King", W0=3, mass=0)), ("Potential", dict(type="King", W0=3, scaleRadius=0)),
        ("Potential", dict(type="Plummer", axisRatioZ=.5)), ("Potential", dict(type="NFW", q=.5)), ("Potential", dict(type="Isochrone", p=.5)), ("Potential", dict(type="Multipole")), ("Potential", dict(type="Multipole", density="NoSuch")), ("Potential", dict(type="Multipole", density="Plummer", lmax=-1)),
        ("Potential", dict(type="KeplerBinary", binary_sma=1, binary_q=1, binary_ecc=1.5)), ("Potential", dict(type="KeplerBinary", binary_sma=1, binary_q=1, binary_ecc=-.5)), ("Potential", dict(type="KeplerBinary", binary_sma=-1, binary_q=1)), ("Potential", dict(type="KeplerBinary", binary_sma=1, binary_q=-1)),
        ("Potential", dict(type="UniformAcceleration")), ("Potential", dict(type="UniformAcceleration", file="/nonexistent/file")), ("Potential", dict(type="Plummer", center=[1, 2])), ("Potential", dict(type="Plummer", orientation=[1, 2])), ("Potential", dict(type="Plummer", orientation="a,b,c")), ("Potential", dict(type="Multipole", density="Plummer", symmetry="s")), ("Potential", dict(type="Plummer", file="abc")),
        ("Potential", dict(type="Multipole", density="Plummer", symmetry="x"))]
    bad += [("Potential", dict(type=t, **{k: v})) for t, k, v in (("NFW", "scaleRadius", 0), ("NFW", "scaleRadius", -1), ("Plummer", "scaleRadius", -1), ("Isochrone", "scaleRadius", -1), ("MiyamotoNagai", "scaleRadius", -1), ("MiyamotoNagai", "scaleHeight", -1), ("Logarithmic", "axisRatioZ", 0),
        ("Logarithmic", "axisRatioY", -1), ("Harmonic", "axisRatioZ", 0), ("Harmonic", "axisRatioY", -1), ("Dehnen", "axisRatioZ", 0), ("Dehnen", "axisRatioY", -.5))]
    for k, s in bad:
        key = "rejected:%s:%s" % (k, ",".join("%s=%s" % (a, b) for a, b in s.items()))
        with c.case(key, s): c.raises(lambda: getattr(agama, k)(**s), key)
    # the recipe for the Einasto profile given in the documentation
    for i in range(c.n(10)):
        M, rh, n = logu(rng, .01, 100), logu(rng, .01, 100), pick(rng, [4, 1], .6, 8)
        with c.case("einasto", dict(M=M, rh=rh, n=n)):
            cn = sp.gammaincinv(3*n, .5); rc = rh/cn**n
            d = agama.Density(type="Spheroid", gamma=0, beta=0, alpha=1, cutoffStrength=1/n, outerCutoffRadius=rc, scaleRadius=rh, densityNorm=3*M/(4*pi*rc**3*sp.gamma(3*n+1)))
            c.close(d.totalMass(), M, "einasto:mass", 1e-4); c.close(d.enclosedMass(rh), M/2, "einasto:half", 1e-3)
    # expansion parameters: case-insensitive, defaults
    den = agama.Density(type="Spheroid", axisRatioZ=.6, axisRatioY=.8, gamma=.5, beta=5.); X = points(rng, 30, .05, 20, 0)
    for typ, dflt in (("Multipole", dict(lmax=6, mmax=6, gridSizeR=25)), ("BasisSet", dict(lmax=6, mmax=6, nmax=12, eta=1.)), ("CylSpline", dict(mmax=6, gridSizeR=25, gridSizeZ=25))):
        ref = agama.Potential(type=typ, density=den).potential(X)
        for k, v in dflt.items():
            with c.case("expdefault:%s:%s" % (typ, k), {}): c.close(agama.Potential(type=typ.upper(), DENSITY=den, **{k.upper(): v}).potential(X), ref, "expdefault:%s:%s" % (typ, k), 1e-12)
        with c.case("expunknown:" + typ, {}):
            for k in ("nmaxx", "binary_q", "mass", "gamma"): c.raises(lambda: agama.Potential(type=typ, density=den, **{k: 1}), "expunknown:%s:%s" % (typ, k))
        with c.case("expmodel:" + typ, {}):   # analytic density given by name
            c.close(agama.Potential(type=typ, density="spheroid", p=.8, AXISratioz=.6, gamma=.5, beta=5).potential(X), ref, "expmodel:" + typ, 1e-12)
    with c.case("string", {}):  # parameters in a single string / dict / several dicts
        s = dict(type="Dehnen", mass=2.5, gamma=.7, scaleRadius=.8, axisRatioZ=.7); ref = agama.Potential(**s).potential(X)
        c.close(agama.Potential(s).potential(X), ref, "asdict", 0); c.close(agama.Potential(dict(s), dict(type="Plummer", mass=0)).potential(X), ref, "asdicts", 1e-14)
GROUPS = dict(density=dict(fn=density), deproj=dict(fn=deproj), potential=dict(fn=potential), kepler=dict(fn=kepler), king=dict(fn=king), galpot=dict(fn=galpot, cost=2), params=dict(fn=params))
