import os, numpy as np
from common import *
from scipy.integrate import quad
from scipy.special import gamma as Gam
if not os.environ.get("VERIF_META_ONLY"):
    from vh import Skip
RULE = ("random parameters of every distribution-function family (including extreme, default and degenerate ones), composites, user-defined functions and quasi-spherical DFs of many density/potential pairs x actions spanning 12 decades, planes and axes of the action space; "
  "a case is one DF whose values are compared with an independent evaluation of the documented expression, derivatives with finite differences, mass with an independent quadrature, and density/anisotropy moments with the input profiles")
ASSUMPTIONS = ["the potential and its epicyclic frequencies are correct (decided by C02, C09)"]
def qexp(x, q): return np.exp(x) if q == 0 else (1+q*x)**(1/q)
def actions_(rng, J0, n):
    """random actions spanning a wide range, some with zero components, both signs of Jphi"""
    J = np.exp(rng.uniform(np.log(1e-4), np.log(1e3), (n, 1)))*rng.dirichlet([.7]*3, n)*J0*np.array([1, 1, 1.])*rng.choice([1, 1, -1], (n, 1))**np.array([[0, 0, 1]])
    for i in range(n):
        if rng.random() < .15: J[i, :2][rng.integers(2)] = 0
    return J
class DPL:
    ps = None
    def __init__(self, rng, k):
        L = logu(rng, 1e-3, 1e3); self.J0 = L
        p = dict(type="DoublePowerLaw", norm=logu(rng, 1e-3, 1e3), J0=L, slopeIn=pick(rng, [0, 1, 5/3., -.5], 0, 2.7), slopeOut=pick(rng, [6, 5, 4], 3.3, 9))
        if rng.random() < .5: p["steepness"] = float(rng.uniform(.5, 3))
        for io in ("In", "Out"):
            if rng.random() < .7:
                a = rng.dirichlet([2]*3)*3; p["coefJr"+io], p["coefJz"+io] = float(a[0]), float(a[1])
        if rng.random() < .4:
            p["Jcutoff"] = L*logu(rng, 1, 100); p["cutoffStrength"] = float(rng.uniform(.7, 4))
            if rng.random() < .4: p["slopeOut"] = float(rng.uniform(-1, 3))
        if rng.random() < .5:
            p["rotFrac"] = float(rng.choice([1, -1, .5, -.3])); 
            if rng.random() < .7: p["Jphi0"] = L*logu(rng, .01, 10)
        if rng.random() < .4: p["Jcore"] = L*logu(rng, 1e-4, .3); p["slopeIn"] = abs(p["slopeIn"])
        self.par = p
    def __call__(self, J, beta=None):
        p = self.par; g = lambda k, d: p.get(k, d); hr, hz, gr, gz = g("coefJrIn", 1), g("coefJzIn", 1), g("coefJrOut", 1), g("coefJzOut", 1); a = np.abs(J[:, 2])
        h = hr*J[:, 0]+hz*J[:, 1]+(3-hr-hz)*a; gg = gr*J[:, 0]+gz*J[:, 1]+(3-gr-gz)*a; eta, J0 = g("steepness", 1), p["J0"]
        f = p["norm"]/(2*pi*J0)**3*np.exp(p["slopeIn"]/eta*np.log1p((J0/h)**eta)-p["slopeOut"]/eta*np.log1p((gg/J0)**eta))
        if g("Jcutoff", 0) > 0: f = f*np.exp(-(gg/p["Jcutoff"])**g("cutoffStrength", 2))
        if g("Jcore", 0) > 0: f = f*(1-beta*p["Jcore"]/h+(p["Jcore"]/h)**2)**(-p["slopeIn"]/2)
        if g("rotFrac", 0):
            jp = g("Jphi0", 0); f = f*(1+p["rotFrac"]*(np.tanh(J[:, 2]/jp) if jp > 0 else np.sign(J[:, 2])))
        return f
    def beta(self):
        """the coefficient beta leaves the mass of the model unchanged for identical coefficients in h and g without the cutoff"""
        p = self.par; Jc, J0, eta = p.get("Jcore", 0), p["J0"], p.get("steepness", 1)
        if not Jc > 0: return 0.
        def F(b):
            x, w = glpanels(np.arange(-16, 9, .5)*np.log(10), 8); h = Jc*np.exp(x); return np.sum(w*h**3*np.exp(p["slopeIn"]/eta*np.log1p((J0/h)**eta)-p["slopeOut"]/eta*np.log1p((h/J0)**eta))*((1-b*Jc/h+(Jc/h)**2)**(-p["slopeIn"]/2)-1))
        from scipy.optimize import brentq
        if p["slopeIn"] == 0: return None
        return brentq(F, 0, 2-1e-9)
class EXP:
    def __init__(self, rng, k):
        L = logu(rng, 1e-3, 1e3); self.J0 = L
        p = dict(type="Exponential", norm=logu(rng, 1e-3, 1e3), Jphi0=L, Jr0=L*logu(rng, .03, 1), Jz0=L*logu(rng, .03, 1))
        if rng.random() < .5: p["coefJr"] = pick(rng, [0, 1], 0, 2); p["coefJz"] = pick(rng, [0, 1], 0, 2)
        if rng.random() < .5: p["addJden"] = L*logu(rng, .01, 1); p["addJvel"] = L*logu(rng, .01, 1)
        for q in ("qJr", "qJz", "qJphi"):
            if rng.random() < .3: p[q] = float(rng.uniform(.05, .2 if q == "qJphi" else .4))
        self.par = p
    def __call__(self, J):
        p = self.par; g = lambda k, d: p.get(k, d); Jt = abs(J[:, 2])+g("coefJr", 1)*J[:, 0]+g("coefJz", .25)*J[:, 1]; Jd, Jv = np.hypot(Jt, g("addJden", 0)), np.hypot(Jt, g("addJvel", 0)); K = np.where(J[:, 2] >= 0, J[:, 0], J[:, 0]-J[:, 2])
        return p["norm"]/(2*pi)**3*Jd/p["Jphi0"]**2*qexp(-Jd/p["Jphi0"], -g("qJphi", 0))*Jv/p["Jr0"]**2*qexp(-Jv*K/p["Jr0"]**2, -g("qJr", 0))*Jv/p["Jz0"]**2*qexp(-Jv*J[:, 1]/p["Jz0"]**2, -g("qJz", 0))
class QI:
    def __init__(self, rng, k):
        self.L, self.M = logu(rng, 1e-2, 1e2), logu(rng, 1e-2, 1e2); L, M = self.L, self.M
        self.pots = [dict(type="MiyamotoNagai", mass=M, scaleRadius=L, scaleHeight=.2*L), dict(type="NFW", mass=10*M, scaleRadius=8*L), dict(type="Plummer", mass=.3*M, scaleRadius=.3*L)] if k % 2 else [dict(type="Isochrone", mass=M, scaleRadius=L), dict(type="Spheroid", mass=M, scaleRadius=3*L, gamma=0, beta=5, axisRatioZ=.8)]
        self.pot = agama.Potential(*self.pots); vc = np.sqrt(2*L*-self.pot.force(2*L, 0, 0)[0]); self.vc = vc; self.J0 = vc*L
        p = dict(type="QuasiIsothermal", Sigma0=logu(rng, 1e-3, 1e3), Rdisk=L*logu(rng, .5, 2), sigmar0=vc*float(rng.uniform(.2, .6)), Rsigmar=L*float(rng.uniform(2, 5)))
        if rng.random() < .5: p["Hdisk"] = L*logu(rng, .05, .3)
        else: p["sigmaz0"] = vc*float(rng.uniform(.2, .5)); p["Rsigmaz"] = L*float(rng.uniform(2, 5))
        if rng.random() < .5: p["sigmamin"] = vc*float(rng.uniform(.01, .1))
        if rng.random() < .5: p["Jmin"] = self.J0*logu(rng, .01, .3)
        if rng.random() < .5: p["coefJr"] = pick(rng, [0, 1], 0, 2); p["coefJz"] = pick(rng, [0, 1], 0, 2)
        for q in ("qJr", "qJz", "qJphi"):
            if rng.random() < .3: p[q] = float(rng.uniform(.05, .3))
        self.par = p; self.full = dict(p, potential=self.pot)
    def __call__(self, J):
        p = self.par; g = lambda k, d: p.get(k, d); Jt = abs(J[:, 2])+g("coefJr", 1)*J[:, 0]+g("coefJz", .25)*J[:, 1]; Jh = np.hypot(Jt, g("Jmin", 0)); R = np.array(self.pot.Rcirc(L=Jh)); x = np.column_stack((R, 0*R, 0*R)); F, D = self.pot.forceDeriv(x); Om2 = -F[:, 0]/R; ka = np.sqrt(-D[:, 0]+3*Om2); nu = np.sqrt(-D[:, 2]); Om = np.sqrt(Om2)
        sr2 = p["sigmar0"]**2*np.exp(-2*R/p["Rsigmar"])+g("sigmamin", 0)**2; sz2 = (2*p["Hdisk"]**2*nu**2 if "Hdisk" in p else p["sigmaz0"]**2*np.exp(-2*R/p["Rsigmaz"]))+g("sigmamin", 0)**2
        K = np.where(J[:, 2] >= 0, ka*J[:, 0], ka*J[:, 0]-2*Om*J[:, 2]); q = g("qJphi", 0), g("qJr", 0), g("qJz", 0)
        self.arg = np.maximum(1, R/p["Rdisk"]+(K/sr2)+nu*J[:, 1]/sz2)
        # the documented factors 1/(1-q) reproduce normalization integrals of q-exponentials: int_0^inf qexp(-x,-q) dx = 1/(1-q)
        return Om/(2*pi**2*ka**2)*p["Sigma0"]*(1-q[0])*qexp(-R/p["Rdisk"], -q[0])*ka*(1-q[1])/sr2*qexp(-K/sr2, -q[1])*nu*(1-q[2])/sz2*qexp(-nu*J[:, 1]/sz2, -q[2])
def derivs(c, df, J, f, J0, key, tol=2e-6):
    v, d = df(J, der=True); c.close(v, f, key+":value(der)", 1e-13); 
    s = abs(J).sum(1)+1e-6*J0
    for k in range(3):
        h = np.minimum(2e-4*abs(J[:, k]), 1e-3*abs(v/(d[:, k]+1e-300*J0))); g = (h > 1e-9*s) & np.isfinite(h)
        if not g.any(): continue
        e = np.zeros((g.sum(), 3)); e[:, k] = h[g]; F = [df(J[g]+m*e) for m in (-2, -1, 1, 2)]; num = (8*(F[2]-F[1])-(F[3]-F[0]))/12/h[g]
        c.close(d[g, k], num, key+":deriv%d" % k, tol*3, tol*np.abs(v[g])/h[g]*1e-3+tol*abs(num)+1e-290)
    z = (J == 0)
    c.ok(np.isfinite(d[(v > 0) & ~z.any(1)]).all(), key+":deriv-finite"); return v, d
def massquad3(f, J0, lo=1e-14, hi=1e9, signs=(1, -1), ns=14, per=2):
    """independent integral of f over the actions times (2pi)^3: log-spaced total action, unit-simplex for their fractions; panels clustered towards the edges of the simplex"""
    x, w = glpanels(np.linspace(np.log(lo), np.log(hi), int(np.log10(hi/lo)*per)+1), 4); ed = [0, 1e-5, 1e-3, .02, .1, .3, .6, .8, .95, .999, 1]; a, wa = glpanels(ed, 5); A, B = np.meshgrid(a, a, indexing="ij"); W = np.outer(wa, wa)*(1-A)
    fr = np.stack([A, (1-A)*B, (1-A)*(1-B)], -1).reshape(-1, 3); W = W.ravel(); tot = 0.
    for s in signs:
        for xi, wi in zip(x, w):
            J = J0*np.exp(xi)*fr*np.array([1, 1, s]); v = f(J); tot += wi*(J0*np.exp(xi))**3*np.sum(np.where(np.isfinite(v), v, 0)*W)
    return tot*(2*pi)**3
def analytic(c):
    rng = c.rng
    for i in range(c.n(60)):
        m = (DPL, EXP, QI)[i % 3](rng, i//3); p = m.par; t = p["type"]
        with c.case("formula:"+t, dict(par=p)):
            df = agama.DistributionFunction(**getattr(m, "full", p)); J = actions_(rng, m.J0, 300); f = np.asarray(df(J)); J = J[np.isfinite(f) | (J[:, :2] > 0).all(1)] if t == "QuasiIsothermal" else J; f = np.asarray(df(J)); c.ok(np.isfinite(f).all() and (f >= 0).all(), t+":nonnegative", str(J[~(np.isfinite(f) & (f >= 0))][:2]))
            if t == "DoublePowerLaw":
                b = m.beta()
                if b is None: ref = m(J, 0) if False else None
                else: ref = m(J, b)
                if ref is not None: c.close(f, ref, t+":value", 1e-8 if not p.get("Jcore", 0) else .1, 1e-300+1e-12*m(J*[1, 1, -1], b)); 
                if p.get("Jcore", 0) > 0 and p["slopeIn"] > 0:   # the actual value of beta does not affect f at J<<Jcore and at J>>Jcore
                    c.close(df([[1e-7*p["Jcore"]*a for a in (.3, .3, .4)]]), m(np.array([[1e-7*p["Jcore"]*a for a in (.3, .3, .4)]]), 1), t+":core", 1e-5)
            elif t == "Exponential": ref = m(J); c.close(f, ref, t+":value", 1e-10, 1e-300)
            else: ref = m(J); rg = np.isfinite(ref) & (ref > 1e-250); c.close(f[rg]/ref[rg], 1, t+":value", 1e-12, 3e-4*m.arg[rg]); c.event("QI values", int(rg.sum()))
            g = f > 1e-200*np.max(f); gd = g & (1+p.get("rotFrac", 0)*np.tanh(J[:, 2]/p.get("Jphi0", 1e-9*m.J0)) > 1e-2) if p.get("rotFrac") else g; derivs(c, df, J[gd], f[gd], m.J0, t, 2e-6 if t != "QuasiIsothermal" else 2e-5)
            c.close(df(J[7]), f[7], t+":scalar", 1e-14); c.close(df(J[::-1]), f[::-1], t+":order", 1e-14); k = 1 if t == "DoublePowerLaw" else 0
            if t != "DoublePowerLaw" or not p.get("rotFrac", 0) and t == "DoublePowerLaw":
                if t == "DoublePowerLaw": c.close(df(J*[1, 1, -1]), f, t+":even", 1e-14)
            if t == "DoublePowerLaw" and p.get("rotFrac", 0): o = dict(p); o.pop("rotFrac"); o.pop("Jphi0", 0); c.close(.5*(df(J*[1, 1, -1])+f), agama.DistributionFunction(**o)(J), t+":evenpart", 1e-12, 1e-300)
            # boundaries of the action space are approached continuously
            j = m.J0*np.array([[.3, .4, 0], [0, .4, .5], [.3, 0, .5], [.3, 0, 0], [0, .3, 0], [0, 0, .7], [0, 0, -.7], [0, 0, 0.]]); e = m.J0*1e-9*np.array([1., 1, 1]); fb = df(j); fe = np.where(j[:, 2] == 0, .5*(df(j+e)+df(j+e*[1, 1, -1])), df(j+e*np.sign(j+1e-99))); fin = np.isfinite(fe); fin[7] &= (p.get("slopeIn", 0) == 0 or p.get("Jcore", 0) > 0) and not p.get("rotFrac")
            if t == "QuasiIsothermal": fin[7] = False
            if t == "Exponential": fin[7] = "addJden" in p
            if p.get("rotFrac") and not p.get("Jphi0"): fin[[0, 3, 4]] &= np.isfinite(fb[[0, 3, 4]])   # a genuine discontinuity at Jphi=0; the value must nevertheless be finite
            nz = np.array([not (t == "QuasiIsothermal" and a == 0) for a in (p.get("coefJr", 1)*j[:, 0]+p.get("coefJz", .25)*j[:, 1]+abs(j[:, 2]))]); nz[7] = False; fin &= nz | (t != "QuasiIsothermal")
            c.ok(np.isfinite(fb[nz]).all() and (fb[nz] >= 0).all(), t+":boundary-finite", "values at the boundaries: %s" % fb); c.close(fb[fin], fe[fin], t+":boundary", 1e-4, 1e-250+1e-7*np.max(fe[fin]))
            # very large and very small actions
            for s in (1e-12, 1e-8, 1e5, 1e9):
                v, d = df(m.J0*s*np.array([[.3, .3, .4], [.3, .3, -.4]]), der=True); c.ok(np.isfinite(v).all() and (v >= 0).all() , t+":extreme", "%g: %s %s" % (s, v, d))
            # composite
            p2 = DPL(rng, 0); df2 = agama.DistributionFunction(**p2.par); co = agama.DistributionFunction(df, df2); v, d = co(J[g], der=True); v1, d1 = df(J[g], der=True); v2, d2 = df2(J[g], der=True); fin = np.isfinite(v2); c.close(v[fin], (v1+v2)[fin], "composite", 1e-13); c.close(d[fin], (d1+d2)[fin], "composite:der", 1e-12, 1e-13*(abs(d1)+abs(d2))[fin], equal_nan=True)
            c.ok(len(co) == 2 and co[0] == df and co[1] == df2, "composite:elements"); cc = agama.DistributionFunction(co, df); c.close(cc(J[g][fin]), (2*v1+v2)[fin], "composite:nested", 1e-13)
            # linear in normalization
            nm = "norm" if t != "QuasiIsothermal" else "Sigma0"; q = dict(getattr(m, "full", p)); q[nm] *= 3.5; c.close(agama.DistributionFunction(**q)(J), 3.5*f, "normalization", 1e-13, 1e-300)
            # a Python function as DF
            fn = lambda J, der=False: df(J, der=True) if der else df(J)
            try: u = agama.DistributionFunction(fn, df); c.close(u(J), 2*f, "user", 1e-13); vv, dd = u(J[g], der=True); c.close(dd, 2*d1, "user:der", 1e-13, equal_nan=True)
            except Exception as ex: c.ok(False, "user:exception", str(ex))
def mass(c):
    rng = c.rng
    for i in range(c.n(12)):
        m = (DPL, EXP, QI)[i % 3](rng, i//3); p = m.par; t = p["type"]
        with c.case("mass:"+t, dict(par=p)):
            full = getattr(m, "full", p); df = agama.DistributionFunction(**full); M = df.totalMass()
            lo, hi = (1e-14, 1e9) if t == "DoublePowerLaw" else (1e-6, 1e4); ns = 2 if t == "DoublePowerLaw" else 4
            ref = massquad3(df, m.J0, lo, hi, per=ns)
            c.close(M, ref, t+":mass", dict(QuasiIsothermal=.05, Exponential=.3, DoublePowerLaw=5e-3)[t])
            nm = "norm" if t != "QuasiIsothermal" else "Sigma0"; q = {k: v for k, v in full.items() if k != nm}; mm = logu(rng, 1e-3, 1e3); d2 = agama.DistributionFunction(mass=mm, **q); c.close(d2.totalMass(), mm, t+":mass-param", 1e-5); J = actions_(rng, m.J0, 20); a, b = df(J), d2(J); g = a > 1e-250; c.close(b[g]/a[g], mm/M, t+":mass-scale", 1e-4)
            c.raises(lambda: agama.DistributionFunction(mass=mm, **full), t+":mass+norm"); co = agama.DistributionFunction(df, d2); c.close(co.totalMass(), M+mm, "composite-mass", 3e-3 if t == "DoublePowerLaw" else .3)
            # scaling the actions changes the mass trivially
            if t != "QuasiIsothermal":
                s = 1e5; q = {k: (v*s if k[0] in "Ja" else v) for k, v in p.items()}; c.close(agama.DistributionFunction(**q).totalMass(), M, t+":scale-invariance", 3e-3 if t == "DoublePowerLaw" else .3)
            if t == "DoublePowerLaw" and p.get("slopeOut", 0) > 3.5 and not p.get("Jcutoff") and not p.get("Jcore"):
                # analytic mass: integral over the simplex when g=h
                a, b_, eta = p["slopeIn"], p["slopeOut"], p.get("steepness", 1); q = {k: v for k, v in p.items() if not k.startswith("coef")}; q.update(coefJrIn=.8, coefJzIn=1.1, coefJrOut=.8, coefJzOut=1.1); vol = 1/(.8*1.1*1.1); an = p["norm"]*vol*Gam((3-a)/eta+0)*Gam((b_-3)/eta)/Gam((b_-a)/eta)/eta if b_ > a else None   # int h^2/2 * 2 signs
                if an: c.close(agama.DistributionFunction(**q).totalMass(), an, t+":analytic-mass", 2e-3)
                if an:
                    q["Jcore"] = p["J0"]*1e-2
                    if p["slopeIn"] > 0: c.close(agama.DistributionFunction(**q).totalMass(), an, t+":core-mass", 5e-3)
    # fixed instances for which the adaptive integration in the scaled action space fails (see known_findings.jsonl)
    for key, q, ref in (("totalmass-scale-1e-6", dict(type="Exponential", norm=1, Jphi0=1e-6, Jr0=2e-7, Jz0=5e-8), .998295), ("totalmass-scale-3e-4", dict(type="Exponential", norm=1, Jphi0=.00031622776601683794, Jr0=.1*.00031622776601683794, Jz0=.03*.00031622776601683794), .999694)):
        with c.case("mass:fixed", q): c.close(agama.DistributionFunction(**q).totalMass(), ref, key, .02)
    for k, q, ref in (("thin", dict(type="Exponential", norm=1, Jphi0=1, Jr0=.2, Jz0=.05), .998295), ("dpl", dict(type="DoublePowerLaw", norm=1, J0=1., slopeIn=1, slopeOut=6, coefJrIn=2, coefJzIn=.5), .089893)):
        with c.case("mass:ref", q): c.close(agama.DistributionFunction(**q).totalMass(), ref, "reference:"+k, 2e-3)
def edd(rho, drho, d2, psi): pass
SPH = [("Plummer", lambda rng: dict(type="Plummer")), ("Hernquist", lambda rng: dict(type="Dehnen", gamma=1.)), ("Dehnen", lambda rng: dict(type="Dehnen", gamma=float(rng.uniform(0, 1.9)))), ("Isochrone", lambda rng: dict(type="Isochrone")), ("NFWcut", lambda rng: dict(type="Spheroid", gamma=1, beta=3, outerCutoffRadius=20)), ("King", lambda rng: dict(type="King", W0=float(rng.uniform(3, 8)))), ("Spheroid", lambda rng: dict(type="Spheroid", gamma=float(rng.uniform(.2, 1.5)), beta=float(rng.uniform(3.5, 6)), alpha=float(rng.uniform(.7, 2)))), ("Sersic", lambda rng: dict(type="Sersic", sersicIndex=float(rng.uniform(1, 5)))), ("Jaffe", lambda rng: dict(type="Dehnen", gamma=2.))]
def scaled(rng, s):
    L, M = logu(rng, 1e-2, 1e2), logu(rng, 1e-2, 1e2); s = dict(s, mass=M, scaleRadius=L)
    if "outerCutoffRadius" in s: s["outerCutoffRadius"] *= L
    return s, L, M
def qspherical(c):
    rng = c.rng
    for i in range(c.n(9)):
        name, fn = SPH[(i+c.ncase*0) % len(SPH)]; s, L, M = scaled(rng, fn(rng)); pot = agama.Potential(**s); dens = pot; extra = None
        if i % 3 == 2 and name not in ("King",): ex = dict(type="Plummer" if i % 2 else "Dehnen", mass=M*logu(rng, .5, 10), scaleRadius=L*logu(rng, 2, 10), **({} if i % 2 else dict(gamma=1))); extra = ex; dens = agama.Density(**s); pot = agama.Potential(s, ex)
        par = {}
        u = rng.random()
        if name in ("Plummer", "Hernquist", "Dehnen", "NFWcut", "Spheroid", "Isochrone") and u < .65:
            g0 = s.get("gamma", 0); b = pick(rng, [-.5, 0, -.3], -.5, min(.5, g0/2-.15) if extra is None and g0 > .3 else -.05)
            par = dict(beta0=b)
            if rng.random() < .5: par["r_a"] = L*logu(rng, 3 if b <= 0 else 5, 30)
        with c.case("qspherical:"+name, dict(spec=s, extra=extra, par=par)):
            kw = dict(type="QuasiSpherical", potential=pot, **par)
            if extra: kw["density"] = dens
            df = agama.DistributionFunction(**kw); gm = agama.GalaxyModel(pot, df, agama.ActionFinder(pot)); r = L*np.array([.03, .1, .3, 1, 2.5, 6.])
            if name == "King": r = r[r < .5*pot.Rmax(0)] if False else r[:4]
            if name == "Sersic": r = r[1:]
            x = dirs(rng, len(r))*r[:, None]; rho, v2 = gm.moments(x, dens=True, vel2=True); tr = dens.density(x); b0, ra = par.get("beta0", 0), par.get("r_a", np.inf)
            c.close(rho, tr, "density:%s" % name, 1e-2, info=dict(r=r)); 
            n = x/r[:, None]; S = np.zeros((len(r), 3, 3)); S[:, 0, 0], S[:, 1, 1], S[:, 2, 2], S[:, 0, 1], S[:, 0, 2], S[:, 1, 2] = v2.T; S = S+np.transpose(np.triu(S, 1) if False else S*(1-np.eye(3)), (0, 2, 1)); sr = np.einsum("ni,nij,nj->n", n, S, n); st = .5*(np.trace(S, axis1=1, axis2=2)-sr); beta = 1-st/sr; bt = (b0+(r/ra)**2)/(1+(r/ra)**2); c.close(beta, bt, "anisotropy:%s" % name, 0, 2e-2)
            # spherical Jeans equation
            xs, w = glpanels(np.linspace(0, np.log(1e5), 60), 6)
            for k in range(len(r)):
                rr = r[k]*np.exp(xs); y = np.column_stack((rr, 0*rr, 0*rr)); mu = lambda q: (q**(2*b0))*(1+(q/ra)**2)**(1-b0); I = np.sum(w*rr*dens.density(y)*-pot.force(y)[:, 0]*mu(rr)/mu(r[k])); c.close(sr[k], I/tr[k], "jeans:%s" % name, 2e-2)
            c.close(df.totalMass(), dens.totalMass(), "mass:%s" % name, 5e-2)
            # isotropic models: f(E) closed forms and non-negativity
            J = actions_(rng, np.sqrt(-pot.force(L, 0, 0)[0]*L)*L, 60); f = df(J); c.ok(np.isfinite(f).all() and (f >= 0).all(), "qs:nonneg"); g = (J[:, 0] > 0) & (J[:, 1] > 0) & (f > 1e-200*f.max())
            derivs(c, df, J[g], f[g], np.median(abs(J)), "qs", 1e-3)
            c.close(df(J*[1, 1, -1]), f, "qs:even", 1e-9, 1e-12*f); ex = np.column_stack((J[:, 0], J[:, 1]*.4, abs(J[:, 2])+.6*J[:, 1])); c.close(df(ex), f, "qs:Jz+Jphi", 1e-8, 1e-300)
            if not par and not extra and name in ("Plummer", "Hernquist", "Isochrone"):
                y = np.column_stack((points(rng, 40, .02*L, 10*L, 0), np.zeros((40, 3)))); ph = pot.potential(y[:, :3]); y[:, 3:] = dirs(rng, 40)*(np.sqrt(-2*ph)*rng.uniform(0, .97, 40))[:, None]; E = -(ph+.5*(y[:, 3:]**2).sum(1)); J = agama.ActionFinder(pot)(y); f = df(J); v0 = np.sqrt(M/L); e = E/(M/L)
                if name == "Plummer": ref = 24*np.sqrt(2)/(7*pi**3)*e**3.5
                elif name == "Hernquist": q = np.sqrt(e); ref = 1/(np.sqrt(2)*(2*pi)**3)*q/(1-q*q)**2*((1-2*q*q)*(8*q**4-8*q*q-3)+3*np.arcsin(q)/np.sqrt(q*q*(1-q*q)))
                else: ref = 1/(np.sqrt(2)*(2*pi)**3*(2*(1-e))**4)*np.sqrt(e)*(27-66*e+320*e**2-240*e**3+64*e**4+3*(16*e*e+28*e-9)*np.arcsin(np.sqrt(e))/np.sqrt(e*(1-e)))
                g = e > 1e-3; c.close(f[g], (ref*M/(L*v0)**3)[g], "closed-form:%s" % name, 1e-3)
def invalid(c):
    rng = c.rng; nan = float("nan"); inf = float("inf")
    D = dict(type="DoublePowerLaw", norm=1., J0=1., slopeIn=1., slopeOut=5.); E = dict(type="Exponential", norm=1., Jphi0=1., Jr0=.3, Jz0=.2); pot = agama.Potential(type="Plummer"); Q = dict(type="QuasiIsothermal", Sigma0=1., Rdisk=1., sigmar0=.3, Rsigmar=2., Hdisk=.1, potential=pot); S = dict(type="QuasiSpherical", potential=pot)
    bad = [(D, k, v) for k, v in (("norm", 0), ("norm", -1), ("norm", nan), ("J0", 0), ("J0", -1), ("J0", nan), ("slopeIn", 3), ("slopeIn", nan), ("slopeOut", 3), ("slopeOut", nan), ("steepness", 0), ("steepness", -1), ("steepness", nan), ("coefJrIn", 0), ("coefJrIn", 3), ("coefJzIn", -1), ("coefJrOut", 2.5), ("coefJzOut", nan), ("rotFrac", 1.1), ("rotFrac", nan), ("Jcutoff", -1), ("Jcutoff", nan), ("cutoffStrength", 0), ("cutoffStrength", -1), ("Jcore", -1), ("mass", 1), ("Jfoo", 1), ("potential", pot))]
    bad += [(E, k, v) for k, v in (("norm", 0), ("norm", nan), ("Jphi0", 0), ("Jr0", 0), ("Jz0", -1), ("Jz0", nan), ("addJden", -1), ("addJvel", nan), ("coefJr", -1), ("coefJz", nan), ("qJr", 1), ("qJz", -.1), ("qJphi", 1), ("qJphi", nan), ("mass", 1), ("Rdisk", 1), ("potential", pot), ("density", pot))]
    bad += [(Q, k, v) for k, v in (("Sigma0", 0), ("Sigma0", nan), ("Rdisk", 0), ("Rdisk", nan), ("sigmar0", -1), ("Rsigmar", 0), ("Hdisk", 0), ("Hdisk", -1), ("Hdisk", nan), ("coefJr", -1), ("qJr", 1), ("qJphi", -1), ("density", pot), ("norm", 1), ("mass", 1))]+[(dict(Q, sigmaz0=.3, Rsigmaz=2.), "coefJr", 1)]
    bad += [(S, k, v) for k, v in (("beta0", 1), ("beta0", -.6), ("beta0", nan), ("r_a", 0), ("r_a", -1), ("r_a", nan), ("norm", 1), ("potential", None), ("potential", agama.Density(type="Plummer")))]
    for b, k, v in bad:
        with c.case("invalid", dict(type=b["type"], k=k, v=str(v))): c.raises(lambda: agama.DistributionFunction(**dict(b, **{k: v})), "invalid:%s:%s=%s" % (b["type"], k, v if not isinstance(v, agama.Density) else "obj"))
    for b in (D, E, Q):
        for k in b:
            if k in ("type", "slopeIn", "slopeOut") : continue
            with c.case("missing", dict(type=b["type"], k=k)): c.raises(lambda: agama.DistributionFunction(**{q: v for q, v in b.items() if q != k}), "missing:%s:%s" % (b["type"], k))
    with c.case("misc"):
        for kw in (dict(), dict(type="Foo"), dict(type="")): c.raises(lambda: agama.DistributionFunction(**kw), "misc:%s" % kw)
        df = agama.DistributionFunction(**D)
        c.raises(lambda: agama.DistributionFunction(df, 5), "misc:composite"); c.raises(lambda: agama.DistributionFunction(df, **D), "misc:mixed")
        for x in ([1, 2], [[1, 2]], "abc", None, [1, 2, 3, 4]): c.raises(lambda: df(x), "misc:input %s" % (x,))
        def boom(J, der=False): raise ValueError("x")
        def wrong(J, der=False): return np.zeros(len(J)+1)
        for f in (boom, wrong, lambda J: "a"):
            c.raises(lambda: agama.DistributionFunction(df, f)(np.ones((4, 3))), "misc:user")
        c.ok(np.shape(df(np.zeros((0, 3)))) == (0,), "misc:empty")
        for x in ([-1., 1, 1], [1, -1., 1], [nan, 1, 1], [1, 1, nan]):
            try: v = df(x); c.event("invalid-actions")
            except Exception: pass
GROUPS = dict(analytic=dict(fn=analytic, cost=10), mass=dict(fn=mass, cost=40), qspherical=dict(fn=qspherical, cost=60, threads=4), invalid=dict(fn=invalid, cost=5))
