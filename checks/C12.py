import os, math, numpy as np
from common import *
from scipy import special, stats
if not os.environ.get("VERIF_META_ONLY"):
    from vh import Skip
RULE = ("random functions of 1-6 variables with exactly known distributions (Gaussian mixtures, singular beta products, discontinuous indicators), random density models (bare and modified), "
  "random galaxy models, velocity distributions from the Eddington and the two Jeans methods, random seeds and thread counts, basic generators; a case is one sampled object, whose sample is compared with the exact distribution by Kolmogorov-Smirnov, moment and local-weight statistics with thresholds beyond 5 sigma")
ASSUMPTIONS = ["density, enclosedMass, force and moments are correct functions (decided by C02-C06, C11)", "the single tangential Gaussian of the spherical Jeans method is accepted as documented: only its second moments are compared"]
def ks(c, u, key, slack=0., crit=3.0, info=None):
    """Kolmogorov-Smirnov distance of numbers which should be uniform in [0,1]"""
    u = np.sort(u); n = len(u); i = np.arange(n); D = max(np.max((i+1)/n-u), np.max(u-i/n)); c.le(D-slack, crit/np.sqrt(n), key, info=info)
def ks2(c, a, b, key, crit=2.6):
    c.le(stats.ks_2samp(a, b, method="asymp").statistic, crit*np.sqrt(1/len(a)+1/len(b)), key)
class Target:
    """function with known integral over the box and known one-dimensional distributions of projections"""
    def __init__(self, rng):
        self.n = n = int(rng.integers(1, 7)); self.kind = k = ["gauss", "beta", "ball", "unif", "ring"][rng.integers(5)]; self.lo = -np.exp(rng.normal(size=n)) if k != "beta" else np.zeros(n); self.cdfs = []; amp = logu(rng, 1e-6, 1e6)
        if k == "ball" and n > 4: self.n = n = 3; self.lo = self.lo[:3]
        if k == "ring": self.n = n = 2; self.lo = self.lo[:2]
        S = np.exp(rng.normal(size=n)*2); o = rng.normal(size=n)*S*3; self.tol = 0.
        if k == "gauss":
            m = int(rng.integers(1, 4)) if n < 5 else 1; w = rng.dirichlet([2]*m)*.7+.3/m; mu = rng.uniform(.3, .7, (m, n)) if n < 5 else rng.uniform(.45, .55, (m, n)); C = []
            for _ in range(m): A = rng.normal(size=(n, n))*.02+np.diag(rng.uniform(.02, .05, n) if n < 4 else rng.uniform(.05, .08, n) if n == 4 else rng.uniform(.1, .14, n)); C.append(A@A.T+1e-4*np.eye(n))
            P = [np.linalg.inv(q) for q in C]; N = [a/np.sqrt((2*pi)**n*np.linalg.det(q)) for a, q in zip(w, C)]
            self.g = lambda x: sum(N[j]*np.exp(-.5*np.einsum("ni,ij,nj->n", x-mu[j], P[j], x-mu[j])) for j in range(m)); self.I = 1.; self.tol = 0. if n < 5 else .005
            for e in list(np.eye(n))+[dirs3(rng, n) for _ in range(3)]: self.cdfs.append((lambda x, e=e: x@e, lambda s, e=e: sum(w[j]*special.ndtr((s-mu[j]@e)/np.sqrt(e@C[j]@e)) for j in range(m))))
        elif k == "beta":
            a = rng.uniform(.5, 4, n) if n <= 3 else rng.uniform(.8, 4, n); b = rng.uniform(1, 4, n)
            self.g = lambda x: np.prod(x**(a-1)*(1-x)**(b-1), axis=1); self.I = np.prod(special.beta(a, b)); self.tol = .004
            for d in range(n): self.cdfs.append((lambda x, d=d: x[:, d], lambda s, d=d: special.betainc(a[d], b[d], np.clip(s, 0, 1))))
        elif k == "ball":
            ctr = rng.uniform(.35, .65, n); R = float(rng.uniform(.1 if n < 3 else .25, .34)); self.g = lambda x: (((x-ctr)**2).sum(1) < R*R)*1.; self.I = pi**(n/2)/special.gamma(n/2+1)*R**n
            self.cdfs.append((lambda x: np.sqrt(((x-ctr)**2).sum(1)), lambda s: np.clip(s/R, 0, 1)**n))
            for d in range(n): self.cdfs.append((lambda x, d=d: x[:, d], lambda s, d=d: special.betainc((n+1)/2, (n+1)/2, np.clip((1+(s-ctr[d])/R)/2, 0, 1))))
            self.tol = .01
        elif k == "ring":
            R, s0 = float(rng.uniform(.2, .4)), float(rng.uniform(.005, .03)); self.g = lambda x: np.exp(-.5*((np.sqrt(((x-.5)**2).sum(1))-R)/s0)**2); q, qw = glpanels(np.linspace(max(0, R-7*s0), R+7*s0, 9), 10); qf = np.exp(-.5*((q-R)/s0)**2)*q; self.I = 2*pi*np.sum(qw*qf); rg = np.linspace(max(0, R-7*s0), R+7*s0, 400); cg = np.array([0]+[np.sum(np.exp(-.5*((t[0]-R)/s0)**2)*t[0]*t[1]) for t in (glint(rg[i], rg[i+1], 5) for i in range(399))]).cumsum()
            self.cdfs += [(lambda x: np.sqrt(((x-.5)**2).sum(1)), lambda s: np.interp(s, rg, cg/cg[-1])), (lambda x: np.arctan2(x[:, 1]-.5, x[:, 0]-.5), lambda s: s/(2*pi)+.5)]
        else:
            self.g = lambda x: np.ones(len(x)); self.I = 1.
            for d in range(n): self.cdfs.append((lambda x, d=d: x[:, d], lambda s: s))
        self.lo, self.S, self.amp = o, S, amp; self.hi = o+S; self.f = lambda x: amp*self.g((x-o)/S); self.I *= amp*np.prod(S)
def dirs3(rng, n): e = rng.normal(size=n); return e/np.sqrt(e@e)
def ndim(c):
    rng = c.rng
    for i in range(c.n(40)):
        t = Target(rng); n = int(10**rng.uniform(3, 4.8 if t.n < 4 else 4.3)); seed = int(rng.integers(1, 1 << 31))
        with c.case("ndim:%s" % t.kind, dict(i=i, n=n, ndim=t.n, lo=t.lo, S=t.S, seed=seed)):
            agama.setRandomSeed(seed); calls = [0, 0]; bad = []
            def f(x):
                calls[0] += len(x); calls[1] += 1
                if x.ndim != 2 or x.shape[1] != t.n or (x < t.lo-1e-9*t.S).any() or (x > t.hi+1e-9*t.S).any(): bad.append(x)
                return t.f(x)
            X, I, err, ne = agama.sampleNdim(f, n, t.lo, t.hi) if rng.random() < .8 or t.n > 1 else agama.sampleNdim(f, n, [t.lo[0]], [t.hi[0]])
            c.ok(not bad, "ndim:outside-box-call"); c.ok(X.shape == (n, t.n), "ndim:shape"); c.ok(np.isfinite(X).all() and (X >= t.lo).all() and (X <= t.hi).all(), "ndim:inside"); c.ok(ne == calls[0], "ndim:neval", "%d vs %d" % (ne, calls[0])); c.ok(ne >= n, "ndim:too-few-evaluations")
            c.ok((t.f(X) > 0).all(), "ndim:zero-probability-sample"); c.ok(len(np.unique(X, axis=0)) >= (n if t.n > 1 else .999*n), "ndim:unique"); c.close(I, t.I, "ndim:integral", .015 if t.n < 4 else .03, 5*err); c.le(err, .2*I, "ndim:error-estimate")
            Y = (X-t.lo)/t.S
            for j, (pr, cdf) in enumerate(t.cdfs): ks(c, cdf(pr(Y)), "ndim:%s:%d" % (t.kind, min(j, 1)), t.tol)
            c.event("samples", n)
            if len(Y) > 2000:    # consecutive points are not correlated
                u = t.cdfs[0][1](t.cdfs[0][0](Y))-.5; c.le(abs(np.mean(u[1:]*u[:-1])), 5.5/12/np.sqrt(n), "ndim:serial-correlation")
    with c.case("ndim:defaults"):
        X, I, e, ne = agama.sampleNdim(lambda x: x[:, 0]*x[:, 1]**2, 5000, ndim=2) if False else agama.sampleNdim(lambda x: x[:, 0]*x[:, 1]**2, 5000, 2); c.close(I, 1/6, "defaults:integral", .02); c.ok(X.shape == (5000, 2) and X.min() >= 0 and X.max() <= 1, "defaults:box"); ks(c, X[:, 0]**2, "defaults:x"); ks(c, X[:, 1]**3, "defaults:y")
        X = agama.sampleNdim(lambda x: np.exp(-x[:, 0]), 2000, [0.], [10.])[0]; ks(c, (1-np.exp(-X[:, 0]))/(1-np.exp(-10)), "defaults:1d")
    bad = dict(negative=lambda: agama.sampleNdim(lambda x: x[:, 0]-.5, 100, 1), zero=lambda: agama.sampleNdim(lambda x: x[:, 0]*0, 100, 2), nan=lambda: agama.sampleNdim(lambda x: x[:, 0]*np.nan, 100, 2), inf=lambda: agama.sampleNdim(lambda x: x[:, 0]/0, 100, 2),
        reversed=lambda: agama.sampleNdim(lambda x: x[:, 0], 100, [0, 1], [1, 0]), zeron=lambda: agama.sampleNdim(lambda x: x[:, 0], 0, 2), negn=lambda: agama.sampleNdim(lambda x: x[:, 0], -5, 2), dims=lambda: agama.sampleNdim(lambda x: x[:, 0], 10, [0, 0], [1, 1, 1]), dim0=lambda: agama.sampleNdim(lambda x: x[:, 0], 10, 0), raising=lambda: agama.sampleNdim(lambda x: 1/0, 10, 2), shape=lambda: agama.sampleNdim(lambda x: np.ones(3), 100, 2), notcallable=lambda: agama.sampleNdim(3, 100, 2), infbox=lambda: agama.sampleNdim(lambda x: x[:, 0], 100, [0, 0], [1, np.inf]))
    for k, fn in bad.items():
        with c.case("ndim:invalid:"+k), np.errstate(all="ignore"): c.raises(fn, "invalid:"+k)
def model(rng, i):
    k = ["Plummer", "Dehnen", "Spheroid", "Disk", "Ferrers", "King", "Blobs", "Sersic", "MiyamotoNagai", "Modified", "DehnenTriax", "Nuker"][i % 12]; L, M = logu(rng, 1e-3, 1e3), logu(rng, 1e-3, 1e3); p, q = (1., 1.) if rng.random() < .3 else (1., float(rng.uniform(.3, 1))) if rng.random() < .5 else (float(rng.uniform(.5, 1)), float(rng.uniform(.3, .9))); ml = dict(mass=M, scaleRadius=L); b = None
    if k == "Dehnen": s = dict(type="Dehnen", gamma=float(rng.uniform(0, 2)), **ml)
    elif k == "DehnenTriax": s = dict(type="Dehnen", gamma=float(rng.uniform(0, 1.8)), axisRatioY=p, axisRatioZ=q, **ml)
    elif k == "Spheroid": s = dict(type=k, gamma=float(rng.uniform(0, 2.2)), beta=float(rng.uniform(3.5, 6)), alpha=float(rng.uniform(.5, 3)), axisRatioY=p, axisRatioZ=q, **ml)
    elif k == "Nuker": s = dict(type=k, gamma=float(rng.uniform(0, .8)), beta=float(rng.uniform(2.5, 4)), axisRatioY=p, axisRatioZ=q, **ml)
    elif k == "Sersic": s = dict(type=k, sersicIndex=float(rng.uniform(.6, 5)), axisRatioY=p, axisRatioZ=q, **ml)
    elif k == "Disk": s = dict(type=k, scaleHeight=L*float(rng.uniform(.05, .5))*(1 if rng.random() < .5 else -1), innerCutoffRadius=L*float(rng.choice([0, .3])), **ml)
    elif k == "Ferrers": s = dict(type=k, axisRatioY=.8, axisRatioZ=.5, **ml)
    elif k == "King": s = dict(type=k, W0=float(rng.uniform(2, 8)), trunc=1., **ml)
    elif k == "MiyamotoNagai": s = dict(type=k, scaleHeight=L*logu(rng, .1, 3), **ml)
    elif k == "Modified": s = dict(type="Spheroid", gamma=.5, beta=4.5, axisRatioY=p, axisRatioZ=q, center=[float(a) for a in L*rng.normal(size=3)], orientation=[float(a) for a in rng.uniform(0, 3, 3)], **ml)
    elif k == "Blobs": b = Blobs(rng, Blobs.SYM[rng.integers(6)], L); s = dict(blobs=b.P, type=k); d = b.potential()
    else: s = dict(type=k, **ml)
    if k != "Blobs": d = agama.Density(**s)
    return s, d, L, float(d.totalMass()), k
def axisym(s): return s.get("axisRatioY", 1.) == 1. and s["type"] not in ("Ferrers", "Blobs") and "center" not in s
def density(c):
    rng = c.rng; jobs = list(range(c.n(24)))
    for i in jobs:
        s, d, L, M, k = model(rng, i+int(c.seed)*5); n = int(10**rng.uniform(3.7, 4.9)); agama.setRandomSeed(int(rng.integers(1, 1 << 30)))
        with c.case("density:%s" % k, dict(i=i, n=n, spec=s)):
            X, m = d.sample(n); c.ok(X.shape == (n, 3) and m.shape == (n,), "density:shape"); c.ok(np.isfinite(X).all(), "density:finite"); c.close(m, m[0], "density:equal-masses", 1e-12); c.close(m.sum(), M, "density:total-mass", .012); c.ok((d.density(X) > 0).all(), "density:support")
            ctr = np.array(s.get("center", [0, 0, 0.])); r = np.sqrt(((X-ctr)**2).sum(1)); c.event("samples", n)
            if k not in ("Modified", "Blobs"):
                q = np.quantile(r, [.003, .02, .1, .3, .5, .7, .9, .98, .997]); u = np.array([d.enclosedMass(a) for a in q])/M; f = np.array([np.mean(r <= a) for a in q]); c.close(f, u, "density:enclosed-mass", 0, .008+5.5*np.sqrt(u*(1-u)/n))
            # weights of localised test functions
            for j in range(5):
                x0 = X[rng.integers(n)] if j else ctr+0; w = max(np.sqrt(((x0-ctr)**2).sum()), .2*L)*float(rng.uniform(.3, .8)); dd, dw = sphere(24, 24); rr, rw = glpanels(np.array([0, .02, .1, .3, .6, 1, 1.5, 2.2, 3.5])*w, 10)
                if j == 0 or (k == "Blobs" and np.sqrt(((x0-ctr)**2).sum()) < 2*L): y = (x0+(rr[:, None, None]*dd[None])).reshape(-1, 3); ex = np.sum((d.density(y).reshape(len(rr), -1)@dw)*rr**2*rw*np.exp(-(rr/w)**2)); ex2 = np.sum((d.density(y).reshape(len(rr), -1)@dw)*rr**2*rw*np.exp(-2*(rr/w)**2)); dom = 0
                else:   # cusps: integrate in spherical coordinates about the centre of the model
                    dd, dw = sphere(60, 48); R0 = np.sqrt(((x0-ctr)**2).sum()); rr, rw = glpanels(np.exp(np.linspace(np.log(1e-4*w), np.log(R0+3.5*w), 14)), 10); y = (ctr+(rr[:, None, None]*dd[None])).reshape(-1, 3); D2 = ((y-x0)**2).sum(1)/w**2; rho = d.density(y); ex = np.sum(((rho*np.exp(-D2)).reshape(len(rr), -1)@dw)*rr**2*rw); ex2 = np.sum(((rho*np.exp(-2*D2)).reshape(len(rr), -1)@dw)*rr**2*rw)
                g = np.exp(-((X-x0)**2).sum(1)/w**2); sg = np.sqrt(max(ex2/M-(ex/M)**2, 1e-12)/n); c.close(g.mean(), ex/M, "density:local-weight", .025 if k not in ("Disk", "Ferrers") else .05, 6*sg+1e-3/np.sqrt(n))
            ph = np.arctan2(X[:, 1], X[:, 0])
            if axisym(s): ks(c, ph/(2*pi)+.5, "density:azimuth")
            elif k not in ("Modified", "Blobs"):
                for a in range(3): c.le(abs(np.mean(X[:, a] > 0)-.5), 3/np.sqrt(n), "density:reflection")
            if k not in ("Modified", "Blobs"): c.le(abs(np.mean(X[:, 2] > 0)-.5), 3/np.sqrt(n), "density:z-symmetry")
    for s in (dict(type="NFW"), dict(type="Logarithmic"), dict(type="Spheroid", gamma=3.2, beta=5), dict(type="Spheroid", gamma=1, beta=2.5)):
        with c.case("density:infinite:%s" % s["type"], s):
            try: d = agama.Density(**s)
            except Exception: c.event("rejected"); continue
            c.raises(lambda: d.sample(100), "infinite-mass:%s%s" % (s["type"], s.get("gamma", "")))
    with c.case("density:arguments"):
        d = agama.Density(type="Plummer"); X, m = d.sample(1); c.ok(X.shape == (1, 3), "one"); c.close(m[0], 1, "one-mass", .02)
        c.raises(lambda: d.sample(0), "n0"); c.raises(lambda: d.sample(-3), "n-negative"); c.raises(lambda: d.sample(), "n-missing"); c.raises(lambda: agama.Density(type="Plummer").sample(10, potential=3), "potential-type")
        c.raises(lambda: agama.Density(type="Plummer").sample(10, potential=agama.Potential(type="Plummer"), beta=1.5), "beta>1")
def sphvel(c):
    """Eddington and spherical Jeans methods"""
    rng = c.rng
    for i in range(c.n(8)):
        L, M = logu(rng, 1e-2, 1e2), logu(rng, 1e-2, 1e2); n = int(rng.integers(15000, 60000)); kind = ["Plummer", "Hernquist"][i % 2]; agama.setRandomSeed(int(rng.integers(1, 1 << 30))); s = dict(type="Plummer", mass=M, scaleRadius=L) if i % 2 == 0 else dict(type="Dehnen", gamma=1., mass=M, scaleRadius=L)
        with c.case("eddington:"+kind, dict(i=i, n=n, spec=s)):
            pot = agama.Potential(**s); X, m = agama.Density(**s).sample(n, potential=pot) if i % 4 < 2 else pot.sample(n, potential=pot); c.ok(X.shape == (n, 6), "edd:shape"); x, v = X[:, :3], X[:, 3:]; r = np.sqrt((x**2).sum(1)); V = np.sqrt((v**2).sum(1)); ve = np.sqrt(-2*pot.potential(x)); c.ok((V < ve).all(), "edd:bound")
            q = V/ve
            if i % 2 == 0: u = special.betainc(1.5, 4.5, q**2)     # v^2 (1-q^2)^(7/2)
            else:   # Hernquist 1990 distribution function, tabulated CDF in q at fixed psi
                def fH(e): e = np.clip(e, 0, 1-1e-12); return (3*np.arcsin(np.sqrt(e))+np.sqrt(e*(1-e))*(1-2*e)*(8*e*e-8*e-3))/(1-e)**2.5
                psi = -pot.potential(x)*L/M; gq, u = np.linspace(0, 1, 401), np.empty(n); nod, wt = gl(3); pg = np.linspace(np.sqrt(1e-5), 1, 800)**2*.99999; xx = ((gq[:-1]+gq[1:])/2)[:, None]+(gq[1]-gq[0])/2*nod[None]; tab = []
                for p in pg: cc = np.concatenate([[0], np.cumsum(((fH(p*(1-xx**2))*xx**2)@wt))]); tab.append(cc/cc[-1])
                from scipy.interpolate import RegularGridInterpolator; u = RegularGridInterpolator((pg, gq), np.array(tab), bounds_error=False, fill_value=None)(np.stack([psi, q], 1))
            ks(c, np.clip(u, 0, 1), "edd:speed", .004)
            for lo, hi in ((0, .2), (.2, .5), (.5, .8), (.8, 1)): a, b = np.quantile(r, [lo, hi]); ks(c, np.clip(u[(r >= a) & (r <= b)], 0, 1), "edd:speed-radial-bin", .01)
            for w in (x/r[:, None], np.cross(x/r[:, None], [0, 0, 1.]), np.array([[1., 0, 0]]), np.array([[0, .6, .8]])): w = w/np.sqrt((w**2).sum(1))[:, None]; ks(c, ((v*w).sum(1)/V+1)/2, "edd:isotropic")
            c.event("samples", n)
    for i in range(c.n(8)):
        L, M, beta = logu(rng, 1e-2, 1e2), logu(rng, 1e-2, 1e2), [0., .5, -.5, .3, None, 1., -2.][rng.integers(7)]; beta = float(rng.uniform(-1, .9)) if beta is None else beta; n = int(rng.integers(20000, 60000)); agama.setRandomSeed(int(rng.integers(1, 1 << 30))); g = float(rng.uniform(max(0, 2*beta)+.01, 2.)) if 2*beta < 1.9 else 1.9
        s = dict(type="Dehnen", gamma=min(g, 1.9), mass=M, scaleRadius=L); extra = [dict(type="Plummer", mass=2*M, scaleRadius=3*L)] if rng.random() < .5 else []
        with c.case("jeans-spherical", dict(i=i, n=n, beta=beta, spec=s, extra=extra)):
            d = agama.Density(**s); pot = agama.Potential(s, *extra); X, m = d.sample(n, potential=pot, beta=beta); x, v = X[:, :3], X[:, 3:]; r = np.sqrt((x**2).sum(1)); vr = (x*v).sum(1)/r; vt = np.sqrt(np.maximum(0, (v**2).sum(1)-vr**2)); ve = np.sqrt(-2*pot.potential(x)); c.ok((vr**2+vt**2 <= ve**2*(1+1e-12)).all(), "jeans:bound")
            rg = np.exp(np.linspace(np.log(r.min()*.9), np.log(r.max()*300), 3000)); lw = np.log(rg[1]/rg[0]); z = rg[:, None]*np.array([[0, 0, 1.]]); F = -pot.force(z)[:, 2]; h = d.density(z)*rg**(2*beta)*F*rg; I = np.concatenate([np.cumsum(((h[1:]+h[:-1])*.5*lw)[::-1])[::-1], [0]]); s2 = I/(d.density(z)*rg**(2*beta)); sr = np.sqrt(np.exp(np.interp(np.log(r), np.log(rg[:-1]), np.log(s2[:-1])))); st = sr*np.sqrt(max(0, 2-2*beta))
            a, b = rng.normal(size=(2, n)); a *= sr; b *= st
            for _ in range(100):
                k = a*a+b*b > ve*ve; kn = k.sum()
                if not kn: break
                a[k], b[k] = rng.normal(size=kn)*sr[k], rng.normal(size=kn)*st[k]
            ks2(c, vr/sr, a/sr, "jeans:radial")
            if beta < 1: ks2(c, vt/st, abs(b)/st, "jeans:tangential")
            else: c.le(vt.max(), 1e-6*ve.max(), "jeans:tangential-zero")
            for lo, hi in ((0, .1), (.1, .4), (.4, .7), (.7, .95)):
                q1, q2 = np.quantile(r, [lo, hi]); k = (r >= q1) & (r <= q2); nn = k.sum(); c.close(np.mean((vr/sr)[k]**2), np.mean((a/sr)[k]**2), "jeans:sigma_r", 10/np.sqrt(nn)+.02)
                if beta < 1: c.close(np.mean((vt/st)[k]**2), np.mean((b/st)[k]**2), "jeans:sigma_t", 10/np.sqrt(nn)+.02)
            e = np.cross(x, [0, 0, 1.]); e /= np.sqrt((e**2).sum(1))[:, None]; e2 = np.cross(x/r[:, None], e)
            if beta < 1: ps = np.arctan2((v*e).sum(1), (v*e2).sum(1)); ks(c, ps/(2*pi)+.5, "jeans:tangential-direction")
            c.event("samples", n)
def axivel(c):
    """axisymmetric Jeans method"""
    rng = c.rng
    for i in range(c.n(4)):
        L, M = logu(rng, 1e-2, 1e2), logu(rng, 1e-2, 1e2); beta, kappa = float(rng.uniform(-.2, .4)), float(rng.choice([0, 1, .5, -1])); n = 60000; agama.setRandomSeed(int(rng.integers(1, 1 << 30)))
        s = dict(type="Spheroid", gamma=.3, beta=5., axisRatioZ=float(rng.uniform(.5, .8)), mass=M, scaleRadius=L) if i % 2 else dict(type="Spheroid", gamma=0., beta=4.5, axisRatioZ=float(rng.uniform(.4, .9)), mass=M, scaleRadius=L); ps = [dict(type="MiyamotoNagai", mass=2*M, scaleRadius=L, scaleHeight=.5*L), dict(type="Plummer", mass=3*M, scaleRadius=3*L)] if i % 2 == 0 else [agama.Potential(type="Plummer", mass=M, scaleRadius=2*L), agama.Potential(type="Multipole", density=agama.Density(**s), lmax=12)]
        with c.case("jeans-axisymmetric", dict(i=i, beta=beta, kappa=kappa, spec=s)):
            d = agama.Density(**s); pot = agama.Potential(*ps)
            try: X, m = d.sample(n, potential=pot, beta=beta, kappa=kappa)
            except RuntimeError as e:
                if "x coordinates must be finite (x[1]=nan)" not in str(e): raise
                c.ok(False, "axi:mass-tolerance", "the grid cannot be constructed, because the total mass is overestimated by more than the tail fraction"); continue
            x, v = X[:, :3], X[:, 3:]; R, z = np.hypot(x[:, 0], x[:, 1]), x[:, 2]; vR = (x[:, 0]*v[:, 0]+x[:, 1]*v[:, 1])/R; vp = (x[:, 0]*v[:, 1]-x[:, 1]*v[:, 0])/R; c.ok((.5*(v**2).sum(1)+pot.potential(x) <= 0).all(), "axi:bound")
            def rs2(R0, z0):   # rho sigma_z^2
                e = np.exp(np.linspace(-3, np.log(300), 8)); zz, w = glpanels(np.concatenate([[0], e])*np.hypot(R0, .3*L), 10); p = np.stack([np.full_like(zz, R0), zz*0, z0+zz], 1); return np.sum(w*d.density(p)*-pot.force(p)[:, 2])
            b = 1/(1-beta)
            for R0, z0 in ((.3, .2), (.6, .1), (1., .5), (1.5, .2), (.8, 1.), (2.5, .8)):
                R0, z0 = R0*L, z0*L; k = (abs(R/R0-1) < .2) & (abs(abs(z)-z0) < .2*max(z0, .4*R0)); nn = k.sum()
                if nn < 300: continue
                Rm, zm = R[k].mean(), abs(z[k]).mean(); rho = d.density(Rm, 0, zm); h = 1e-3*Rm; s2 = rs2(Rm, zm); vz2 = s2/rho; vR2 = vz2*b; F, D = pot.forceDeriv(Rm, 0, zm) if False else (pot.force(Rm, 0, zm), None); dR = (rs2(Rm+h, zm)-rs2(Rm-h, zm))/(2*h); vp2 = b*(Rm*dR+s2)/rho-Rm*F[0]
                h2 = 1e-3*Rm; fRR = -(pot.force(Rm+h2, 0, zm)[0]-pot.force(Rm-h2, 0, zm)[0])/(2*h2); k2 = .75+.25*Rm*fRR/-F[0]; mv = kappa*np.sqrt(max(0, vp2-vR2*k2)); tr = 12/np.sqrt(nn)+.06
                # only where truncation at the escape velocity is unimportant
                tru = np.exp(-.5*(-2*pot.potential(Rm, 0, zm))/max(vR2, vp2-mv**2)); tr += 15*tru
                if tr > .5: continue
                c.close(np.mean(v[k, 2]**2), vz2, "axi:vz2", tr); c.close(np.mean(vR[k]**2), vR2, "axi:vR2", tr); c.close(np.mean(vp[k]**2), max(vp2, mv**2), "axi:vphi2", tr+.04); c.close(np.mean(vp[k]), mv, "axi:vphi", 0, tr*np.sqrt(max(vp2, 0))*.8); c.event("bins")
                c.le(abs(np.mean(vR[k])), 6*np.sqrt(vR2/nn), "axi:mean-vR"); c.le(abs(np.mean(v[k, 2])), 6*np.sqrt(vz2/nn), "axi:mean-vz")
def galmodel(c):
    from C11 import GM
    rng = c.rng
    for i in range(c.n(5)):
        m = GM(rng, "sph" if i % 2 else "axi", [None, None, "spatial", "velocity"][i % 4], ncomp=int(rng.integers(1, 3))); n = int(rng.integers(15000, 40000)); seed = int(rng.integers(1, 1 << 30)); agama.setRandomSeed(seed)
        with c.case("model:"+m.kind, dict(m.par, i=i, n=n, seed=seed)):
            X, w = m.model.sample(n); c.ok(X.shape == (n, 6) and np.isfinite(X).all(), "model:shape"); c.close(w, w[0], "model:equal-masses", 1e-10); tot = m.model.totalMass()
            if m.kind == "sph" and any("r_a" in d for d in m.dpar) and not tot < 1.5*m.df.totalMass(): c.ok(False, "totalmass-om-radial-spike", "totalMass=%g" % tot); continue
            c.close(w.sum(), tot, "model:total-mass", .03); x, v = X[:, :3], X[:, 3:]; c.ok((m.pot.potential(x)+.5*(v**2).sum(1) < 0).all(), "model:bound"); c.event("samples", n)
            # local weights with velocity moments, in spheres around typical points
            for j in range(4):
                x0 = X[rng.integers(n), :3]; r0 = np.sqrt((x0**2).sum()); hw = max(r0, .3*m.L)*.35; axi = m.sfi is None
                Rz = np.stack([np.hypot(x[:, 0], x[:, 1]), abs(x[:, 2])], 1) if axi else x; p0 = np.array([np.hypot(x0[0], x0[1]), abs(x0[2])]) if axi else x0
                if not axi: k = ((x-x0)**2).sum(1) < hw**2
                else: k = ((Rz-p0)**2).sum(1) < hw**2
                nn = k.sum()
                if nn < 250: continue
                # reference: a set of quadrature points inside the same region
                if axi: rr, rw = glint(0, hw, 5); th = (np.arange(8)+.5)*pi/4; q = p0+np.stack([np.outer(rr, np.cos(th)), np.outer(rr, np.sin(th))], -1).reshape(-1, 2); W = np.repeat(rw*rr, 8)*2*pi/8*2*pi*abs(q[:, 0])*2*((q[:, 0] >= 0) & (q[:, 1] >= 0)); q = np.stack([abs(q[:, 0]), 0*q[:, 0], abs(q[:, 1])], 1)
                else: rr, rw = glint(0, hw, 4); dd, dw = sphere(5, 8); q = x0+(rr[:, None, None]*dd[None]).reshape(-1, 3); W = ((rw*rr**2)[:, None]*dw[None]).ravel()
                if axi and (p0 < hw).any():   # the disc of the (R,z) plane crosses an axis: brute-force midpoint rule
                    gx = (np.arange(14)+.5)/14*2*hw-hw; A, B = np.meshgrid(p0[0]+gx, p0[1]+gx, indexing="ij"); g = ((A-p0[0])**2+(B-p0[1])**2 < hw**2) & (A > 0) & (B > 0); q = np.stack([A[g], 0*A[g], B[g]], 1); W = np.full(g.sum(), (2*hw/14)**2)*2*pi*A[g]*2
                ro, ve, v2 = m.model.moments(q, dens=True, vel=True, vel2=True); ex = np.sum(W*ro)/tot; c.close(nn/n, ex, "model:local-weight", .06 if not (axi and (p0 < hw).any()) else .12, 6*np.sqrt(ex/n))
                vv = np.sum((W*ro)[:, None]*v2, 0)/np.sum(W*ro); mv = np.sum((W*ro)[:, None]*ve, 0)/np.sum(W*ro); sd = np.sqrt(vv[:3].sum()); vk = v[k]
                if axi: xk = x[k]; Rk = np.hypot(xk[:, 0], xk[:, 1]); vk = np.stack([(xk[:, 0]*vk[:, 0]+xk[:, 1]*vk[:, 1])/Rk, (xk[:, 0]*vk[:, 1]-xk[:, 1]*vk[:, 0])/Rk, vk[:, 2]], 1)
                c.close(vk.mean(0), mv, "model:mean-velocity", 0, sd*(6/np.sqrt(nn)+.04)); c.close((vk**2).mean(0), vv[:3], "model:velocity-dispersion", 0, sd**2*(8/np.sqrt(nn)+.05)); c.event("bins")
def seed(c):
    rng = c.rng
    L = dict(ndim=lambda: agama.sampleNdim(lambda x: np.exp(-((x-.4)**2).sum(1)*20), 3000, 3)[0], density=lambda: agama.Density(type="Dehnen", gamma=1, axisRatioZ=.6).sample(2000)[0], eddington=lambda: agama.Density(type="Plummer").sample(2000, potential=agama.Potential(type="Plummer"))[0],
        jeans=lambda: agama.Density(type="Plummer").sample(2000, potential=agama.Potential(type="Plummer"), beta=.2)[0], axi=lambda: agama.Density(type="MiyamotoNagai", scaleHeight=.5).sample(2000, potential=agama.Potential(type="MiyamotoNagai", scaleHeight=.5), beta=.1, kappa=1)[0],
        df=lambda: agama.DistributionFunction(type="DoublePowerLaw", norm=1, J0=1, slopeIn=1, slopeOut=5).totalMass() if False else agama.GalaxyModel(agama.Potential(type="Plummer"), agama.DistributionFunction(type="QuasiSpherical", potential=agama.Potential(type="Plummer"))).sample(1000)[0])
    for k, f in L.items():
        sd = int(rng.integers(1, 1 << 31)); 
        with c.case("seed:"+k, dict(seed=sd)):
            agama.setRandomSeed(sd); a = f(); a2 = f(); agama.setRandomSeed(sd); b = f(); c.ok(np.array_equal(a, b), "seed:reproducible:"+k); c.ok(not np.array_equal(a, a2), "seed:second-call-differs:"+k); agama.setRandomSeed(sd+1); b = f(); c.ok(not np.array_equal(a, b), "seed:different-seed:"+k)
            for nt in (1, 2, 3, 5, 8):
                with agama.setNumThreads(nt): agama.setRandomSeed(sd); b = f()
                c.ok(np.array_equal(a, b), "seed:threads:"+k, "%d threads: %d rows differ" % (nt, np.sum((a != b).any(1))))
            d = []
            for t in range(3): agama.setRandomSeed(int(rng.integers(1, 1 << 31))); d.append(f())
            c.ok(not np.array_equal(d[0], d[1]) and not np.array_equal(d[1], d[2]), "seed:distinct:"+k)
GROUPS = dict(ndim=dict(fn=ndim, cost=20), density=dict(fn=density, cost=30, threads=2), sphvel=dict(fn=sphvel, cost=15), axivel=dict(fn=axivel, cost=15, threads=2), galmodel=dict(fn=galmodel, cost=60, threads=4), seed=dict(fn=seed, cost=10, threads=4),
  generators=dict(cpp="c12_random", args=["generators"], cost=10), lowlevel=dict(cpp="c12_random", args=["lowlevel"], cost=10))
