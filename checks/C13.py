import os, numpy as np
from common import *
from scipy import interpolate
if not os.environ.get("VERIF_META_ONLY"):
    from vh import Skip
RULE = ("random grids (uniform, geometric, irregular, 2-20 nodes, any offset and scale) x random data (smooth, noisy, stepped, monotone, zero) x every interpolator class in 1-3 dimensions; noisy data sets for penalised fits; "
  "samples of known densities for the log-density spline; random velocity profiles for Gauss-Hermite expansions; a case is one constructed object, probed at nodes, inside segments, at one-sided limits, and outside the grid")
ASSUMPTIONS = ["convolution with a kernel is judged where the expansion in monomials about the origin is well-conditioned (documented approach); quartic root finding within splines is judged for segments of comparable scale"]
class NatBasis:
    """independent natural cubic spline basis with linear extrapolation"""
    def __init__(self, k):
        self.k = k; n = len(k); self.cs = [interpolate.CubicSpline(k, e, bc_type="natural") for e in np.eye(n)] if n > 2 else None; self.n = n
        h = np.diff(k); self.d2 = np.array([c(k, 2) for c in self.cs]).T if n > 2 else np.zeros((n, n)); self.R = np.zeros((n, n))
        for i in range(n-1): a, b = self.d2[i], self.d2[i+1]; self.R += h[i]*(np.outer(a, a)+np.outer(b, b)+.5*(np.outer(a, b)+np.outer(b, a)))/3
    def __call__(self, x):
        k = self.k; x = np.asarray(x, float)
        if self.n == 2: t = (x-k[0])/(k[1]-k[0]); return np.stack([1-t, t], -1)
        xc = np.clip(x, k[0], k[-1]); return np.stack([c(xc)+c(xc, 1)*(x-xc) for c in self.cs], -1)
def approx(c):
    rng = c.rng
    for i in range(c.n(150)):
        n = int(rng.integers(4, 14)); k = np.cumsum(np.exp(rng.normal(size=n)*.5)); k = (k-k[0])/(k[-1]-k[0])*logu(rng, .01, 100)+rng.normal()*3; L = k[-1]-k[0]; N = int(rng.integers(3*n, 400)); x = k[0]+L*rng.uniform(-.05, 1.05, N); amp = logu(rng, .01, 100)
        f = amp*np.sin(rng.uniform(1, 9)*(x-k[0])/L+rng.uniform(0, 6)); y = f+amp*rng.uniform(.02, .5)*rng.normal(size=N); w = None if rng.random() < .5 else np.exp(rng.normal(size=N)); W = np.ones(N) if w is None else w
        with c.case("approx:%s" % ("w" if w is not None else "plain"), dict(i=i, knots=k, N=N)):
            kw = {} if w is None else dict(w=w); B = NatBasis(k); M = B(x); C = (M.T*W)@M; z = M.T@(W*y); S = np.abs(y).max(); tt = np.linspace(k[0]-.3*L, k[-1]+.3*L, 60); ti = np.linspace(k[0], k[-1], 60)
            if np.linalg.cond(C) > 1e7: raise Skip()
            fit = lambda yy=y, xx=x, **a: agama.splineApprox(k, xx, yy, **dict(kw, **a))
            s0 = fit(smooth=None); a0 = np.linalg.solve(C, z); c.ok(np.allclose([s0[j] for j in range(len(s0))], k), "approx:knots"); c.close(s0(k), a0, "approx:least-squares", 1e-5, 1e-5*S); c.close(s0(tt), B(tt)@a0, "approx:is-natural-spline", 1e-5, 1e-5*S)
            sol = lambda lam: np.linalg.solve(C+lam*B.R, z)
            def gcv(lam): H = np.linalg.solve(C+lam*B.R, C); e = np.trace(H); a = sol(lam); r = np.sum(W*(y-M@a)**2); Wn = 1 if w is None else 1; return np.log(r)-2*np.log(N-e), e
            base = np.abs(C).max()/np.abs(B.R).max()
            def lamof(s):
                a = s(k); g = z-C@a; r = B.R@a
                if np.abs(r).max() <= 1e-6*np.abs(B.R).max()*np.abs(a-a.mean()).max(): return base*1e12   # practically linear: lambda is undetermined
                lam = (g@r)/(r@r) if r@r > 0 else 0.; c.close(g, lam*r, "approx:stationary", 1e-5, 1e-5*np.abs(z).max()); c.ok(lam >= -1e-7*np.abs(C).max()/max(np.abs(B.R).max(), 1e-300), "approx:lambda-positive", "%g" % lam); return max(lam, 0)
            for _ in range(2):   # prescribed number of degrees of freedom
                edf = float(rng.uniform(2.2, n-.2)); s = fit(smooth=-edf); lam = lamof(s); c.close(gcv(lam)[1], edf, "approx:edf", 2e-3)
            l2 = fit(smooth=-2.); A = np.stack([np.ones(N), x-k[0]], 1); lr = np.linalg.solve((A.T*W)@A, A.T@(W*y)); c.close(l2(tt), lr[0]+lr[1]*(tt-k[0]), "approx:linear-regression", 1e-4, 1e-4*S)
            so = fit(); lo = lamof(so); g = gcv(lo)[0]; scan = np.array([gcv(base*10**e)[0] for e in np.arange(-8, 8, .25)]); dd = np.sign(np.diff(scan)*(np.abs(np.diff(scan)) > 1e-7)); dd = dd[dd != 0]; uni = np.sum(np.diff(dd) != 0) == 1 and dd[0] < 0
            if uni: c.le(g, min(scan)+1e-2, "approx:optimal-gcv")
            sm = float(rng.uniform(.1, 2)); s1 = fit(smooth=sm); l1 = lamof(s1); g1 = gcv(l1)[0]
            lin = gcv(base*1e12)[0]
            if lin > g+sm+.05: c.close(g1-g, sm, "approx:oversmooth", 2e-2, 2e-2); c.ok(l1 >= lo, "approx:smoother")
            else: c.close(s1(tt), lr[0]+lr[1]*(tt-k[0]), "approx:oversmooth-limit", .05, .05*S)
            if not uni: continue
            p = rng.permutation(N); kw2 = {} if w is None else dict(w=w[p]); cl = lambda A, B, key: c.le(np.mean(np.abs(A-B)), .1*S, key); cl(agama.splineApprox(k, x[p], y[p], **kw2)(ti), so(ti), "approx:permutation"); cl(.5-.5*fit(-2*y+1)(ti), so(ti), "approx:linear-in-y")
            if w is None: ww = rng.integers(1, 4, N).astype(float); c.close(agama.splineApprox(k, x, y, w=ww, smooth=None)(tt), agama.splineApprox(k, np.repeat(x, ww.astype(int)), np.repeat(y, ww.astype(int)), smooth=None)(tt), "approx:weights-as-duplicates", 1e-6, 1e-6*S); cl(agama.splineApprox(k, x, y, w=np.full(N, 3.))(ti), so(ti), "approx:weight-scale")
            c.raises(lambda: agama.splineApprox(k, x, y[:-1]), "approx:size"); c.raises(lambda: agama.splineApprox(k[::-1], x, y), "approx:grid")
            if w is not None: c.raises(lambda: agama.splineApprox(k, x, y, w=w[:-1]), "approx:weight-size")
def logdens(c):
    rng = c.rng
    for i in range(c.n(100)):
        kind = ["gauss", "expo", "uniform", "bimodal"][rng.integers(4)]; N = int(logu(rng, 1000, 20000)); sc, off = logu(rng, .01, 100), rng.normal()*5
        u = {"gauss": lambda: rng.normal(size=N), "expo": lambda: rng.exponential(size=N), "uniform": lambda: rng.uniform(0, 1, N), "bimodal": lambda: np.where(rng.random(N) < .4, rng.normal(size=N)*.5-2, rng.normal(size=N)+1)}[kind]()
        pdf = {"gauss": lambda t: np.exp(-t*t/2)/np.sqrt(2*pi), "expo": lambda t: np.exp(-t), "uniform": lambda t: t*0+1., "bimodal": lambda t: (.8*np.exp(-2*(t+2)**2)+.6*np.exp(-(t-1)**2/2))/np.sqrt(2*pi)}[kind]
        iL, iR = {"gauss": (True, True), "expo": (False, True), "uniform": (False, False), "bimodal": (True, True)}[kind]; lo, hi = {"gauss": (-3, 3), "expo": (0, 6), "uniform": (0, 1), "bimodal": (-3.5, 3.5)}[kind]
        n = int(rng.integers(6, 16)); k = np.linspace(lo, hi, n); 
        if rng.random() < .4: k[1:-1] += rng.uniform(-.3, .3, n-2)*(k[1]-k[0])
        iw = rng.random() < .4; w = rng.uniform(.5, 1.5, N)*logu(rng, .1, 10) if iw else None; W = np.full(N, 1./N) if w is None else w; d3 = bool(rng.random() < .4); sm = 0. if rng.random() < .6 else float(rng.uniform(.3, 3))
        with c.case("logdens:%s" % kind, dict(i=i, N=N, n=n, der3=d3, smooth=sm, scale=sc, offset=off)):
            K, X = off+sc*k, off+sc*u; kw = dict(infLeft=iL, infRight=iR, der3=d3, smooth=sm); kw.update({} if w is None else dict(w=w)); s = agama.splineLogDensity(K, X, **kw)
            use = np.ones(N, bool)
            if not iL: use &= X >= K[0]
            if not iR: use &= X <= K[-1]
            a, b = K[0], K[-1]; q, qw = glpanels(np.linspace(a, b, 4*n), 12); P = np.exp(s(q)); dl, dr = float(s(a, der=1)), float(s(b, der=1)); tot = np.sum(P*qw)
            if iL: c.ok(dl > 0, "logdens:declining-left"); tot += np.exp(s(a))/dl
            if iR: c.ok(dr < 0, "logdens:declining-right"); tot -= np.exp(s(b))/dr
            c.close(tot, W[use].sum(), "logdens:normalisation", 1e-5); c.close(s(a, der=2), 0, "logdens:natural-left", 0, 1e-9*np.abs(s(K, der=2)).max()); c.close(s(b, der=2), 0, "logdens:natural-right", 0, 1e-9*np.abs(s(K, der=2)).max())
            # close to the true density: statistical error of a spline fit
            t = np.linspace(lo, hi, 41)[2:-2]; D = np.abs(np.exp(s(off+sc*t))*sc/W[use].sum()-pdf(t)); c.le(np.mean(D), (.02+3*np.sqrt(n/N)+.05*(sm > 0))*pdf(t).max()*(1 if n > 9 or kind != "bimodal" else 3), "logdens:accuracy")
            # conserved moments: the penalty does not act on linear (quadratic) functions
            Bq = NatBasis((K-off)/sc); un, qn = (X[use]-off)/sc, (q-off)/sc
            def mom(p):
                m = np.sum(P*qn**p*qw); ka, kb = (a-off)/sc, (b-off)/sc
                for inf, d, e, sg in ((iL, dl*sc, ka, 1), (iR, dr*sc, kb, -1)):
                    if inf: A = np.exp(s(a if sg > 0 else b))*sc; d = abs(d); m += A*(1/d if p == 0 else e/d-sg/d**2)
                return m
            m1 = np.sum(W[use]*un); c.close(mom(1), m1, "logdens:mean", 1e-4, 2e-4*W[use].sum())
            # stationarity of the penalised likelihood
            if not d3:
                x = un; G = Bq(x).T@W[use]; T = (Bq(qn).T*qw)@P
                for inf, d, e, sg in ((iL, dl*sc, k[0], 1), (iR, dr*sc, k[-1], -1)):
                    if inf: A = np.exp(s(a if sg > 0 else b))*sc; d = abs(d); b0 = Bq(e); b1 = (Bq(e-sg*1.)-b0); T = T+A*(b0/d+b1/d**2)
                g = G-T; r = Bq.R@s(K); lam = (g@r)/(r@r) if r@r > 0 else 0; c.close(g, lam*r, "logdens:stationary", 2e-2, 3e-5*W[use].sum(), info="lam=%g" % lam); c.ok(lam > -1e-6, "logdens:lambda-positive", str(lam))
            # covariance: scaling of coordinates and weights, permutation
            kk = dict(kw); s2 = agama.splineLogDensity(k, u, **kk); cl = lambda p, q, key: c.le(np.sum(np.abs(np.exp(p)-np.exp(q))), .3*np.sum(np.exp(q)), key) if N > 100*n else None; cl(s2(k), s(K)+np.log(sc), "logdens:scaling")
            p = rng.permutation(N)
            if w is not None: kk["w"] = w[p]
            c.close(agama.splineLogDensity(K, X[p], **kk)(K), s(K), "logdens:permutation", 1e-4, 1e-4)
            if w is not None and sm == 0: kk["w"] = w*7; c.close(agama.splineLogDensity(K, X, **kk)(K), s(K)+np.log(7.), "logdens:weight-scale", 1e-3, 1e-3)
            if sm == 0: m = agama.splineLogDensity(-K[::-1], -X, **dict(kw, infLeft=iR, infRight=iL)); cl(m(-K), s(K), "logdens:mirror")
            c.raises(lambda: agama.splineLogDensity(K[::-1], X), "logdens:grid"); c.raises(lambda: agama.splineLogDensity(K, X, w=-np.ones(N)), "logdens:negative-weights"); c.raises(lambda: agama.splineLogDensity(K, X, w=np.ones(N-1)), "logdens:size")
def herm(m, y):
    h = [np.ones_like(y), np.sqrt(2.)*y]
    for j in range(2, m+1): h.append((np.sqrt(2.)*y*h[-1]-np.sqrt(j-1.)*h[-2])/np.sqrt(j))
    return np.array(h[:m+1])
def gh(c):
    rng = c.rng
    for i in range(c.n(200)):
        D = int(rng.integers(0, 4)); V = logu(rng, 10, 1000); n = int(rng.integers(12, 40)); g = np.linspace(-V, V, n); 
        if rng.random() < .3: g = np.sort(g+rng.uniform(-.3, .3, n)*(g[1]-g[0]))
        nb = n+D-1; nap = int(rng.integers(1, 4)); rows = []; mean, sig = rng.uniform(-.2, .2, nap)*V, rng.uniform(.15, .25, nap)*V; ctr = (g[1:]+g[:-1])/2 if D == 0 else np.array([np.mean(np.clip(np.arange(j-D+1, j+1), 0, n-1)) for j in range(nb)]); ctr = ctr if D == 0 else np.interp(ctr, np.arange(n), g)
        for a in range(nap): rows.append(logu(rng, .1, 10)*np.exp(-.5*((ctr-mean[a])/sig[a])**2)*(1+.2*np.tanh((ctr-mean[a])/sig[a])*rng.normal()+.05*rng.normal(size=nb)*0)/sig[a])
        A = np.array(rows); order = int(rng.integers(2, 9))
        with c.case("gh:%d" % D, dict(i=i, degree=D, n=n, order=order)):
            q, w = glpanels(g, 24); L = [agama.Spline(g, ampl=A[a])(q) if D > 0 else A[a][np.clip(np.searchsorted(g, q)-1, 0, n-2)] for a in range(nap)]; H = lambda f, b: np.array([np.sum(w*f*h*np.exp(-.5*((q-b[1])/b[2])**2)) for h in herm(order, (q-b[1])/b[2])])*np.sqrt(2.)/b[0]
            r = agama.ghMoments(degree=D, gridv=g, matrix=A.ravel(), ghorder=order).reshape(nap, order+4)
            for a in range(nap):
                b = r[a, :3]; c.close(r[a, 3], 1, "gh:h0", 1e-3); c.close(r[a, 4:6], 0, "gh:h1h2", 0, 2e-3); c.close(b[1], mean[a], "gh:center", 0, .5*sig[a]+V/n); c.close(b[2], sig[a], "gh:width", .3, V/n); c.close(r[a, 3:], H(L[a], b), "gh:moments", 2e-3, 2e-3)
                f = agama.ghInterp(b[0], b[1], b[2], r[a, 3:], q); y = (q-b[1])/b[2]; ref = b[0]/b[2]/np.sqrt(2*pi)*np.exp(-y*y/2)*(r[a, 3:]@herm(order, y)); c.close(f, ref, "gh:interp", 1e-7, 1e-7*np.abs(ref).max())
            B = np.stack([rng.uniform(.5, 2, nap), mean+sig*rng.uniform(-.3, .3, nap), sig*rng.uniform(.7, 1.3, nap)], 1); M = np.array([A.ravel(), (A[::-1]*.3).ravel()]); m = agama.ghMoments(degree=D, gridv=g, matrix=M, ghorder=order, ghbasis=B); c.ok(m.shape == (2, nap*(order+1)), "gh:shape"); m1 = agama.ghMoments(degree=D, gridv=g, matrix=A.ravel(), ghorder=order, ghbasis=B); c.ok(m1.shape == (nap*(order+1),), "gh:shape1"); c.close(m[0], m1, "gh:rows", 1e-12, 1e-13)
            for a in range(nap): c.close(m1.reshape(nap, -1)[a], H(L[a], B[a]), "gh:moments-basis", 5e-3, 5e-3*np.abs(H(L[a], B[a])).max())
            c.close(agama.ghMoments(degree=D, gridv=g, matrix=2*M[0]-3*M[1], ghorder=order, ghbasis=B), 2*m[0]-3*m[1], "gh:linear", 1e-6, 1e-6*np.abs(m).max())
            c.raises(lambda: agama.ghMoments(degree=4, gridv=g, matrix=A.ravel(), ghorder=order), "gh:degree"); c.raises(lambda: agama.ghMoments(degree=D, gridv=g, matrix=A.ravel()[:-1], ghorder=order), "gh:size"); c.raises(lambda: agama.ghMoments(degree=D, gridv=g, matrix=M, ghorder=order, ghbasis=B[:, :2]), "gh:basis")
def pyspline(c):
    """the Python wrapper: argument combinations, shapes, derivative index, ext, conv, integrals, len/[]"""
    rng = c.rng
    for i in range(c.n(150)):
        n = int(rng.integers(3, 15)); x = np.cumsum(np.exp(rng.normal(size=n)*.6))-2; y = rng.normal(size=n); d = rng.normal(size=n); L = x[-1]-x[0]
        with c.case("py", dict(i=i, x=x, y=y)):
            t = rng.uniform(x[0], x[-1], (3, 4)); l, r = rng.normal(size=2)
            for key, s, ref in (("natural", agama.Spline(x, y), interpolate.CubicSpline(x, y, bc_type="natural")), ("clamped", agama.Spline(x, y, left=l, right=r), interpolate.CubicSpline(x, y, bc_type=((1, l), (1, r)))), ("left", agama.Spline(x, y, left=l), interpolate.CubicSpline(x, y, bc_type=((1, l), (2, 0.)))), ("right", agama.Spline(x, y, right=r), interpolate.CubicSpline(x, y, bc_type=((2, 0.), (1, r)))), ("hermite", agama.Spline(x, y, der=d, quintic=False), interpolate.CubicHermiteSpline(x, y, d))):
                c.ok(s(t).shape == t.shape and np.ndim(s(t[0, 0])) == 0, "py:shape"); c.ok(len(s) == n and s[0] == x[0] and s[n-1] == x[-1] and s[-1] == x[-1], "py:sequence")
                for o in range(4): c.close(s(t, der=o), ref(t, o), "py:%s:der%d" % (key, o), 1e-8, 1e-9*np.abs(y).max()*20**o); c.close(s(t, o), s(t, der=o), "py:positional", 0)
                c.close(s(x[0]-1., ext=7.), 7., "py:ext", 0); c.close(s(t, ext=7.), s(t), "py:ext-inside", 0); c.close(s(x[-1]+2.), ref(x[-1])+2*ref(x[-1], 1), "py:extrapolate", 1e-9, 1e-9)
                s2 = agama.Spline(x, rng.normal(size=n))
                sg = L*.4; qq, ww = glpanels(np.concatenate([np.linspace(x[j], x[j+1], 5)[:-1] for j in range(n-1)]+[[x[-1]]]), 12); cv = lambda p: np.sum(ww*ref(qq)*np.exp(-.5*((p-qq)/sg)**2)/np.sqrt(2*pi)/sg); p = rng.uniform(x[0]-L/2, x[-1]+L/2, 4); c.close(s(p, conv=sg), [cv(v) for v in p], "py:conv", 1e-6, 1e-6); c.close(s(p, conv=np.full(4, sg)), [cv(v) for v in p], "py:conv-array", 1e-6, 1e-6)
                rts = s.roots(); c.close(s(rts), 0*rts, "py:roots", 0, 1e-8); sc = np.sign(ref(np.linspace(x[0], x[-1], 2000))); c.ok(len(rts) >= np.sum(np.diff(sc) != 0), "py:roots-number"); yv = float(ref(rng.uniform(x[0], x[-1]))); c.close(s(s.roots(yv)), yv+0*s.roots(yv), "py:roots-y", 0, 1e-8); ex = s.extrema(); c.ok(abs(s(ex)).max() >= abs(ref(np.linspace(x[0], x[-1], 500))).max()-1e-8, "py:extrema")
            for D in range(4):
                A = rng.normal(size=n+D-1); s = agama.Spline(x, ampl=A); kn = np.concatenate([np.full(D, x[0]), x, np.full(D, x[-1])]); ref = interpolate.BSpline(kn, A, D)
                c.close(s(t), ref(t), "py:bspline%d" % D, 1e-9, 1e-10); c.ok(np.isnan(s(x[0]-.1)) and np.isnan(s(x[-1]+.1)), "py:bspline-outside");
            c.raises(lambda: agama.Spline(x, y, ampl=y), "py:conflict"); c.raises(lambda: agama.Spline(x, y[:-1]), "py:size"); c.raises(lambda: agama.Spline(x, ampl=np.ones(n+4)), "py:ampl-size"); c.raises(lambda: agama.Spline(x[::-1], y), "py:order"); c.raises(lambda: s(t, der=4), "py:der4"); c.raises(lambda: agama.Spline(x, y, der=d, left=1.), "py:der-left")
GROUPS = dict(one=dict(cpp="c13_spline", args=["one"], cost=10), loglog=dict(cpp="c13_spline", args=["loglog"], cost=3), bspline=dict(cpp="c13_spline", args=["bspline"], cost=10), multi=dict(cpp="c13_spline", args=["multi"], cost=3), grids=dict(cpp="c13_spline", args=["grids"], cost=3),
  approx=dict(fn=approx, cost=10), logdens=dict(fn=logdens, cost=12), gh=dict(fn=gh, cost=8), pyspline=dict(fn=pyspline, cost=8))
