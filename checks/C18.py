import os
RULE = ("random targets of every type (classic, spherical-harmonic and cylindrical density grids, kinematic shells, line-of-sight velocity cubes with random orientation, symmetry, spatial and velocity smoothing, polygonal apertures, spline degree, symmetric or "
  "shifted grids) x random analytic densities, weighted point sets, orbits in random potentials, and particle blobs; linear programs with equality constraints, bounds and penalties; random pixel maps for apertures")
ASSUMPTIONS = ["stored values are single precision", "velocity cubes are compared by aperture-integrated moments of order 0..2 with 2% of the largest value, because a B-spline datacube smooths at the scale of its grid; grids have a spacing below 0.6 of the smoothed structure",
  "application of targets to a GalaxyModel is judged only for one small configuration per run (it takes minutes for velocity cubes)", "quadratic optimisation is not available in this build"]
if not os.environ.get("VERIF_META_ONLY"):
    import numpy as np, agama, common as cm, math, tempfile
    from vh import Skip
    from scipy.stats import qmc, norm

def _grid(rng, n, a, b):
    g = np.sort(cm.logu(rng, a, b) * np.exp(rng.normal(size=n) * .5)) if False else np.cumsum(rng.uniform(.3, 1.7, n)); return g / g[-1] * cm.logu(rng, a, b)

def _pick(rng, l): return l[int(rng.integers(len(l)))]

def _spec(rng):
    t = _pick(rng, ["DensityClassicTopHat", "DensityClassicLinear", "DensitySphHarm", "DensityCylindricalTopHat", "DensityCylindricalLinear"])
    g = _grid(rng, rng.integers(2, 9), .3, 10)
    p = dict(type=t, gridr=np.hstack(([0.], g)) if rng.random() < .5 else g)
    if "Classic" in t: p.update(stripsPerPane=int(rng.integers(1, 5)), axisRatioY=rng.uniform(.4, 1.2), axisRatioZ=rng.uniform(.3, 1.2)) if rng.random() < .7 else p.update(stripsPerPane=int(rng.integers(1, 4)))
    elif t == "DensitySphHarm": l = 2 * int(rng.integers(0, 5)); p.update(lmax=l, mmax=2 * int(rng.integers(0, l // 2 + 1)))
    else:
        z = _grid(rng, rng.integers(2, 7), .2, 6); p.update(gridz=np.hstack(([0.], z)) if rng.random() < .5 else z, mmax=2 * int(rng.integers(0, 4)))
    return p

def _desc(p): return {k: (v.tolist() if hasattr(v, "tolist") else v) for k, v in p.items()}

def _oracle(p, x, m):
    """independent evaluation of the projections of point masses onto the basis functions; None for orderings not reconstructed"""
    g = p["gridr"]; g = g[1:] if g[0] == 0 else g; n = len(g); t = p["type"]
    if t == "DensityClassicTopHat":
        s = p["stripsPerPane"]; q = (p.get("axisRatioY", 1.) * p.get("axisRatioZ", 1.))**(1/3.); X = np.abs(x) / np.array([1/q, p.get("axisRatioY", 1.)/q, p.get("axisRatioZ", 1.)/q]); r = (X**2).sum(1)**.5
        pane = np.argmax(X, 1); I = np.arange(len(x)); a, b, c = X[I, pane], X[I, (pane+1) % 3], X[I, (pane+2) % 3]; i1 = np.minimum((np.arctan(b/a)*4/np.pi*s).astype(int), s-1); i2 = np.minimum((np.arctan(c/a)*4/np.pi*s).astype(int), s-1)
        sh = np.searchsorted(g, r, side="right"); ok = sh < n; out = np.zeros(3*s*s*n); np.add.at(out, (i1 + (i2 + pane*s)*s + sh*3*s*s)[ok], m[ok]); return out
    def hat(v, nodes):   # linear interpolation weights on nodes (first one at zero)
        W = np.zeros((len(v), len(nodes)));
        for k in range(len(nodes)): e = np.zeros(len(nodes)); e[k] = 1; W[:, k] = np.interp(v, nodes, e, left=0, right=0)
        return W * (v <= nodes[-1])[:, None]
    if t == "DensitySphHarm":
        r = (x**2).sum(1)**.5; W = hat(r, np.hstack((0, g))); ct = x[:, 2] / r; ph = np.arctan2(x[:, 1], x[:, 0]); out = []
        from scipy.special import lpmv
        for mm in range(0, p["mmax"]+1, 2):
            for l in range(mm, p["lmax"]+1, 2):
                Y = lpmv(mm, l, ct) * math.sqrt((2*l+1) * math.factorial(l-mm) / math.factorial(l+mm)) * (1 if mm == 0 else math.sqrt(2) * np.cos(mm*ph)); row = (W * (Y*m)[:, None]).sum(0); out.append(row if l == 0 else row[1:])
        return np.hstack(out)
    if "Cyl" in t:
        z = p["gridz"]; z = z[1:] if z[0] == 0 else z; R = np.hypot(x[:, 0], x[:, 1]); Z = np.abs(x[:, 2]); ph = np.arctan2(x[:, 1], x[:, 0]); out = []
        for mm in range(0, p["mmax"]+1, 2):
            w = m * (1 if mm == 0 else 2*np.cos(mm*ph))
            if "TopHat" in t:
                A = np.zeros((len(z), n)); iR = np.searchsorted(g, R, side="right"); iz = np.searchsorted(z, Z, side="right"); k = (iR < n) & (iz < len(z)); np.add.at(A, (iz[k], iR[k]), w[k]); out.append(A.ravel())
            else:
                A = np.einsum("i,ij,ik->kj", w, hat(R, np.hstack((0, g))), hat(Z, np.hstack((0, z)))); out.append(A[:, (0 if mm == 0 else 1):].ravel())
        return np.hstack(out)
    return None

def _inside(p, x):
    g = p["gridr"]; t = p["type"]
    if "Classic" in t: q = (p.get("axisRatioY", 1.) * p.get("axisRatioZ", 1.))**(1/3.); return ((x / np.array([1/q, p.get("axisRatioY", 1.)/q, p.get("axisRatioZ", 1.)/q]))**2).sum(1)**.5 <= g[-1]
    if "Sph" in t: return (x**2).sum(1)**.5 <= g[-1]
    return (np.hypot(x[:, 0], x[:, 1]) <= g[-1]) & (np.abs(x[:, 2]) <= p["gridz"][-1])

def _total(p, v):
    g = p["gridr"]; n = len(g) - (g[0] == 0)
    if "Sph" in p["type"]: return v[:n+1].sum()
    if "Cyl" in p["type"]: z = p["gridz"]; k = len(z) - (z[0] == 0); return v[:(n*k if "TopHat" in p["type"] else (n+1)*(k+1))].sum()
    return v.sum()

def _dens(rng, ctx):
    k = rng.integers(0, 5); s = cm.logu(rng, .3, 3)
    if k == 0: return dict(type="Spheroid", gamma=rng.uniform(0, 1.2), beta=rng.uniform(3.5, 5), alpha=1, scaleRadius=s, densityNorm=1., axisRatioY=rng.uniform(.5, 1), axisRatioZ=rng.uniform(.3, 1))
    if k == 1: return dict(type="Plummer", scaleRadius=s, mass=cm.logu(rng, .1, 10))
    if k == 2: return dict(type="Disk", scaleRadius=s, scaleHeight=s*rng.uniform(.15, .5), surfaceDensity=1.)
    if k == 3: return dict(type="Dehnen", gamma=rng.uniform(0, 1.2), scaleRadius=s, axisRatioY=rng.uniform(.5, 1), axisRatioZ=rng.uniform(.4, 1))
    return dict(type="Spheroid", gamma=0, beta=4, scaleRadius=s, outerCutoffRadius=3*s, cutoffStrength=2, densityNorm=1, axisRatioZ=rng.uniform(.4, 1.))

def density(ctx, *a):
    rng = ctx.rng
    for it in range(ctx.n(60)):
        p = _spec(rng); d = _dens(rng, ctx)
        with ctx.case("density:" + p["type"], dict(target=_desc(p), density=d)):
            t = agama.Target(**p); T = p["type"]; N = int(rng.integers(1, 3000)); x = rng.normal(size=(N, 3)) * p["gridr"][-1] * rng.uniform(.3, .8); m = rng.uniform(.5, 1.5, N) * cm.logu(rng, 1e-3, 1e3); pv = np.hstack((x, rng.normal(size=(N, 3))))
            v = t((pv, m)); S = np.abs(m).sum(); ctx.ok(len(v) == len(t), "length"); tol = 2e-6 * S; o = _oracle(p, x, m)
            # points on the exact boundary of a cell may fall to either side, random ones do not
            if o is not None: ctx.close(v, o, "points:" + T, 1e-5, tol * (1 if "Sph" not in T else 3*(1+p["lmax"])))
            ctx.close(_total(p, v), m[_inside(p, x)].sum(), "points-total:" + T, 1e-5, tol)
            sg = np.ones(3)
            if "Classic" in T: sg = rng.choice([-1, 1], size=3)
            else: sg = np.array([-1, -1, 1.]) if rng.random() < .5 else np.array([1, 1, -1.])
            ctx.close(t((np.hstack((x*sg, pv[:, 3:])), m)), v, "points-reflect:" + T, 1e-5, tol*2); h = N // 2
            if h: ctx.close(t((pv[:h], m[:h])) + t((pv[h:], m[h:])), v, "points-additive:" + T, 1e-5, tol*3)
            ctx.close(t((pv, m*7.5)), v*7.5, "points-mass:" + T, 1e-5, tol*10)
            if len(v) > 400 or "Sph" in T and (d["type"] == "Disk" or d.get("axisRatioZ", 1) < .6): raise Skip()   # angular quadrature of fixed order
            D = agama.Density(**d); vd = t(D); ctx.ok(np.all(np.isfinite(vd)) and (not ("Classic" in T or p.get("mmax", 0) + p.get("lmax", 0) == 0) or np.all(vd >= -1e-8*np.abs(vd).sum())), "density-range:" + T)
            # weighted low-discrepancy points as an independent quadrature of the same density
            out = []; n = 15
            for rep in range(2):
                u = qmc.Sobol(3, seed=int(rng.integers(1, 2**31))).random_base2(n); rmax = p["gridr"][-1] * (1 if "Cyl" not in T else 1)
                if "Cyl" in T: R = rmax*u[:, 0]**.75; z = p["gridz"][-1]*u[:, 2]**1.5; w = .75*rmax*u[:, 0]**(-.25)*R*2*np.pi*2*p["gridz"][-1]*1.5*u[:, 2]**.5; X = np.column_stack((R*np.cos(2*np.pi*u[:, 1]), R*np.sin(2*np.pi*u[:, 1]), z))
                else:
                    q = (p.get("axisRatioY", 1.) * p.get("axisRatioZ", 1.))**(1/3.); ax = np.array([1/q, p.get("axisRatioY", 1.)/q, p.get("axisRatioZ", 1.)/q]); r = rmax*u[:, 0]**1.5; w = 1.5*rmax*u[:, 0]**.5*r**2*4*np.pi; ct = 2*u[:, 2]-1; st = np.sqrt(1-ct**2); X = np.column_stack((st*np.cos(2*np.pi*u[:, 1]), st*np.sin(2*np.pi*u[:, 1]), ct)) * r[:, None] * ax
                mm = D.density(X) * w / 2**n; out.append(t((np.hstack((X, X*0)), mm)))
            est = (out[0] + out[1]) / 2; mx = np.abs(est).max(); tot = mm.sum()
            g0 = p["gridr"][p["gridr"] > 0]; sp = max(np.diff(np.hstack((0, g0)))[:3]) / d["scaleRadius"]
            if "Cyl" in T: z0 = np.hstack((0, p["gridz"][p["gridz"] > 0])); sp = max(sp, max(np.diff(z0)[:2]) / (d.get("scaleHeight", d["scaleRadius"]*d.get("axisRatioZ", 1))))
            if sp > 1.5: ctx.event("under-resolved grid"); raise Skip()   # fixed-order quadrature inside each cell
            ctx.close(vd, est, "density:" + T, .01, 4*np.abs(out[0]-out[1]).max() + 2e-3*mx); ctx.close(_total(p, vd), tot, "density-total:" + T, 5e-3); ctx.event("coefficients", len(v))
            if rng.random() < .3:
                d2 = _dens(rng, ctx); D2 = agama.Density(**d2); ctx.close(t(agama.Density(D, D2)), vd + t(D2), "density-additive:" + T, 5e-3, 2e-3*(np.abs(vd).max()+np.abs(t(D2)).max()))
            ctx.ok(isinstance(t[0], str) and len(t[len(t)-1]) > 0, "coef-name"); ctx.raises(lambda: t[len(t)], "coef-range")

def orbits(ctx, *a):
    rng = ctx.rng
    for it in range(ctx.n(12)):
        n = int(rng.integers(1, 6)); specs = [_spec(rng) for _ in range(rng.integers(1, 4))]; pd = _dens(rng, ctx); pd.pop("surfaceDensity", None)
        with ctx.case("orbit", dict(targets=[_desc(s) for s in specs], n=n)):
            pot = agama.Potential(type="Logarithmic", v0=1, scaleRadius=cm.logu(rng, .05, 1), axisRatioY=rng.uniform(.7, 1), axisRatioZ=rng.uniform(.6, 1)); T = [agama.Target(**s) for s in specs]; K = agama.Target(type="KinemShell", degree=int(rng.integers(0, 4)), gridr=np.linspace(0, 12, 6))
            ic = np.column_stack((rng.normal(size=(n, 3)), rng.normal(size=(n, 3))*.5)); Om = rng.choice([0, rng.uniform(-.5, .5)]); time = rng.uniform(10, 60, n)
            # several output kinds together; each orbit alone must give the same numbers
            res = agama.orbit(potential=pot, ic=ic, time=time, targets=T+[K], trajsize=20001, Omega=Om, verbose=False, dtype=np.float64, accuracy=1e-9); mats, traj = res[:-1], res[-1]
            for i in range(n):
                one = agama.orbit(potential=pot, ic=ic[i], time=time[i], targets=T, Omega=Om, verbose=False, accuracy=1e-9); one = one if isinstance(one, (tuple, list)) else [one]
                tt, pv = traj[i]; w = np.full(len(tt), 1.); w[0] = w[-1] = .5; w /= w.sum()
                for k, (s, t) in enumerate(zip(specs, T)):
                    v = np.asarray(mats[k][i], float); ctx.close(np.ravel(one[k]), v, "orbit-alone:" + s["type"], 1e-5, 1e-6); o = t((pv, w)); smooth = "TopHat" not in s["type"]
                    fin = np.abs(v-o).max(); scl = max(1e-3, np.abs(o).max()); ctx.close(v, o, "orbit:" + s["type"], 0, (.015 if smooth else .03) * max(scl, .3) * (1 + .3*s.get("lmax", 0)))
                    ctx.close(_total(s, v), w[_inside(s, pv[:, :3])].sum(), "orbit-total:" + s["type"], 0, .01)
                o = K((pv, w)); ctx.close(np.ravel(mats[-1][i]), o, "orbit:KinemShell", .01, .01*np.abs(o).max()); ctx.event("orbits")

def _bsp(grid, deg):
    from scipy.interpolate import BSpline
    k = np.hstack(([grid[0]]*deg, grid, [grid[-1]]*deg)); n = len(grid)+deg-1
    return [BSpline(k, np.eye(n)[i], deg, extrapolate=False) for i in range(n)]

def _moments(grid, deg):
    """integrals of v^k times each basis function"""
    x, w = np.polynomial.legendre.leggauss(6); B = _bsp(grid, deg); M = np.zeros((3, len(B)))
    for a, b in zip(grid[:-1], grid[1:]):
        v = (a+b)/2 + (b-a)/2*x
        for i, f in enumerate(B): q = np.nan_to_num(f(v))*w*(b-a)/2; M[:, i] += [q.sum(), (q*v).sum(), (q*v*v).sum()]
    return M

def _rot(al, be, ga):
    def z(a): return np.array([[np.cos(a), np.sin(a), 0], [-np.sin(a), np.cos(a), 0], [0, 0, 1]])
    x = np.array([[1, 0, 0], [0, np.cos(be), np.sin(be)], [0, -np.sin(be), np.cos(be)]]); return z(ga) @ x @ z(al)

def _inpoly(P, X, Y):
    from matplotlib.path import Path
    return Path(np.vstack((P, P[:1])), closed=True).contains_points(np.column_stack((X, Y)))

def _poly(rng, s):
    n = int(rng.integers(3, 8)); a = np.sort(rng.uniform(0, 2*np.pi, n)); a = np.arange(n)*2*np.pi/n + rng.uniform(-.3, .3, n)
    c = rng.normal(size=2)*s*.5; return c + np.column_stack((np.cos(a), np.sin(a)))*(s*rng.uniform(.5, 1.2, n))[:, None]

def losvd(ctx, *a):
    rng = ctx.rng
    for it in range(ctx.n(14)):
        sym = _pick(rng, ["t", "t", "t", "a", "s", "n", "r"]); deg = int(rng.integers(1, 4)); psf = rng.choice([0, rng.uniform(.2, .8)]); vpsf = rng.choice([0, rng.uniform(.1, .5)]); al, be, ga = rng.uniform(-np.pi, np.pi), rng.uniform(0, np.pi), rng.uniform(-np.pi, np.pi)
        h = .25 if deg > 1 else .15; Lx = 5.; gx = np.linspace(-Lx, Lx, int(2*Lx/h)+1); gy = gx if rng.random() < .5 else np.linspace(-Lx-h, Lx, int(2*Lx/h)+2); gv = np.linspace(-4.5, 4.5, 46 if deg < 2 else 31)
        if rng.random() < .3: gx = gx + .1; gv = gv + .05
        aps = [_poly(rng, 1.) for _ in range(rng.integers(1, 5))]; two = psf > 0 and rng.random() < .4
        with ctx.case("losvd:" + sym, dict(deg=deg, psf=psf, vpsf=vpsf, angles=(al, be, ga), symmetric=bool(gx[0] == -gx[-1] and gy[0] == -gy[-1] and gv[0] == -gv[-1]), two=bool(two))):
            P = [[psf, .6], [psf*1.5, .4]] if two else psf; kw = dict(type="LOSVD", alpha=al, beta=be, gamma=ga, gridx=gx, gridy=gy, gridv=gv, degree=deg, apertures=aps, symmetry=sym, velpsf=vpsf); kw.update(dict(psf=P) if psf > 0 else {})
            t = agama.Target(**kw); N = 40000; c0 = rng.normal(size=3)*.5; v0 = rng.normal(size=3)*.6; sx = rng.uniform(.5, .9, 3); sv = rng.uniform(.4, .7, 3); om = rng.normal()*.4
            u = norm.ppf(np.clip(qmc.Sobol(6, seed=int(rng.integers(1, 2**31))).random(N), 1e-9, 1-1e-9)); x = c0 + u[:, :3]*sx; v = v0 + u[:, 3:]*sv; v[:, 0] -= om*x[:, 1]; v[:, 1] += om*x[:, 0]; m = rng.uniform(.5, 1.5, N); m *= 2.5/m.sum()
            res = t((np.hstack((x, v)), m)).reshape(len(aps), -1).astype(float); nv = len(gv)+deg-1; ctx.ok(res.shape[1] == nv and len(t) == nv*len(aps), "shape")
            M = _moments(gv, deg); got = res @ M.T
            # independent projection: symmetry images, rotation, random smoothing displacements, polygon membership
            R = _rot(0. if sym in "as" else al, be, ga); imgs = [(np.array([1, 1, 1.]))]
            X, V = x, v
            if sym == "s":
                from scipy.spatial.transform import Rotation; Q = Rotation.random(N, random_state=int(rng.integers(1, 2**31))); X, V = Q.apply(x), Q.apply(v)
            if sym == "a":
                f = rng.uniform(0, 2*np.pi, N); c, s = np.cos(f), np.sin(f); X = np.column_stack((x[:, 0]*c-x[:, 1]*s, x[:, 0]*s+x[:, 1]*c, x[:, 2])); V = np.column_stack((v[:, 0]*c-v[:, 1]*s, v[:, 0]*s+v[:, 1]*c, v[:, 2]))
            sets = [(X, V)]; F = lambda S, s: [(a*s, b*s) for a, b in S]
            if sym in "tas": sets += F(sets, np.array([1, 1, -1.]))
            if sym in "tasr": sets += F(sets, -np.ones(3))
            if sym in "as": sets += [(a*np.array([1, -1, 1.]), b*np.array([-1, 1, -1.])) for a, b in sets]   # image about the line of nodes
            o = np.zeros((len(aps), 3)); fac = 1./len(sets); keep = np.zeros(len(aps)); var = np.zeros((len(aps), 3))
            for Xs, Vs in sets:
                q = Xs @ R.T; w = Vs @ R.T; sig = np.where(rng.random(N) < .6, psf, psf*1.5) if two else psf; px = q[:, 0] + rng.normal(size=N)*sig; py = q[:, 1] + rng.normal(size=N)*sig; vz = w[:, 2] + rng.normal(size=N)*vpsf
                for i, ap in enumerate(aps):
                    k = _inpoly(ap, px, py); mm = m*fac*k; z = np.array([mm, mm*vz, mm*vz**2]); o[i] += z.sum(1); var[i] += (z**2).sum(1)
            tol = .02*np.abs(o).max(0) + 5*np.sqrt(var)
            if sym in "as":
                ctx.close(got[:, 0], o[:, 0], "losvd-mass:" + sym, 0, tol[:, 0]); ctx.close(got[:, 2], o[:, 2], "losvd-second:" + sym, 0, 1.5*tol[:, 2] + .02*np.abs(o[:, 0]))
                ctx.close(got[:, 1], o[:, 1], "losvd-mean:" + sym, 0, tol[:, 1] + .02*o[:, 0].max())
            else:
                ctx.close(got[:, 0], o[:, 0], "losvd-mass", 0, tol[:, 0]); ctx.close(got[:, 1], o[:, 1], "losvd-mean", 0, tol[:, 1] + .015*o[:, 0].max()); ctx.close(got[:, 2], o[:, 2], "losvd-second", 0, tol[:, 2] + .02*o[:, 0].max())
            tol = 3e-6*(1 + np.abs(res).max()); k = N//3; pv = np.hstack((x, v)); ctx.close((t((pv[:k], m[:k])) + t((pv[k:], m[k:]))).reshape(res.shape), res, "losvd-additive", 1e-4, tol); ctx.close(t((pv, m*3)).reshape(res.shape), 3*res, "losvd-scale", 1e-4, 3*tol)
            ctx.event("apertures", len(aps))
            # a density gives the same total light in each aperture as particles of that density
            s0 = rng.uniform(.5, .8); q = 1 if sym == "s" else rng.uniform(.6, 1); d = agama.Density(type="Sersic", sersicIndex=.5, mass=2.5, scaleRadius=s0*1.17741, axisRatioZ=q); td = t(d)
            w = norm.ppf(np.clip(qmc.Sobol(3, seed=int(rng.integers(1, 2**31))).random(N), 1e-9, 1-1e-9)) * np.array([s0, s0, s0*q]); tp = t((np.hstack((w, w*0)), np.full(N, 2.5/N))).reshape(len(aps), -1) @ M[0]
            ctx.ok(td.shape == (len(aps),), "losvd-density-shape") and ctx.close(td, tp, "losvd-density", .015, .01*np.abs(tp).max())

def losvdhist(ctx, *a):
    """degree-0 splines without smoothing record exact histograms; total mass is conserved by an aperture covering the grid"""
    rng = ctx.rng
    for it in range(ctx.n(25)):
        deg = int(rng.integers(0, 4)); n = int(rng.integers(3, 12)); gx = np.cumsum(rng.uniform(.5, 1.5, n)); gx -= gx.mean(); gy = np.cumsum(rng.uniform(.5, 1.5, n+1)); gy -= gy.mean(); gv = np.cumsum(rng.uniform(.2, 1., rng.integers(4, 15))); gv -= gv.mean(); al, be, ga = rng.uniform(-3, 3, 3)
        with ctx.case("hist", dict(deg=deg, gx=gx.tolist(), gy=gy.tolist(), gv=gv.tolist(), angles=(al, be, ga))):
            x0, x1, y0, y1 = gx[0], gx[-1], gy[0], gy[-1]; full = np.array([[x0, y0], [x1, y0], [x1, y1], [x0, y1]]); aps = [full]; pix = []
            for k in range(3): i, j = rng.integers(0, n-1), rng.integers(0, n); i2, j2 = rng.integers(i+1, n), rng.integers(j+1, n+1); pix.append((i, i2, j, j2)); aps.append(np.array([[gx[i], gy[j]], [gx[i2], gy[j]], [gx[i2], gy[j2]], [gx[i], gy[j2]]]))
            if rng.random() < .5: aps = [b[::-1] for b in aps]
            t = agama.Target(type="LOSVD", alpha=al, beta=be, gamma=ga, gridx=gx, gridy=gy, gridv=gv, degree=deg, apertures=aps, symmetry="n"); N = 3000; R = _rot(al, be, ga)
            X = np.column_stack((rng.uniform(x0*1.1, x1*1.1, N), rng.uniform(y0*1.1, y1*1.1, N), rng.normal(size=N))); V = np.column_stack((rng.normal(size=(N, 2)), rng.uniform(gv[0]*1.2, gv[-1]*1.2, N))); m = rng.uniform(.5, 1.5, N); res = t((np.hstack((X @ R, V @ R)), m)).reshape(len(aps), -1)
            M = _moments(gv, deg); k = (X[:, 0] > x0) & (X[:, 0] < x1) & (X[:, 1] > y0) & (X[:, 1] < y1) & (V[:, 2] > gv[0]) & (V[:, 2] < gv[-1]); ctx.close((res @ M[0])[0], m[k].sum(), "hist-total", 1e-3)
            if deg >= 1: ctx.close((res @ M[1])[0], (m*V[:, 2])[k].sum(), "hist-mean", 1e-3, 1e-3*m.sum()*gv[-1])
            if deg >= 2: ctx.close((res @ M[2])[0], (m*V[:, 2]**2)[k].sum(), "hist-second", 1e-3, 1e-3*m.sum())
            if deg == 0:
                for (i, i2, j, j2), r in zip(pix, res[1:]):
                    q = k & (X[:, 0] > gx[i]) & (X[:, 0] < gx[i2]) & (X[:, 1] > gy[j]) & (X[:, 1] < gy[j2]); hh = np.histogram(V[q, 2], bins=gv, weights=m[q])[0] / np.diff(gv); ctx.close(r, hh, "hist-bins", 1e-3, 1e-4*m.sum())
            # apertures are additive: a rectangle cut into two triangles
            tri = [full[[0, 1, 2]], full[[0, 2, 3]]]; t2 = agama.Target(type="LOSVD", alpha=al, beta=be, gamma=ga, gridx=gx, gridy=gy, gridv=gv, degree=deg, apertures=tri, symmetry="n"); r2 = t2((np.hstack((X @ R, V @ R)), m)).reshape(2, -1); ctx.close(r2.sum(0), res[0], "hist-additive-apertures", 1e-3, 1e-4*m.sum())
            ctx.raises(lambda: agama.Target(type="LOSVD", gridx=gx, gridy=gy, gridv=gv, degree=deg, apertures=[full*1.2]), "hist-outside")

def kinem(ctx, *a):
    rng = ctx.rng
    for it in range(ctx.n(40)):
        deg = int(rng.integers(0, 4)); g = np.hstack(([0.], _grid(rng, rng.integers(1, 9), .5, 10)))
        with ctx.case("kinem", dict(deg=deg, gridr=g.tolist())):
            t = agama.Target(type="KinemShell", degree=deg, gridr=g); N = 2000; x = rng.normal(size=(N, 3))*g[-1]*.5; v = rng.normal(size=(N, 3)); m = rng.uniform(.5, 1.5, N); r = (x**2).sum(1)**.5; vr = (x*v).sum(1)/r; vt2 = (v**2).sum(1)-vr**2
            B = np.array([np.nan_to_num(f(r)) for f in _bsp(g, deg)]) * (r < g[-1]); o = t((np.hstack((x, v)), m)); ctx.close(o, np.hstack((B @ (m*vr**2), B @ (m*vt2))), "kinem:points", 1e-5, 1e-5*o.max()); nb = len(o)//2; k = r < g[-1]
            ctx.close(o[:nb].sum(), (m*vr**2)[k].sum(), "kinem:total-r", 1e-5); ctx.close(o[nb:].sum(), (m*vt2)[k].sum(), "kinem:total-t", 1e-5); ctx.raises(lambda: t(agama.Density(type="Plummer")), "kinem:density"); ctx.raises(lambda: agama.Target(type="KinemShell", degree=4, gridr=g), "kinem:degree")

def dfproj(ctx, *a):
    """a model given by its distribution function, its density and its particles project to the same values"""
    rng = ctx.rng
    for it in range(ctx.n(3, 12)):
        ga = rng.uniform(0, 1); b0 = rng.uniform(-.4, .4)
        with ctx.case("df", dict(gamma=ga, beta0=b0)):
            pot = agama.Potential(type="Dehnen", gamma=ga); df = agama.DistributionFunction(type="QuasiSpherical", density=pot, potential=pot, beta0=b0); gm = agama.GalaxyModel(pot, df); g = np.array([.3, 1., 3.]); pv, m = gm.sample(40000)
            for T in [dict(type="DensitySphHarm", gridr=g, lmax=0, mmax=0), dict(type="KinemShell", degree=int(rng.integers(0, 4)), gridr=np.hstack((0, g)))]:
                t = agama.Target(**T); a, p = np.asarray(t(gm), float), np.asarray(t((pv, m)), float); ctx.close(a, p, "df:" + T["type"], .05, .03*p.max())
                if T["type"][0] == "D": ctx.close(a, t(pot), "df-density", .02, .005*p.max())

def opt(ctx, *a):
    from scipy.optimize import linprog
    rng = ctx.rng
    for it in range(ctx.n(120)):
        nm = int(rng.integers(1, 4)); nc = [int(rng.integers(1, 4)) for _ in range(nm)]; nv = int(rng.integers(sum(nc)+1, 25)); A = [rng.normal(size=(c, nv))*cm.logu(rng, .1, 10) for c in nc]; x = rng.exponential(size=nv); lo = np.zeros(nv); hi = np.full(nv, np.inf); bl, bh, pen = rng.random() < .4, rng.random() < .5, rng.random() < .5
        if bl: lo = rng.normal(size=nv)*.5
        if bh: hi = np.maximum(lo, 0) + rng.uniform(.5, 4, nv)
        x = np.clip(x, lo, hi); b = [q @ x + (rng.normal(size=len(q))*.3 if pen else 0) for q in A]; L = rng.uniform(.1, 1, nv) if not bl else rng.uniform(.1, 1, nv); f32 = rng.random() < .3
        with ctx.case("opt", dict(nm=nm, nc=nc, nv=nv, lower=bl, upper=bh, penalty=pen)):
            if f32: A = [q.astype(np.float32) for q in A]
            kw = dict(xpenl=L)
            if bl: kw["xmin"] = lo
            if bh: kw["xmax"] = hi
            rp = [rng.uniform(.1, 3, c) for c in nc]; single = nm == 1 and rng.random() < .5
            if pen: kw["rpenl"] = rp[0] if single else rp
            AA = np.vstack([np.asarray(q, float) for q in A]); bb = np.hstack(b); c = L
            try: r = agama.solveOpt(A[0] if single else A, b[0] if single else b, **kw)
            except RuntimeError as e:
                if "infeas" in str(e).lower(): ctx.event("reported infeasible"); q = linprog(c, A_eq=AA, b_eq=bb, bounds=list(zip(lo, hi))); ctx.ok(pen is False and (q.status == 2 or nv < 60 and np.linalg.cond(AA) > 50), "opt:infeasible", str(q.status)); continue
                raise
            ctx.ok(len(r) == nv, "opt:size"); ctx.le(lo - 1e-6, r, "opt:lower"); ctx.le(r, hi + 1e-6, "opt:upper"); S = 1 + np.abs(AA).max()*np.abs(r).max()
            if pen:
                P = np.hstack(rp); n2 = len(bb); q = linprog(np.hstack((c, P, P)), A_eq=np.hstack((AA, np.eye(n2), -np.eye(n2))), b_eq=bb, bounds=list(zip(lo, hi)) + [(0, None)]*(2*n2)); f = c @ r + P @ np.abs(AA @ r - bb)
                if q.status == 0: ctx.close(f, q.fun, "opt:penalised-objective", 1e-5, 1e-5*S)
            else:
                ctx.close(AA @ r, bb, "opt:constraints", 0, 1e-6*S); q = linprog(c, A_eq=AA, b_eq=bb, bounds=list(zip(lo, hi)))
                if q.status == 0: ctx.close(c @ r, q.fun, "opt:objective", 1e-5, 1e-5*S)
            ctx.event("programs solved")

def apertures(ctx, *a):
    import io; from agama import schwarzlib as sl; import contextlib
    rng = ctx.rng; area = lambda p: .5*np.sum(p[:, 0]*np.roll(p[:, 1], -1) - p[:, 1]*np.roll(p[:, 0], -1))
    for it in range(ctx.n(40)):
        nx, ny = int(rng.integers(4, 25)), int(rng.integers(4, 25)); px, py = cm.logu(rng, .05, 5), cm.logu(rng, .05, 5); ox, oy = rng.normal(size=2)*3; nb = int(rng.integers(1, 15))
        with ctx.case("apertures", dict(nx=nx, ny=ny, nb=nb, px=px, py=py)):
            # Voronoi partition into connected regions without holes: rectangular cells of a k-d split
            tag = np.zeros((nx, ny), int); regs = [(0, nx, 0, ny)]
            while len(regs) < nb:
                regs.sort(key=lambda r: (r[1]-r[0])*(r[3]-r[2])); r = regs.pop()
                if (r[1]-r[0])*(r[3]-r[2]) < 4: regs.append(r); break
                if r[1]-r[0] > r[3]-r[2]: k = int(rng.integers(r[0]+1, r[1])); regs += [(r[0], k, r[2], r[3]), (k, r[1], r[2], r[3])]
                else: k = int(rng.integers(r[2]+1, r[3])); regs += [(r[0], r[1], r[2], k), (r[0], r[1], k, r[3])]
            for i, r in enumerate(regs): tag[r[0]:r[1], r[2]:r[3]] = i
            # staircase boundaries: move single pixels across vertical borders, keeping one monotone column profile
            I, J = np.indices((nx, ny)); X, Y = ox + I*px, oy + J*py
            if rng.random() < .5: cut = np.cumsum(rng.integers(-1, 2, nx)) + ny//2; cut = np.clip(cut, 2, ny-1); tag = (J >= cut[:, None]).astype(int)
            keep = np.ones(tag.shape, bool)
            if rng.random() < .3: keep[:, 0] = False if tag[:, 1:].size and ny > 4 else True
            order = rng.permutation(keep.sum()); shift = int(rng.integers(0, 100)); ap = sl.getBinnedApertures(X[keep][order], Y[keep][order], tag[keep][order] + shift); u = np.unique(tag[keep]); ctx.ok(len(ap) == len(u), "apertures:number")
            for b, p in zip(u, ap):
                p = np.asarray(p, float); k = (tag == b) & keep; ctx.close(area(p), k.sum()*px*py, "apertures:area", 1e-6, 8e-6*(px*nx+py*ny)*2); q = _inpoly(p, X[keep], Y[keep]); ctx.ok(np.array_equal(q, k[keep]), "apertures:members"); ctx.event("bins")
            f = os.path.join(tempfile.mkdtemp(), "ap"); sl.writeApertures(f, ap); rd = sl.readApertures(f); ctx.ok(len(rd) == len(ap) and all(np.allclose(np.asarray(c, float), np.asarray(d, float), rtol=1e-6, atol=1e-6) for c, d in zip(rd, ap)), "apertures:file"); os.remove(f); os.rmdir(os.path.dirname(f))
            xg, yg = np.cumsum(rng.uniform(.1, 1, nx)), np.cumsum(rng.uniform(.1, 1, ny)); R = sl.getRegularApertures(xg, yg); ctx.ok(len(R) == (nx-1)*(ny-1), "regular:number"); ctx.close([area(np.asarray(p)) for p in R], np.outer(np.diff(yg), np.diff(xg)).ravel(), "regular:area", 1e-10)
            psf = rng.uniform(.3, 3)*max(px, py)*.5; P = psf if rng.random() < .5 else [[psf, .7], [2*psf, .3]]
            with contextlib.redirect_stdout(io.StringIO()): gx, gy = sl.makeGridForTargetLOSVD(ap, P)
            al = np.vstack([np.asarray(p, float) for p in ap]); from scipy.special import erfinv; mar = erfinv(.99)*2**.5*psf if not isinstance(P, list) else psf*1.5
            ctx.ok(np.all(np.diff(gx) > 0) and np.all(np.diff(gy) > 0) and gx[0] <= al[:, 0].min()-.99*mar and gx[-1] >= al[:, 0].max()+.99*mar and gy[0] <= al[:, 1].min()-.99*mar and gy[-1] >= al[:, 1].max()+.99*mar, "grid:cover"); agama.Target(type="LOSVD", gridx=gx, gridy=gy, gridv=np.linspace(-1, 1, 5), degree=2, psf=P, apertures=[np.asarray(p, float) for p in ap])

GROUPS = dict(
    density=dict(fn=density, cost=15), orbit=dict(fn=orbits, cost=15), losvd=dict(fn=losvd, cost=20), losvd2=dict(fn=losvdhist, cost=10), kinem=dict(fn=kinem, cost=8), opt=dict(fn=opt, cost=8), apertures=dict(fn=apertures, cost=8), df=dict(fn=dfproj, cost=20))
