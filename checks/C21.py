import os, numpy as np
from common import *
from scipy import interpolate
if not os.environ.get("VERIF_META_ONLY"):
    from vh import Skip
RULE = ("random and special sky positions (both poles exactly and within 1e-16..1e-3 rad, branch cut of longitude, equator, axes), any distances/velocities/errors, random and singular rotation matrices, scalars and arrays; ellipsoids of any axis ratios "
  "(triaxial, oblate, prolate, spherical) at random and special viewing angles; random B-spline grids/degrees; a case is one batch of points or one ellipsoid")
ASSUMPTIONS = ["at the exact poles the longitude is arbitrary but must be consistent with the directions of proper-motion components, so that the physical velocity is preserved"]
def logu(rng, a, b, n=None): return np.exp(rng.uniform(np.log(a), np.log(b), n))
def ang(a): return (np.asarray(a)+np.pi) % (2*np.pi)-np.pi
def sky(rng, n):
    lon = rng.uniform(-np.pi, np.pi, n); lat = np.arcsin(rng.uniform(-1, 1, n)); s = rng.integers(8, size=n); e = 10.**rng.uniform(-17, -3, n)*rng.choice([-1, 0, 1], n)
    lat = np.where(s == 1, np.pi/2-abs(e), np.where(s == 2, -np.pi/2+abs(e), np.where(s == 3, e, lat))); lon = np.where(s == 4, np.pi-abs(e), np.where(s == 5, -np.pi+abs(e), np.where(s == 6, rng.integers(-2, 3, n)*np.pi/2+e, lon)))
    return lon, lat
def triad(lon, lat): return np.array([np.cos(lon)*np.cos(lat), np.sin(lon)*np.cos(lat), np.sin(lat)]), np.array([-np.sin(lon), np.cos(lon), 0*lon]), np.array([-np.cos(lon)*np.sin(lat), -np.sin(lon)*np.sin(lat), np.cos(lat)])
def vec(c, p, q, key, tol=1e-13): c.le(np.max(np.abs(np.asarray(p)-q)), tol, key)
def celestial(c):
    rng = c.rng; A = agama
    for i in range(c.n(400)):
        n = int(rng.integers(2, 40)); lon, lat = sky(rng, n); d = logu(rng, 1e-3, 1e4, n); pm = rng.normal(size=(2, n))*logu(rng, .01, 1e3); vl = rng.normal(size=n)*logu(rng, .1, 1e3); V = np.sqrt((d*d*(pm**2).sum(0)+vl**2)).max()
        with c.case("cartesian", dict(i=i)):
            u, el, eb = triad(lon, lat); X = np.array(A.getCartesianCoords(lon, lat, d, pm[0], pm[1], vl)); c.close(X[:3], d*u, "cart:position", 1e-14, 1e-14*d.max()); vv = d*(pm[0]*el+pm[1]*eb)+vl*u; c.le(abs(X[3:]-vv).max(), 1e-13*V, "cart:velocity"); c.close(np.array(A.getCartesianCoords(lon, lat, d)), X[:3], "cart:posonly", 0)
            B = A.getCelestialCoords(*X); c.ok(len(B) == 6 and np.isfinite(B).all(), "cele:finite", info="lat=%s" % lat); u2, el2, eb2 = triad(B[0], B[1]); vec(c, u2, u, "cele:direction", 4e-16*4); c.close(B[2], d, "cele:distance", 1e-14); v2 = B[2]*(B[3]*el2+B[4]*eb2)+B[5]*u2; c.le(abs(v2-X[3:]).max(), 1e-11*V, "cele:velocity")
            far = np.cos(lat) > 1e-8; c.le(abs(ang(B[0]-lon))[far]*np.cos(lat)[far], 1e-15*8, "cele:lon"); c.le(abs(B[1]-lat), 1e-15*8, "cele:lat"); c.le((abs(B[3]-pm[0])*d)[far]*np.cos(lat)[far], 1e-13*V, "cele:pmlon"); c.close(np.array(A.getCelestialCoords(*X[:3])), np.array(B[:3]), "cele:posonly", 0)
            j = int(rng.integers(n)); sc = A.getCelestialCoords(*[float(t) for t in X[:, j]]); c.close(sc, [b[j] for b in B], "cele:scalar", 1e-13, 1e-13*max(V/d[j], V)); c.ok(np.ndim(sc[0]) == 0, "cele:scalar-shape")
            # at exactly the poles of the Cartesian frame
            for z in (1., -1.):
                w = rng.normal(size=3); P = A.getCelestialCoords(0., 0., 2*z, *w); c.ok(np.isfinite(P).all(), "pole:finite", str(P)); u3, e3, b3 = triad(P[0], P[1]); vec(c, u3*P[2], [0, 0, 2*z], "pole:direction"); vec(c, P[2]*(P[3]*e3+P[4]*b3)+P[5]*u3, w, "pole:velocity", 1e-14)
        with c.case("rotation", dict(i=i)):
            kind = rng.integers(4); a = rng.uniform(-7, 7, 3) if kind else rng.integers(-4, 5, 3)*np.pi/2; M = A.makeRotationMatrix(*a) if kind % 2 else A.makeCelestialRotationMatrix(*a)
            if kind == 3: M = A.fromICRStoGalactic if rng.random() < .5 else A.fromGalactictoICRS
            c.close(M@M.T, np.eye(3), "rot:orthogonal", 0, 1e-14); c.close(np.linalg.det(M), 1, "rot:det", 1e-14)
            cc, ss = np.cos(a), np.sin(a); Rz = lambda t: np.array([[np.cos(t), np.sin(t), 0], [-np.sin(t), np.cos(t), 0], [0, 0, 1]]); Rx = lambda t: np.array([[1, 0, 0], [0, np.cos(t), np.sin(t)], [0, -np.sin(t), np.cos(t)]])
            c.close(A.makeRotationMatrix(*a), Rz(a[2])@Rx(a[1])@Rz(a[0]), "rot:euler", 0, 1e-14)
            CM = A.makeCelestialRotationMatrix(*a); u0, e0, n0 = triad(a[0], a[1]); vec(c, CM@u0, [1, 0, 0], "rot:celestial-center", 1e-14); E_, N_ = (CM@e0)[1:], (CM@n0)[1:]; vec(c, E_, [np.cos(a[2]), -np.sin(a[2])], "rot:celestial-tilt", 2e-14); vec(c, N_, [np.sin(a[2]), np.cos(a[2])], "rot:celestial-tilt2", 2e-14)
            if rng.random() < .3:   # points which land exactly or nearly at a pole of the new frame
                P = M[2]*rng.choice([-1, 1])+rng.normal(size=3)*10.**rng.uniform(-17, -6)*rng.integers(2); lon[0], lat[0] = np.arctan2(P[1], P[0]), np.arctan2(P[2], np.hypot(P[0], P[1]))
            u, el, eb = triad(lon, lat); T = A.transformCelestialCoords(M, lon, lat, pm[0], pm[1]); c.ok(np.isfinite(T).all(), "trans:finite"); uu, e1, b1 = triad(T[0], T[1]); vec(c, uu, M@u, "trans:position", 2e-15); c.ok(np.all(T[0] >= -np.pi) and np.all(T[0] < np.pi+1e-15), "trans:range")
            P0 = abs(pm).max(); ok = np.hypot(*(M@u)[:2]) > 1e-9; c.le(abs((T[2]*e1+T[3]*b1-M@(pm[0]*el+pm[1]*eb))/P0)[:, ok].max(initial=0), 3e-14/np.hypot(*(M@u)[:2])[ok].min(initial=1), "trans:proper-motion"); c.le(abs((T[2]**2+T[3]**2)-(pm**2).sum(0)), 1e-13*P0**2, "trans:pm-length")
            I = A.transformCelestialCoords(M.T, *T); ui = triad(I[0], I[1]); vec(c, ui[0], u, "trans:inverse", 3e-15); c.le(abs((I[2]*ui[1]+I[3]*ui[2])-(pm[0]*el+pm[1]*eb))[:, ok].max(initial=0)/P0, 1e-13/np.hypot(*(M@u)[:2])[ok].min(initial=1), "trans:inverse-pm")
            c.close(np.array(A.transformCelestialCoords(M, lon, lat)), np.array(T[:2]), "trans:posonly", 0)
            s1, s2, r = logu(rng, .01, 10, n), logu(rng, .01, 10, n), rng.uniform(-.95, .95, n); U = A.transformCelestialCoords(M, lon, lat, pm[0], pm[1], s1, s2, r); c.close(np.array(U[:4]), np.array(T), "trans:same", 0)
            # the covariance transforms as pm-vectors do
            J = [np.array(A.transformCelestialCoords(M, lon, lat, 0*lon+x, 0*lon+y)[2:]) for x, y in ((1., 0.), (0., 1.))]; Jm = np.stack(J, 1).transpose(2, 0, 1); C = np.array([[s1*s1, r*s1*s2], [r*s1*s2, s2*s2]]).transpose(2, 0, 1); D = Jm@C@Jm.transpose(0, 2, 1); tr = s1**2+s2**2; c.le(abs(U[4]**2-D[:, 0, 0])/tr, 1e-13, "trans:sigma"); c.le(abs(U[5]**2-D[:, 1, 1])/tr, 1e-13, "trans:sigma2"); c.le(abs(U[6]*U[4]*U[5]-D[:, 0, 1])/tr, 1e-13, "trans:corr")
            j = int(rng.integers(n)); c.close(A.transformCelestialCoords(M, *[float(q[j]) for q in (lon, lat, pm[0], pm[1], s1, s2, r)]), [q[j] for q in U], "trans:scalar", 1e-9, 1e-9*P0) if ok[j] else 0
        with c.case("galactocentric", dict(i=i)):
            kw = {} if rng.random() < .5 else dict(galcen_distance=float(rng.uniform(1, 20)), z_sun=float(rng.normal()*.1), galcen_v_sun=tuple(rng.normal(size=3)*100)); dd, zs, vs = kw.get("galcen_distance", 8.122), kw.get("z_sun", .0208), np.array(kw.get("galcen_v_sun", (12.9, 245.6, 7.78)))
            G = np.array(A.getGalactocentricFromGalactic(lon, lat, d, pm[0], pm[1], vl, **kw)); S = max(d.max(), dd); W = max(V, abs(vs).max()); c.close(np.array(A.getGalactocentricFromGalactic(lon, lat, d, **kw)), G[:3], "gal:posonly", 0)
            sn, cs = zs/dd, np.sqrt(1-(zs/dd)**2); R = np.array([[cs, 0, sn], [0, 1, 0], [-sn, 0, cs]]); u, el, eb = triad(lon, lat); sun = np.array([-dd*cs, 0, zs])[:, None]; c.le(abs(G[:3]-(R@(d*u)+sun)).max(), 1e-13*S, "gal:position"); c.le(abs(G[3:]-(R@(d*(pm[0]*el+pm[1]*eb)+vl*u)+vs[:, None])).max(), 1e-12*W, "gal:velocity")
            B = A.getGalacticFromGalactocentric(*G, **kw); u2, el2, eb2 = triad(B[0], B[1]); c.ok(np.isfinite(B).all(), "gal:finite"); c.le(abs(u2*B[2]-u*d).max(), 1e-13*S, "gal:inverse"); c.le(abs(B[2]*(B[3]*el2+B[4]*eb2)+B[5]*u2-(d*(pm[0]*el+pm[1]*eb)+vl*u)).max(), 1e-11*W*S/d.min(), "gal:inverse-velocity")
            X = np.array(A.getGalactocentricFromGalactic(0., 0., dd, 0., 0., 0., **kw)); c.le(abs(X[:3]).max(), 1e-13*dd, "gal:center"); c.close(X[3:], vs, "gal:vsun", 1e-13)
def axang(a, b): return abs((np.asarray(a)-b+np.pi/2) % np.pi-np.pi/2)
def ellipsoids(c):
    rng = c.rng; A = agama
    for i in range(c.n(4000)):
        t = ["tri", "tri", "oblate", "prolate", "sph"][rng.integers(5)]; s = np.sort(logu(rng, .05, 1, 2))[::-1]; ax = np.array({"tri": (1, s[0], s[1]), "oblate": (1, 1, s[0]), "prolate": (1, s[0], s[0]), "sph": (1, 1, 1)}[t])*logu(rng, .01, 100)
        sp = rng.random() < .4; a, b, g = rng.uniform(0, np.pi, 3) if not sp else (rng.integers(0, 3, 3)*np.pi/2+(rng.normal(size=3)*10.**rng.uniform(-9, -2) if rng.random() < .5 else 0)); 
        if rng.random() < .3: a, g = rng.uniform(-7, 7, 2)
        with c.case("ell:%s" % t, dict(i=i, axes=ax, angles=(a, b, g))):
            M = A.makeRotationMatrix(a, b, g); C = (M*ax**2)@M.T; w, v = np.linalg.eigh(C[:2, :2]); S = np.sqrt(w[::-1]); eta = np.arctan2(v[0, 1], v[1, 1]) % np.pi; P = A.getProjectedEllipse(*ax, a, b, g); c.ok(0 <= P[2] < np.pi, "proj:range", str(P[2])); c.close(P[:2], S, "proj:axes", 1e-8, 1e-10*ax[0]); rnd = 1-S[1]/S[0]
            if rnd > 1e-4: c.le(axang(P[2], eta), 1e-8/rnd, "proj:angle")
            # (the ellipse of the position angle and axes must reproduce the projected covariance even if nearly round)
            m = np.array([np.sin(P[2]), np.cos(P[2])]); q = np.array([m[1], -m[0]]); c.le(abs(np.outer(m, m)*P[0]**2+np.outer(q, q)*P[1]**2-C[:2, :2]).max(), 1e-7*ax[0]**2, "proj:matrix")
            # deprojection with the known orientation
            sb, ca, sa, psi = abs(np.sin(b)), abs(np.cos(a)), abs(np.sin(a)), P[2]-g
            # sensitivity of the deprojection to the input data: skip the singular orientations, where the solution is not unique
            def lin():
                B = np.array([[M[0, k]**2, M[1, k]**2, M[0, k]*M[1, k]] for k in range(3)]).T; return np.linalg.cond(B)
            K = lin()
            if K < 1e4:
                try: D = A.getIntrinsicShape(P[0], P[1], P[2], a, b, g); c.close(D, ax, "deproj:shape", 1e-10*K*100, 1e-7*ax[0]*K**.5*(ax[0]/ax[2])) if rnd > 1e-3 else 0
                except ValueError as e: c.ok(rnd < 1e-3 or t != "tri", "deproj:possible", info=str(e))
            elif t == "oblate" and sb > .05: D = A.getIntrinsicShape(P[0], P[1], g+np.pi/2, a, b, g); c.close(D, ax, "deproj:oblate", 1e-5, 1e-7*ax[0]/(sb*ax[2]/ax[0]))
            # all four orientations which lead to the given projection
            if t == "tri" and min(1-ax[1]/ax[0], 1-ax[2]/ax[1]) > 1e-3:
                try: V = A.getViewingAngles(P[0], P[1], P[2], *ax)
                except ValueError as e: c.ok(False, "view:possible", info=str(e)); continue
                V = np.array(V); c.ok(V.shape == (4, 3) and np.isfinite(V).all(), "view:finite", info=str(V)); c.ok(np.all(V >= 0) and np.all(V[:, 1] <= np.pi) and np.all(V[:, [0, 2]] < np.pi), "view:range")
                for r in V: E = A.getProjectedEllipse(*ax, *r); c.close(E[:2], P[:2], "view:project", 1e-6, 1e-6*ax[0]); c.ok(rnd < 1e-3 or axang(E[2], P[2]) < 1e-6/rnd+1e-5, "view:angle", info="%s %s" % (E[2], P[2]))
                # the original orientation must be among the four, up to the symmetries of the ellipsoid: compare the line-of-sight directions and image-plane axes
                best = min(np.abs((lambda N: ((N*ax**2)@N.T)-C)(A.makeRotationMatrix(*r))).max() for r in V); mir = min(np.abs((lambda N: ((N*ax**2)@N.T)*np.array([[1, 1, -1], [1, 1, -1], [-1, -1, 1]])-C)(A.makeRotationMatrix(*r))).max() for r in V)
                if rnd > 1e-2: c.le(min(best, mir), 3e-5*ax[0]**2, "view:complete")
            if t == "tri": c.raises(lambda: A.getViewingAngles(ax[0]*1.1, ax[1], 0., *ax), "view:invalid"); c.raises(lambda: A.getIntrinsicShape(1., 1.1, 0., 1., 1., 1.), "deproj:invalid")
    # arbitrary ellipse and orientation: either an error or a valid ellipsoid that projects back
    for i in range(c.n(4000)):
        sx, Q = logu(rng, .01, 100), rng.uniform(.02, 1); eta, a, b, g = rng.uniform(0, np.pi, 4)
        if rng.random() < .2: eta = (g+rng.integers(2)*np.pi/2) % np.pi
        if rng.random() < .2: a = rng.integers(0, 3)*np.pi/2
        with c.case("deproj", dict(i=i, Q=Q, eta=eta, angles=(a, b, g))):
            try: D = A.getIntrinsicShape(sx, sx*Q, eta, a, b, g)
            except ValueError: raise Skip()
            c.ok(np.isfinite(D).all() and min(D) >= 0, "deproj:valid"); M = A.makeRotationMatrix(a, b, g); C = ((M*np.array(D)**2)@M.T)[:2, :2]; m = np.array([np.sin(eta), np.cos(eta)]); q = np.array([m[1], -m[0]]); T = (np.outer(m, m)+np.outer(q, q)*Q*Q)*sx**2; c.le(abs(C-T).max(), 1e-6*max(D)**2, "deproj:reproject", info="%s" % (D,))
            if D[0] >= D[1] >= D[2]: P = A.getProjectedEllipse(*D, a, b, g); c.close(P[:2], [sx, sx*Q], "deproj:project", 1e-6, 1e-6*D[0]); c.ok(Q > .99 or axang(P[2], eta) < 1e-5/(1-Q), "deproj:angle")
def library(c):
    """orientation conventions are the same as inside the library; multi-Gaussian expansion helpers"""
    rng = c.rng; from agama import schwarzlib as S
    for i in range(c.n(40)):
        ax = np.sort(logu(rng, .3, 3, 3))[::-1]; a, b, g = rng.uniform(-4, 4, 3); m = logu(rng, .1, 10)
        with c.case("library", dict(i=i, axes=ax, angles=(a, b, g))):
            par = S.getDensityParamsMGE(m, *ax); D = agama.Density(**par); M = agama.makeRotationMatrix(a, b, g); x = rng.normal(size=(20, 3))*ax; ref = lambda p: m*np.exp(-.5*((p/ax)**2).sum(1))/((2*np.pi)**1.5*np.prod(ax)); c.close(D.density(x), ref(x), "mge:density", 1e-12); c.close(D.totalMass(), m, "mge:mass", 1e-2)
            R = agama.Density(orientation=[a, b, g], **par); c.close(R.density(x), ref(x@M.T), "lib:orientation", 1e-12, 1e-14*ref(x*0)[0])
            P = agama.getProjectedEllipse(*ax, a, b, g); xy = rng.normal(size=(12, 2))*ax[0]; e = np.array([np.sin(P[2]), np.cos(P[2])]); u, w = xy@e, xy@np.array([e[1], -e[0]]); c.close(D.projectedDensity(xy, alpha=a, beta=b, gamma=g), m/(2*np.pi*P[0]*P[1])*np.exp(-.5*((u/P[0])**2+(w/P[1])**2)), "lib:projection", 5e-3, 1e-5*m/(2*np.pi*P[0]*P[1]))
            pa, an = D.principalAxes(30*ax[0]) if False else (None, None)
            tab = np.column_stack([logu(rng, 1, 1e4, 3), logu(rng, .1, 30, 3), rng.uniform(.6, 1, 3)]); dist, lu, be = logu(rng, 10, 1e5), logu(rng, .01, 10), float(rng.uniform(1.2, np.pi/2)); k = dist*np.pi/648000/lu; den = S.makeDensityMGE(tab, dist, lu, be); xp, yp = rng.normal(size=(2, 8))*tab[:, 1].max(); sd = den.projectedDensity(np.column_stack([xp, yp])*k, beta=be); c.close(sd/(1000*lu)**2, S.surfaceDensityMGE(tab, xp, yp), "mge:project", 8e-3, 1e-5*tab[:, 0].max())
            tab[0, 2] = .3; c.raises(lambda: S.makeDensityMGE(tab, dist, lu, .5), "mge:impossible")
            nx, ny = rng.integers(2, 7, 2); gx, gy = np.sort(rng.normal(size=nx)), np.sort(rng.normal(size=ny)); ap = S.getRegularApertures(gx, gy); area = lambda p: .5*np.sum(p[:, 0]*np.roll(p[:, 1], -1)-p[:, 1]*np.roll(p[:, 0], -1)); c.ok(ap.shape == ((nx-1)*(ny-1), 4, 2), "ap:shape"); c.close([area(p) for p in ap], np.outer(np.diff(gy), np.diff(gx)).ravel(), "ap:area", 1e-9)
            nx, ny = rng.integers(3, 12, 2); pix = logu(rng, .01, 10); X, Y = np.meshgrid(np.arange(nx)*pix+rng.normal(), np.arange(ny)*pix+rng.normal(), indexing="ij"); nb = int(rng.integers(2, 6)); sd2 = rng.uniform(0, 12, (nb, 2)); tag = np.argmin((np.arange(nx)[:, None, None]-sd2[:, 0])**2+(np.arange(ny)[None, :, None]-sd2[:, 1])**2*1.01, axis=2)
            from scipy import ndimage
            pol = S.getBinnedApertures(X.ravel(), Y.ravel(), tag.ravel()); tags = np.unique(tag); c.ok(len(pol) == len(tags), "bin:count")
            for t, p in zip(tags, pol):
                p = np.asarray(p, float); lab, nc = ndimage.label(tag == t); holes = ndimage.label(tag != t, np.ones((3, 3)))[1]
                if nc == 1 and not (ndimage.binary_fill_holes(tag == t) != (tag == t)).any(): c.close(abs(area(p)), np.sum(tag == t)*pix**2, "bin:area", 1e-3, 1e-4*pix*pix+3e-6*np.sum(tag==t)*pix)
def splhelp(c):
    rng = c.rng
    for i in range(c.n(120)):
        D = int(rng.integers(0, 4)); n = int(rng.integers(2, 12)); g = np.cumsum(np.exp(rng.normal(size=n)*.6))+rng.normal()*3; A = rng.normal(size=n+D-1); L = g[-1]-g[0]; x = np.concatenate([rng.uniform(g[0]-.1*L, g[-1]+.1*L, 15), g]); gl = g if rng.random() < .7 else list(g); inr = (x >= g[0]) & (x <= g[-1])
        with c.case("bspline", dict(i=i, degree=D, grid=g)):
            kn = np.concatenate([np.full(D, g[0]), g, np.full(D, g[-1])]); sp = interpolate.BSpline(kn, A, D, extrapolate=False); ref = np.nan_to_num(sp(x)); v = agama.bsplineInterp(D, gl, A, x); c.ok(np.shape(v) == x.shape, "bs:shape"); c.close(v, ref, "bs:interp", 1e-10, 1e-11); c.close(agama.Spline(g, ampl=A)(x[inr]), v[inr], "bs:compiled", 1e-10, 1e-11)
            s = agama.bsplineInterp(D, gl, A, float(x[0])); c.ok(np.ndim(s) == 0, "bs:scalar-shape"); c.close(s, v[0], "bs:scalar", 0); o = agama.bsplineInterp(D, gl, A, x[:1]); c.ok(np.shape(o) == (1,), "bs:length1-shape", str(np.shape(o))); c.close(o, v[:1], "bs:length1", 0); m2 = agama.bsplineInterp(D, gl, A, x[:4].reshape(2, 2)); c.ok(np.shape(m2) == (2, 2), "bs:2d", str(np.shape(m2))); c.close(agama.bsplineInterp(D, gl, A, list(x)), v, "bs:list", 0); c.ok(np.shape(agama.bsplineInterp(D, gl, A, x[:0])) == (0,), "bs:empty")
            q, w = glpanels(g, 10)
            for p in range(5): c.close(np.dot(agama.bsplineIntegrals(D, gl, p), A), np.sum(w*np.nan_to_num(sp(q))*q**p), "bs:integral", 1e-9, 1e-11*np.abs(w).sum()*np.abs(g).max()**p)
            M = agama.bsplineMatrix(D, gl); c.ok(M.shape == (n+D-1,)*2, "bs:matrix-shape"); c.close(M, M.T, "bs:symmetric", 0, 1e-14*L); bas = lambda d, gg, q: np.stack([np.nan_to_num(interpolate.BSpline(np.concatenate([np.full(d, gg[0]), gg, np.full(d, gg[-1])]), e, d, extrapolate=False)(q)) for e in np.eye(len(gg)+d-1)]); b1 = bas(D, g, q); c.close(M, (b1*w)@b1.T, "bs:matrix", 1e-9, 1e-11*L)
            D2 = int(rng.integers(0, 4)); g2 = np.sort(rng.uniform(g[0]-.3*L, g[-1]+.3*L, int(rng.integers(2, 8)))); N = agama.bsplineMatrix(D, gl, D2, g2); qq, ww = glpanels(np.unique(np.concatenate([g, g2])), 10); c.close(N, (bas(D, g, qq)*ww)@bas(D2, g2, qq).T, "bs:matrix2", 1e-9, 1e-11*L); c.raises(lambda: agama.bsplineMatrix(D, gl, D2), "bs:half"); c.close(agama.bsplineMatrix(D, gl, D, g), M, "bs:matrix-same", 1e-10, 1e-12*L)
        with c.case("ghinterp", dict(i=i)):
            k = int(rng.integers(2, 9)); h = rng.normal(size=k); am, ce, wi = logu(rng, .1, 10), rng.normal(), logu(rng, .1, 10); x = ce+wi*rng.normal(size=7)*2; y = (x-ce)/wi; P = [np.ones_like(y), np.sqrt(2)*y]
            for j in range(2, k): P.append((np.sqrt(2.)*y*P[-1]-np.sqrt(j-1.)*P[-2])/np.sqrt(j))
            ref = am/wi/np.sqrt(2*np.pi)*np.exp(-y*y/2)*(h@np.array(P[:k])); v = agama.ghInterp(am, ce, wi, h, x); c.ok(np.shape(v) == x.shape, "gh:shape"); c.close(v, ref, "gh:value", 1e-10, 1e-12*am/wi)
            s = agama.ghInterp(am, ce, wi, h, float(x[0])); c.ok(np.ndim(s) == 0, "gh:scalar-shape"); c.close(s, ref[0], "gh:scalar", 1e-10, 1e-12*am/wi); c.close(agama.ghInterp(am, ce, wi, list(h), list(x)), ref, "gh:list", 1e-10, 1e-12*am/wi); c.close(agama.ghInterp(am, ce, wi, None, x), am/wi/np.sqrt(2*np.pi)*np.exp(-y*y/2), "gh:gauss", 1e-12)
        with c.case("grid", dict(i=i)):
            n = int(rng.integers(3, 40)); x0 = logu(rng, 1e-3, 10); x1 = x0*((n-1)**rng.uniform(.3, 1) if rng.random() < .3 else logu(rng, n-1, 1e6 if n > 3 else 1e3)); x1 = max(x1, x0*1.0001)
            g = np.array(agama.nonuniformGrid(n, x0, x1)); c.ok(len(g) == n and g[0] == 0, "grid:shape"); c.close(g[1], x0, "grid:first", 1e-5); c.close(g[-1], x1, "grid:last", 1e-9); d = np.diff(g); r = d[1:]/d[:-1]; c.ok(np.all(d > 0), "grid:increasing"); c.close(r, r[0], "grid:geometric", 1e-5); c.close(agama.nonuniformGrid(n, x0), np.arange(n)*x0, "grid:uniform", 1e-12); c.close(agama.nonuniformGrid(n, x0, x0*(n-1)), np.arange(n)*x0, "grid:uniform-explicit", 1e-7)
            n = int(rng.integers(4, 41)); x1 = x0*.5*(n-1)*logu(rng, 1, 1e3); g = np.array(agama.symmetricGrid(n, x0, x1)); c.ok(len(g) == n, "sgrid:shape"); c.close(g, -g[::-1], "sgrid:symmetric", 1e-14); c.close(g[-1], x1, "sgrid:last", 1e-9); c.close(g[n//2+n%2]-(g[n//2] if n % 2 else g[n//2-1]), x0, "sgrid:first", 1e-5) if n % 2 else c.close(g[n//2]-g[n//2-1], x0, "sgrid:central", 1e-5); c.ok(np.all(np.diff(g) > 0), "sgrid:increasing"); c.close(agama.symmetricGrid(n, x0), (np.arange(n)-(n-1)/2)*x0, "sgrid:uniform", 1e-12, 1e-12*x0)
            c.raises(lambda: agama.nonuniformGrid(5, -1., 10.), "grid:negative"); c.raises(lambda: agama.nonuniformGrid(5, 2., 1.), "grid:order")
def orbitlib(c):
    rng = c.rng; pot = agama.Potential(type="Plummer")
    for i in range(c.n(60)):
        N = int(rng.integers(1, 8)); L = rng.integers(5, 60, N); T = np.empty((N, 2), dtype=object); dense = rng.random() < .2; dt = rng.choice([np.float32, np.float64])
        for j in range(N): T[j, 0] = np.arange(L[j]); T[j, 1] = np.column_stack([np.full(L[j], j), np.arange(L[j]), rng.normal(size=(L[j], 4))]).astype(dt)
        if dense: T = np.array(list(agama.orbit(potential=pot, ic=rng.normal(size=(N, 6))*.5, time=10., dtype=object, verbose=False))+[None], dtype=object)[:-1] if N > 1 else np.array([agama.orbit(potential=pot, ic=rng.normal(size=6)*.5, time=10., dtype=object, verbose=False), None], dtype=object)[:-1]
        w = rng.uniform(0, 1, N)*(rng.random(N) < .8); w[rng.integers(N)] += .1; w *= logu(rng, .01, 100); nb = int(rng.integers(1, 120)); np.random.seed(int(rng.integers(1 << 30)))
        with c.case("orbitlib:%s" % ("dense" if dense else "traj"), dict(i=i, N=N, nb=nb)):
            ok, R = agama.sampleOrbitLibrary(nb, T if (dense or rng.random() < .5) else T[:, 1], w, returnIndices=True); need = np.diff(np.concatenate([[0], np.round(np.cumsum(w)/w.sum()*nb)])).astype(int); c.le(abs(need-w/w.sum()*nb), 1.+1e-9, "lib:need")
            if not ok: bad, cnt = R; c.ok(not dense and np.array_equal(bad, np.where(need > L)[0]) and np.array_equal(cnt, need[bad]), "lib:failure"); continue
            xv, m, idx = R; c.ok(dense or np.all(need <= L), "lib:success"); c.ok(xv.shape == (nb, 6) and len(m) == nb and len(idx) == nb, "lib:shape"); c.close(m.sum(), w.sum(), "lib:mass", 1e-5); c.ok(np.array_equal(np.bincount(idx, minlength=N), need), "lib:counts"); c.ok(np.all(w[idx] > 0), "lib:zero-weight")
            if dense: E = pot.potential(xv[:, :3].astype(float))+.5*(xv[:, 3:].astype(float)**2).sum(1); E0 = np.array([(lambda p: pot.potential(p[:3].astype(float))+.5*(p[3:].astype(float)**2).sum())(np.array(T[j](T[j][0]), float)) for j in range(N)]); c.close(E, E0[idx], "lib:dense-energy", 1e-3, 1e-6)
            else: c.ok(np.array_equal(xv[:, 0].astype(int), idx), "lib:index"); c.ok(len(set(map(tuple, xv[:, :2]))) == nb, "lib:no-duplicates"); c.ok(all((T[int(p[0]), 1][int(p[1])] == p).all() for p in xv), "lib:points")
            ok2, R2 = agama.sampleOrbitLibrary(nb, T, w); c.ok(ok2 and len(R2) == 2, "lib:two")
            for bad in (lambda: agama.sampleOrbitLibrary(0, T, w), lambda: agama.sampleOrbitLibrary(nb, T, -w), lambda: agama.sampleOrbitLibrary(nb, T, w*0), lambda: agama.sampleOrbitLibrary(nb, T, np.append(w, 1.)), lambda: agama.sampleOrbitLibrary(nb, T, w*np.nan)): c.raises(bad, "lib:invalid")
def inertia(c):
    """measurement of axes of a snapshot"""
    from agama.py import measureshape as ms
    rng = c.rng
    for i in range(c.n(20)):
        N = 20000; ax = np.sort(logu(rng, .3, 1, 3))[::-1]; ax /= np.prod(ax)**(1/3); R = agama.makeRotationMatrix(*rng.uniform(0, 6, 3)); x = (dirs(rng, N)*rng.uniform(0, 1, (N, 1))**.7*ax*3)@R; m = rng.uniform(.5, 1.5, N)*logu(rng, .1, 10); rad = float(rng.uniform(.8, 3)) if rng.random() < .7 else np.inf
        with c.case("inertia", dict(i=i, axes=ax, radius=rad)):
            a, f, M = ms.getaxes(x, m, rad); c.close(a, ax, "shape:axes", .12); c.close(np.prod(a), 1, "shape:norm", 1e-9); c.close(M.T@M, np.eye(3), "shape:orthogonal", 0, 1e-12); c.close(np.linalg.det(M), 1, "shape:right-handed", 1e-12); y = x@M; I = (y[f]*m[f][:, None]).T@y[f]; c.le(abs(I-np.diag(np.diag(I))).max(), 1e-9*np.trace(I), "shape:aligned"); dI = np.diag(I); c.ok(dI[0] >= dI[1] >= dI[2], "shape:order"); e = ((y/a)**2).sum(1); c.le(np.mean((e < rad**2) != f), .05, "shape:filter")
            s = agama.Density(type="Plummer") if False else None
GROUPS = dict(celestial=dict(fn=celestial, cost=8), ellipsoids=dict(fn=ellipsoids, cost=8), library=dict(fn=library, cost=8), splhelp=dict(fn=splhelp, cost=8), orbitlib=dict(fn=orbitlib, cost=4), inertia=dict(fn=inertia, cost=4))
