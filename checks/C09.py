import os, warnings, numpy as np
from common import *
from scipy.optimize import brentq
if not os.environ.get("VERIF_META_ONLY"):
    from vh import Skip
RULE = ("random spherical, Staeckel and general axisymmetric potentials x bound phase-space points (generic, near-circular, near-radial, planar, polar, on axes and planes) x finders (stand-alone, object, interpolated) and mappers; "
  "a case is a set of points or one orbit on which actions, angles and frequencies are compared with independent quadratures, with conservation and linearity along integrated orbits, with the symplectic condition on finite-difference Jacobians, and with the inverse mapping")
ASSUMPTIONS = ["the force and potential are correct (C02) and orbit integration is accurate (C08)", "the Staeckel approximation is exact only for Staeckel potentials; elsewhere only its documented accuracy level is demanded, in the median"]
J0 = np.zeros((6, 6)); J0[:3, 3:] = np.eye(3); J0[3:, :3] = -np.eye(3)
SPH = ["Isochrone", "Plummer", "NFW", "Dehnen", "King", "SpheroidSph", "CompositeSph", "IsochroneMix", "PowerCut", "Kepler+"]
def sphmodel(rng, k):
    L, M = logu(rng, 1e-2, 1e2), logu(rng, 1e-2, 1e2); b = dict(mass=M, scaleRadius=L); k = SPH[k % len(SPH)]; cusp = k in ("NFW", "Dehnen", "SpheroidSph", "PowerCut", "Kepler+")
    if k in ("Isochrone", "Plummer", "NFW"): s = [dict(type=k, **b)]
    elif k == "Dehnen": s = [dict(type=k, gamma=pick(rng, [0, .5, 1, 1.5], 0, 1.9), **b)]
    elif k == "King": s = [dict(type=k, W0=float(rng.uniform(2, 8)), **b)]
    elif k == "LogSph": s = [dict(type="Logarithmic", v0=np.sqrt(M/L), scaleRadius=L*logu(rng, .1, 1))]
    elif k == "SpheroidSph": s = [dict(type="Spheroid", gamma=float(rng.uniform(0, 1.8)), beta=float(rng.uniform(2.3, 6)), alpha=float(rng.uniform(.7, 2)), outerCutoffRadius=30*L, **b)]
    elif k == "CompositeSph": s = [dict(type="Plummer", **b), dict(type="NFW", mass=3*M, scaleRadius=5*L)]
    elif k == "IsochroneMix": s = [dict(type="Isochrone", mass=.5*M, scaleRadius=L), dict(type="Isochrone", mass=.5*M, scaleRadius=L)]
    elif k == "PowerCut": s = [dict(type="Spheroid", gamma=1.5, beta=1.5, outerCutoffRadius=L, **b)]
    elif k == "Kepler+": s = [dict(type="Plummer", **b), dict(type="Plummer", mass=M*logu(rng, .003, .3), scaleRadius=0.)]
    return k, s, agama.Potential(*s), L, cusp
def bound(rng, pot, L, n, lo=.1, hi=10):
    """phase-space points of bound orbits, a part of them special"""
    x = points(rng, n, lo*L, hi*L, .2); P = pot.potential(x); a = pot.force(x); r = np.linalg.norm(x, axis=1); vc = np.sqrt(np.linalg.norm(a, axis=1)*r); vesc = np.sqrt(2*np.maximum(0, pot.potential(1e6*L, 0, 0)-P)); v = dirs(rng, n)*np.minimum(vc*rng.uniform(.1, 1.3, n), .93*vesc)[:, None]
    for i in range(n):
        k = rng.integers(12); e = np.cross(x[i]/r[i], dirs(rng, 1)[0]); e /= np.linalg.norm(e)
        if k == 0: v[i] = vc[i]*e                                  # circular (in a spherical potential)
        if k == 1: v[i] = x[i]/r[i]*vc[i]*.5                       # radial
        if k == 2: x[i, 2] = v[i, 2] = 0                           # planar
        if k == 3: v[i] = vc[i]*(e+1e-6*rng.normal(size=3))        # nearly circular
        if k == 4: v[i] = vc[i]*.7*(x[i]/r[i]+1e-6*e)              # nearly radial
        if k == 5: v[i] = np.cross(np.cross(x[i], v[i]), x[i])/r[i]**2; v[i] = v[i]   # tangential
        if k == 6: x[i, 1] = v[i, 1] = 0                           # polar, Lz=0
    w = np.column_stack((x, v)); ok = (np.linalg.norm(x, axis=1) > 1e-3*lo*L)
    return w[ok]
def sphref(pot, w, ngl=400):
    """independent radial action and frequencies: turning points by bisection, Gauss-Chebyshev type quadrature"""
    r = np.linalg.norm(w[:3]); vr = w[:3] @ w[3:]/r; Lv = np.cross(w[:3], w[3:]); L = np.linalg.norm(Lv); E = pot.potential(w[:3])+.5*(w[3:]**2).sum()
    f = lambda r: 2*(E-pot.potential(r, 0, 0))-(L/r)**2
    if L < 1e-5*r*np.linalg.norm(w[3:]) or abs(vr) < 1e-5*np.linalg.norm(w[3:]) and abs(pot.force(w[:3])@w[:3]+(w[3:]**2).sum()) < 1e-3*(w[3:]**2).sum(): return E, L, Lv, None
    if f(r) < 0: return E, L, Lv, None
    a = r
    while f(a) > 0: a *= .8
    try: r1 = brentq(f, a, a/.8, xtol=1e-300, rtol=1e-15) if a < r else r
    except ValueError: return E, L, Lv, None
    b = r
    while f(b) > 0:
        b *= 1.25
        if b > 1e6*r: return E, L, Lv, None
    try: r2 = brentq(f, b/1.25, b, xtol=1e-300, rtol=1e-15) if b > r else r
    except ValueError: return E, L, Lv, None
    # a point located at a turning point
    if r1 == r2 or r2/r1 < 1+1e-3: return E, L, Lv, None
    # log-radius mapping with square-root endpoint behaviour removed
    x, wt = glint(0, pi, ngl); m, h = .5*(np.log(r1)+np.log(r2)), .5*(np.log(r2)-np.log(r1)); rr = np.exp(m-h*np.cos(x)); dr = rr*h*np.sin(x)*wt; z = np.zeros(ngl); v2 = 2*(E-pot.potential(np.column_stack((rr, z, z))))-(L/rr)**2; g = v2 > 0; vr = np.sqrt(np.maximum(v2, 0))
    Jr = np.sum(vr*dr)/pi; T = np.sum(dr[g]/vr[g]); Om = pi/T; dphi = np.sum(L/rr[g]**2/vr[g]*dr[g])
    return E, L, Lv, (Jr, Om, Om*dphi/pi, r1, r2)
def wrap(a): return (a+pi)%(2*pi)-pi
def jacobian(f, w, h):
    """6x6 derivative of (J, theta) by 4th-order differences; angles are unwrapped relative to the centre"""
    c0 = f(w[None])[0]; M = np.zeros((6, 6)); err = 0
    P = np.concatenate([w[None]+np.outer([-2, -1, 1, 2], np.eye(6)[k]*h[k]) for k in range(6)]); F = f(P)-c0; F[:, 3:] = wrap(F[:, 3:]); F = F.reshape(6, 4, 6)
    for k in range(6):
        d4 = (F[k, 0]-8*F[k, 1]+8*F[k, 2]-F[k, 3])/12; d2 = (F[k, 2]-F[k, 1])/2; M[:, k] = d4/h[k]; err = max(err, 0)
        D2 = d2/h[k]
        if k == 0: E2 = np.zeros((6, 6))
        E2[:, k] = abs(M[:, k]-D2)
    return M, E2
def symplectic(c, f, w, L, V, key, h=1e-3, tol=1e-4):
    """(x,v) -> (theta,J) preserves the symplectic form:  d(theta,J)/d(x,v) S d(..)^T = S"""
    hh = np.array([L*h]*3+[V*h]*3); M, err = jacobian(f, w, hh)
    if not np.all(np.isfinite(M)): return
    sJ = L*V; A = M*np.array([L]*3+[V]*3)/np.array([[sJ]]*3+[[1]]*3); e = err*np.array([L]*3+[V]*3)/np.array([[sJ]]*3+[[1]]*3)
    if e.max() > 2e-2*max(1, abs(A).max()) or abs(A).max() > 100: return   # too close to a singularity of the coordinates
    B = np.vstack((A[3:], A[:3])); R = B @ J0 @ B.T; c.event("symplectic"); t = tol*max(1, abs(A).max())**2+.5*e.max()*max(1, abs(A).max())*.02
    c.close(R, J0, key, 0, t)
def consistency(c, f, w, key, tol=1e-12):
    """any combination of outputs, scalar and batch input"""
    a = f(w); aa, th, om = f(w, angles=True, frequencies=True); c.ok(aa.shape == th.shape == om.shape == (len(w), 3), key+":shape")
    if tol is not None: c.close(aa, a, key+":actions-with-angles", tol, 1e-12*np.nanmax(abs(a), initial=1e-300), equal_nan=True)
    r = f(w, actions=False, angles=True, frequencies=True); c.close(r[0], th, key+":angles", 1e-11, 1e-9, equal_nan=True); c.close(r[1], om, key+":freq", 1e-11, equal_nan=True)
    r = f(w, angles=True, frequencies=False); c.ok(len(r) == 2, key+":n"); c.close(r[1], th, key+":angles-nofreq", 1e-11, 1e-9, equal_nan=True); c.close(r[0], aa, key+":act-nofreq", 1e-11, 1e-12*np.nanmax(abs(a), initial=1e-300), equal_nan=True)
    r = f(w, frequencies=True); c.close(r[1], om, key+":freq-only", 1e-11, equal_nan=True)
    r = f(w, actions=False, frequencies=True); c.ok(np.shape(r) == (len(w), 3), key+":single-output"); c.close(r, om, key+":freq-alone", 1e-11, equal_nan=True)
    r = f(w, angles=True); c.ok(len(r) == 3, key+":default-frequencies")
    k = int(c.rng.integers(len(w))); s = f(w[k], angles=True, frequencies=True); c.ok(all(np.shape(q) == (3,) for q in s), key+":scalar-shape"); c.close(s[0], aa[k], key+":scalar", 1e-13, equal_nan=True); c.close(s[1], th[k], key+":scalar-ang", 1e-13, 1e-13, equal_nan=True); c.close(s[2], om[k], key+":scalar-freq", 1e-13, equal_nan=True)
    return a, aa, th, om
def basic(c, w, J, th, om, key, sJ):
    """ranges, Lz, discrete symmetries"""
    c.close(J[:, 2], w[:, 0]*w[:, 4]-w[:, 1]*w[:, 3], key+":Jphi=Lz", 1e-13, 1e-14*np.linalg.norm(w[:, :3], axis=1)*np.linalg.norm(w[:, 3:], axis=1)); c.ok(np.all(J[:, :2] >= 0), key+":nonnegative", "J=%s" % J[np.argmin(J[:, :2].min(1))] if len(J) else "")
    c.ok(np.all(np.isfinite(J)), key+":finite", "not finite at %s" % w[~np.isfinite(J).all(1)][:1])
    if th is not None: g = np.isfinite(th) & ((J[:, 0] > 1e-3*abs(J).sum(1)) & (J[:, 1] > 1e-3*abs(J).sum(1)))[:, None]; c.ok(np.all((th[g] >= 0) & (th[g] <= 2*pi)), key+":angle-range", "angles outside [0,2pi): %s" % th[g][(th[g] < 0) | (th[g] > 2*pi)][:3], info=dict(w=w[((th < 0)|(th>2*pi)).any(1)], J=J[((th < 0)|(th>2*pi)).any(1)], th=th[((th < 0)|(th>2*pi)).any(1)]))
    if om is not None:
        g = np.isfinite(om).all(1) & (J[:, 1] > 1e-9*abs(J).sum(1)); c.ok(np.all(om[g][:, :2] > 0), key+":freq-positive"); c.ok(np.all(om[g][:, 2]*J[g][:, 2] >= 0), key+":freq-sign")
def symmetries(c, f, w, key, sJ, gen, tol=1e-9, at=None):
    """rotation about z, time reversal, reflections: exact relations between actions, angles and frequencies"""
    J, th, om = f(w, angles=True); sJ = np.reshape(sJ, (-1, 1)); at = at or 3e4*tol   # angles are more sensitive to roundoff near turning points
    def cmp(wn, sj, so, what, ang):
        a, t, o = f(wn, angles=True); c.close(a, J*sj, key+":"+what+"-J", 1e3*tol, 100*tol*sJ); c.close(o[gen], om[gen]*so, key+":"+what+"-om", 1e4*tol); d = wrap(ang(t, th))[gen]; c.close(d, 0, key+":"+what+"-theta", 0, at, info=dict(w=w[gen][np.argmax(abs(d).max(1))], J=J[gen][np.argmax(abs(d).max(1))]) if len(d) else None)
    A = np.array; ph = float(c.rng.uniform(-3, 3)); R = rotmat(ph, 0, 0)[:3, :3].T
    cmp(np.hstack((w[:, :3] @ R.T, w[:, 3:] @ R.T)), 1, 1, "rot", lambda t, t0: t-t0-A([0, 0, ph])); cmp(w*A([1, 1, -1, 1, 1, -1]), 1, 1, "refl", lambda t, t0: t-t0-A([0, pi, 0])); cmp(w*A([1, -1, 1, 1, -1, 1]), A([1, 1, -1]), A([1, 1, -1]), "mirror", lambda t, t0: t*A([1, 1, -1])-t0)
    # time reversal combined with a mirror keeps the sense of rotation: theta_r -> -theta_r, theta_z -> pi-theta_z, up to the common origin of angles
    cmp(w*A([1, 1, 1, -1, -1, -1]), A([1, 1, -1]), A([1, 1, -1]), "rev", lambda t, t0: (t+t0)[:, [0, 0, 0]])
def alongorbit(c, pot, f, ic, key, sJ, jt=1e-6, tt=1e-4, at=1e-3, nper=3):
    """actions constant, angles linear with the reported frequencies; returns rms action variation"""
    J0_, th0, om0 = f(ic, angles=True)
    if not np.all(np.isfinite(np.concatenate((J0_, th0, om0)))): return None
    T = 2*pi/om0[0]*nper; t, tr = agama.orbit(potential=pot, ic=ic, time=T, trajsize=41, dtype=float, accuracy=1e-12, verbose=False); J, th, om = f(tr, angles=True)
    m = np.array([J0_[0] > 1e-3*sJ, J0_[1] > 1e-3*sJ, abs(J0_[2]) > 1e-3*sJ]); c.close(J, J0_, key+":J", 0, jt*sJ); c.close(om[:, m], om0[m], key+":Omega", tt, 0); d = wrap(th-th0-np.outer(t, om0)); 
    if at is not None: c.close(d[:, m], 0, key+":theta", 0, at+min(tt, 2e-3)*T*np.max(abs(om0)))
    c.event("orbit-points", len(t)); return J
def spherical(c):
    rng = c.rng
    for i in range(c.n(33)):
        k, s, pot, L, cusp = sphmodel(rng, i)
        with c.case("spherical:%s" % k, dict(spec=s)):
            w = bound(rng, pot, L, 20, .05, 20); st = lambda x, **kw: agama.actions(pot, x, **kw); kep = k == "Kepler+"; rough = k in ("King", "PowerCut", "SpheroidSph")
            if not kep: af = agama.ActionFinder(pot); am = agama.ActionMapper(pot)
            # reference integrals; ill-conditioned points (nearly circular, nearly radial) have none
            refs = [sphref(pot, q) for q in w]; Lt = np.array([q[1] for q in refs]); Lz = np.array([q[2][2] for q in refs]); sJ = np.array([q[1]+(q[3][0] if q[3] else 0) for q in refs]); sJ = np.maximum(sJ, .05*np.linalg.norm(w[:, :3], axis=1)*np.linalg.norm(w[:, 3:], axis=1))
            has = np.array([q[3] is not None for q in refs]); Jr, Or, Oz = [np.array([q[3][n] if q[3] else np.nan for q in refs]) for n in (0, 1, 2)]; good = has & (Jr > .01*sJ) & (Lt > .03*sJ); gang = good & (Lt-abs(Lz) > 1e-3*Lt) & (abs(Lz) > 1e-3*Lt)
            for name, f, tJ, tO, tA in [("standalone", st, 1e-3 if kep else 1e-5, 5e-3 if kep else 2e-4, 2e-2 if kep else 2e-3)]+([] if kep else [("finder", af, 3e-3 if rough else 3e-4, 3e-2 if rough else 3e-3, .15 if rough else .03)]):
                J, JJ, th, om = consistency(c, f, w, name); basic(c, w, J, th, om, name, 1)
                c.close(J[:, 1], Lt-abs(Lz), name+":Jz", 1e-9, 1e-12*sJ); c.close(J[has, 0], Jr[has], name+":Jr", 0, tJ*sJ[has]); c.close(om[good, 0], Or[good], name+":Omega_r", tO); c.close(om[good, 1], Oz[good], name+":Omega_z", tO); zz = abs(Lz) > 1e-9*np.linalg.norm(w[:, :3], axis=1)*np.linalg.norm(w[:, 3:], axis=1); c.close(om[zz, 2], (om[:, 1]*np.sign(Lz))[zz], name+":Omega_phi", 1e-10, equal_nan=True); c.event("reference-integrals", int(has.sum()))
                # circular orbits
                r = L*logu(rng, .1, 10); vc = np.sqrt(r*-pot.force(r, 0, 0)[0]); inc = float(rng.uniform(0, 3)); cw = np.array([r, 0, 0, 0, vc*np.cos(inc), vc*np.sin(inc)]); a, t, o = f(cw, angles=True); c.close(a, [0, r*vc*(1-abs(np.cos(inc))), r*vc*np.cos(inc)], name+":circular", 0, 1e-6*r*vc); c.close(o[1], vc/r, name+":circular-Omega", 1e-3)
                H = pot.eval(np.array([[r, 0, 0], [0, r, 0]]), der=True); kap = np.sqrt(-H[0, 0]+3*(vc/r)**2); c.close(o[0], kap, name+":circular-kappa", 2e-2 if rough else 3e-3)
                # the phase along a circular inclined orbit advances linearly (theta_r is arbitrary but constant up to its own frequency)
                n = dirs(rng, 2); e1 = n[0]; e2 = np.cross(n[0], n[1]); e2 /= np.linalg.norm(e2); ph = rng.uniform(0, 6, 8); cs, sn = np.cos(ph)[:, None], np.sin(ph)[:, None]; a, t, o = f(np.hstack((r*(cs*e1+sn*e2), vc*(cs*e2-sn*e1))), angles=True); Lc = np.cross(e1, e2)[2]
                if .02 < abs(Lc) < .98: c.close(o[:, 1], vc/r, name+":circular-inclined-Omega", 1e-3); c.close(o[:, 0], kap, name+":circular-inclined-kappa", 2e-2 if rough else 3e-3); d = wrap(t-ph[:, None]*o[0]*r/vc); d = wrap(d-d[0])[:, 1:]; c.close(d, 0, name+":circular-inclined-theta", 0, 1e-2 if name == "standalone" else .1); c.event("circular", 8)
                # radial orbit
                vr = np.sqrt(2*abs(pot.potential(L, 0, 0)-pot.potential(2*L, 0, 0))); a = f(np.array([0, 0, L, 0, 0, vr])); c.close(a[1:], 0, name+":radial-JzJphi", 0, 1e-12*L*vr)
                x, wt = glint(0, pi/2, 300); q = 2*L*np.sin(x)**2; v2 = 2*(pot.potential(2*L, 0, 0)-pot.potential(np.column_stack((q, 0*q, 0*q)))); c.close(a[0], np.sum(np.sqrt(np.maximum(v2, 0))*4*L*np.sin(x)*np.cos(x)*wt)/pi, name+":radial-Jr", 1e-3 if not rough else 5e-3)
                for j in np.where(gang & (Jr > .05*sJ) & (Lt > .1*sJ))[0][:4]:
                    V = np.linalg.norm(w[j, 3:]); l = np.linalg.norm(w[j, :3]); fn = lambda x: np.hstack(f(x, angles=True, frequencies=False)); symplectic(c, fn, w[j], l, V, name+":symplectic", 1e-3, (2e-4 if not rough else 5e-3) if name == "standalone" else .2 if not rough else .6)
                symmetries(c, f, w, name, sJ, gang, 1e-9 if name == "standalone" else 1e-8, None if name == "standalone" else tA)
                n = 0
                for j in rng.permutation(np.where(gang)[0])[:3]: alongorbit(c, pot, f, w[j], name+":orbit", sJ[j], (1e-4 if rough else 1e-5) if name == "standalone" else tJ, tO, tA)
                vs = np.sqrt(max(0, -2*pot.potential(L, 0, 0))); u = f(np.array([L, 0, 0, 0, 1.2*vs, .3*vs]), angles=True); c.ok(np.isnan(u[0][0]) and np.isnan(u[2][0]) and np.isnan(u[1][0]), name+":unbound", "actions, angles, frequencies of an unbound orbit: %s" % (u,))
            if kep: continue
            Js, ts, os_ = st(w, angles=True); Jf, tf, of = af(w, angles=True); c.close(Jf, Js, "finder=standalone:J", 0, tJ*sJ[:, None]); c.close(wrap(tf-ts)[gang], 0, "finder=standalone:theta", 0, tA); c.close(of[good], os_[good], "finder=standalone:Omega", tO)
            # mapper
            n = 15; jt = L*np.sqrt(L*-pot.force(L, 0, 0)[0]); A = np.column_stack([jt*np.exp(rng.uniform(np.log(.03), np.log(3), (n, 2))), jt*np.exp(rng.uniform(np.log(.03), np.log(3), n))*np.sign(rng.normal(size=n)), rng.uniform(0, 2*pi, (n, 3))])
            if rng.random() < .5: A[0, 0] = 0
            if rng.random() < .5: A[1, 1] = 0
            x, Om = am(A, frequencies=True); c.ok(np.all(np.isfinite(x)), "map-finite"); c.close(am(A), x, "map-nofreq", 1e-13); c.close(am(A[2]), x[2], "map-scalar", 1e-13); sc = A[:, :3].__abs__().sum(1)[:, None]; c.close(x[:, 0]*x[:, 4]-x[:, 1]*x[:, 3], A[:, 2], "map-Lz", 1e-9); Lv = np.linalg.norm(np.cross(x[:, :3], x[:, 3:]), axis=1); c.close(Lv, A[:, 1]+abs(A[:, 2]), "map-L", 1e-8)
            J, th, om = st(x, angles=True); c.close(J, A[:, :3], "map-inverse:J", 0, tJ*sc); g = (A[:, 0] > .02*sc[:, 0]) & (A[:, 1] > 0); c.close(wrap(th-A[:, 3:])[g], 0, "map-inverse:theta", 0, tA); c.close(om[g], Om[g], "map-inverse:Omega", tO); c.event("mapped", n)
            am2 = am(A+np.array([0, 0, 0, 2*pi, -2*pi, 4*pi])); c.close(am2, x, "map-periodic", 1e-3, 1e-3*np.max(abs(x), axis=1)[:, None])
            # frequencies are derivatives of the Hamiltonian
            H = lambda a: (lambda y: pot.potential(y[:, :3])+.5*(y[:, 3:]**2).sum(1))(am(a))
            for d in range(3):
                e = np.zeros(6); e[d] = 1; h = 1e-2*abs(A[:, d]); gg = g & (h > 0); dd = (H(A+e*h[:, None])-H(A-e*h[:, None]))/(2*h+1e-300); c.close(dd[gg], Om[gg, d], "dH/dJ%d" % d, 2*tO)
            bad = am(np.array([-jt, jt, jt, 1, 1, 1.])); c.ok(np.all(np.isnan(bad)), "map-negative-Jr", str(bad)); bad = am(np.array([jt, -jt, jt, 1, 1, 1.])); c.ok(np.all(np.isnan(bad)), "map-negative-Jz", str(bad))
def staeckel(c):
    """the oblate perfect ellipsoid: exactly integrable; also treated through the approximation with the exact focal distance"""
    rng = c.rng
    for i in range(c.n(12)):
        L, M, q = logu(rng, 1e-2, 1e2), logu(rng, 1e-2, 1e2), float(rng.uniform(.15, .95)); sp = dict(type="PerfectEllipsoid", mass=M, scaleRadius=L, axisRatioZ=q); pot = agama.Potential(**sp); pot2 = agama.Potential(dict(sp, mass=.5*M), dict(sp, mass=.5*M)); fd = L*np.sqrt(1-q*q)
        with c.case("staeckel", dict(spec=sp)):
            w = bound(rng, pot, L, 24, .1, 10); af = agama.ActionFinder(pot); st = lambda x, **kw: agama.actions(pot, x, fd=fd, **kw); fu = lambda x, **kw: agama.actions(pot2, x, fd=fd, **kw)
            R = {}
            for name, f, tol in (("exact", st, 1e-6), ("finder", af, 1e-6), ("fudge", fu, 1e-5)):
                J, JJ, th, om = consistency(c, f, w, name); basic(c, w, J, th, om, name, 1); R[name] = (J, th, om); sJ = np.median(abs(J).sum(1))
                sJv = abs(J).sum(1); symmetries(c, f, w, name, sJv, (J[:, 0] > .01*sJv) & (J[:, 1] > .01*sJv) & (abs(J[:, 2]) > .01*sJv), 1e-8)
                for j in range(6):
                    ic = w[int(rng.integers(len(w)))]; a = f(ic); b = abs(a)/abs(a).sum(); gen = min(b[:2]) > .02 and b[2] > .25
                    alongorbit(c, pot, f, ic, name+":orbit", abs(a).sum(), 1e-4 if name != "finder" else 1e-2, 1e-2 if name != "finder" else 3e-2, .05 if gen else None)   # the accuracy of angles deteriorates for small Lz
                    if not gen: continue
                    V = np.linalg.norm(ic[3:]); l = np.linalg.norm(ic[:3]); symplectic(c, lambda x: np.hstack(f(x, angles=True, frequencies=False)), ic, l, V, name+":symplectic", 1e-3, .05)
                r = L*logu(rng, .2, 5); vc = np.sqrt(r*-pot.force(r, 0, 0)[0]); a, t, o = f(np.array([r, 0, 0, 0, vc, 0]), angles=True); c.close(a, [0, 0, r*vc], name+":circular", 0, 1e-6*r*vc); H = pot.eval(np.array([r, 0, 0]), der=True); c.close(o[0], np.sqrt(-H[0]+3*(vc/r)**2), name+":kappa", 1e-3); c.close(o[2], vc/r, name+":Omega", 1e-3); o = f(np.array([r, 0, 0, 0, vc, 3e-3*vc]), frequencies=True)[1]; c.close(o, [np.sqrt(-H[0]+3*(vc/r)**2), np.sqrt(-H[2]), vc/r], name+":epicyclic-freq", 3e-3)
                vs = np.sqrt(-2*pot.potential(L, 0, L)); u = f(np.array([L, 0, L, 0, 1.1*vs, 0]), angles=True); c.ok(np.isnan(u[0][0]) and np.isnan(u[2]).any(), name+":unbound", str(u))
            sJ = abs(R["exact"][0]).sum(1)[:, None]; lz = abs(R["exact"][0][:, 2]) > 1e-3*sJ[:, 0]; dd = (abs(R["finder"][0]-R["exact"][0])/sJ)[lz]; c.ok(np.max(dd) < 5e-3 and np.median(dd) < 1e-5, "finder=exact", "max and median deviation %g %g" % (np.max(dd), np.median(dd))); c.close(R["fudge"][0][lz], R["exact"][0][lz], "fudge=exact", 0, 1e-4*sJ[lz]); g = (R["exact"][0][:, 0] > 1e-2*sJ[:, 0]) & (R["exact"][0][:, 1] > 1e-2*sJ[:, 0]); c.close(R["fudge"][2][g], R["exact"][2][g], "fudge=exact:Omega", 3e-3, equal_nan=True); c.close(wrap(R["fudge"][1]-R["exact"][1])[g], 0, "fudge=exact:theta", 0, 1e-2, equal_nan=True)
            af2 = agama.ActionFinder(pot2); J = af2(w); c.close(J[lz], R["exact"][0][lz], "focal=exact", 0, .1*sJ[lz]); c.ok(np.median(abs(J-R["exact"][0])/sJ) < 3e-3, "focal=exact:median", "median deviation %g" % np.median(abs(J-R["exact"][0])/sJ))
AX = [lambda rng, L, M: [dict(type="MiyamotoNagai", mass=M, scaleRadius=L, scaleHeight=L*logu(rng, .1, 1)), dict(type="NFW", mass=10*M, scaleRadius=5*L)],
    lambda rng, L, M: [dict(type="Spheroid", mass=M, scaleRadius=L, gamma=float(rng.uniform(0, 1.5)), beta=float(rng.uniform(3, 5)), axisRatioZ=float(rng.uniform(.5, .9)), outerCutoffRadius=30*L)],
    lambda rng, L, M: [dict(type="Disk", mass=M, scaleRadius=L, scaleHeight=.15*L), dict(type="Spheroid", mass=10*M, scaleRadius=4*L, gamma=1, beta=3, outerCutoffRadius=50*L), dict(type="Spheroid", mass=.3*M, scaleRadius=.2*L, gamma=1, beta=4, axisRatioZ=.6)],
    lambda rng, L, M: [dict(type="PerfectEllipsoid", mass=M, scaleRadius=L, axisRatioZ=float(rng.uniform(.5, .9))), dict(type="MiyamotoNagai", mass=M*logu(rng, .1, 1), scaleRadius=L, scaleHeight=.3*L)],
    lambda rng, L, M: [dict(type="Plummer", mass=M, scaleRadius=L), dict(type="MiyamotoNagai", mass=M, scaleRadius=2*L, scaleHeight=.5*L)]]
def fudge(c):
    rng = c.rng
    for i in range(c.n(5)):
        L, M = logu(rng, 1e-2, 1e2), logu(rng, 1e-2, 1e2); s = AX[i % len(AX)](rng, L, M); pot = agama.Potential(*s)
        with c.case("fudge", dict(spec=s)):
            w = bound(rng, pot, L, 40, .3, 6); af = agama.ActionFinder(pot); ai = agama.ActionFinder(pot, interp=True); E = pot.potential(w[:, :3])+.5*(w[:, 3:]**2).sum(1); Lc = np.array([L_ for L_ in (lambda r: r*np.sqrt(r*-pot.force(np.column_stack((r, 0*r, 0*r)))[:, 0]))(np.array([pot.Rcirc(E=e) for e in E]))])
            J, JJ, th, om = consistency(c, af, w, "fudge"); basic(c, w, J, th, om, "fudge", 1); sJv = abs(J).sum(1); symmetries(c, af, w, "fudge", sJv, (J[:, 0] > .01*sJv) & (J[:, 1] > .01*sJv) & (abs(J[:, 2]) > .01*sJv), 1e-7)
            Ji = ai(w); basic(c, w, Ji, None, None, "interp", 1); d = abs(Ji-J).max(1)/Lc; d = d[abs(J[:, 2]) > .02*Lc]; c.ok(np.median(d) < .06, "interp=fudge:median", "%g" % np.median(d)); c.ok(np.max(d) < .4, "interp=fudge:max", "%g" % np.max(d)); consistency(c, ai, w, "interp", None)
            Ja = ai(w, angles=True); c.close(Ja[1], th, "interp-angles", 1e-9, 1e-6, equal_nan=True); c.close(Ja[2], om, "interp-freq", 1e-9, equal_nan=True)
            v, fr, ang = [], [], []
            for j in range(14):
                ic = w[rng.integers(len(w))]
                if abs(ic[0]*ic[4]-ic[1]*ic[3]) < .05*Lc[0]: continue
                T = 2*pi/pot_om(pot, ic)*10; t, tr = agama.orbit(potential=pot, ic=ic, time=T, trajsize=400, dtype=float, accuracy=1e-9, verbose=False); A, t_, o = af(tr, angles=True); lc = Lc[np.argmin(abs(E-(pot.potential(ic[:3])+.5*(ic[3:]**2).sum())))]
                v.append([A[:, 0].std()/lc, A[:, 1].std()/lc, (ai(tr)[:, :2].std(0)/lc).max()])
                gen = A[:, 0].mean() > .02*lc and A[:, 1].mean() > .02*lc and abs(A[0, 2]) > .02*lc
                if gen:   # mean rate of the angles along the orbit equals the mean reported frequencies
                    rate = np.array([np.polyfit(t, np.unwrap(t_[:, k]), 1)[0] for k in range(3)]); fr.append(abs(rate/o.mean(0)-1).max()); res = np.array([np.std(np.unwrap(t_[:, k])-np.polyval(np.polyfit(t, np.unwrap(t_[:, k]), 1), t)) for k in range(3)]); ang.append(res.max())
            v = np.array(v); c.event("fudge-orbits", len(v)); c.maxrel["fudge-var"] = max(c.maxrel.get("fudge-var", 0), float(np.median(v[:, :2].max(1))))
            c.ok(np.median(v[:, :2].max(1)) < .03 and np.max(v[:, :2]) < .2, "action-conservation", "rms variation of actions / Lcirc: median %g max %g" % (np.median(v[:, :2].max(1)), v[:, :2].max())); c.ok(np.median(v[:, 2]) < .05 and v[:, 2].max() < .25, "action-conservation:interp", "median %g max %g" % (np.median(v[:, 2]), v[:, 2].max()))
            if len(fr) > 3: c.ok(np.median(fr) < .25, "frequency-rate", "median mismatch of the drift rates of angles and frequencies %g" % np.median(fr)); c.ok(np.median(ang) < 2, "angle-linearity", "%g" % np.median(ang)); c.maxrel["freq-rate"] = max(c.maxrel.get("freq-rate", 0), float(np.median(fr))); c.maxrel["ang-lin"] = max(c.maxrel.get("ang-lin", 0), float(np.median(ang)))
            r = L*logu(rng, .3, 5); vc = np.sqrt(r*-pot.force(r, 0, 0)[0]); H = pot.eval(np.array([r, 0, 0]), der=True)
            for f, nm in ((af, "fudge"), (ai, "interp")):
                a, t, o = f(np.array([r, 0, 0, 0, vc, 0]), angles=True); c.close(a, [0, 0, r*vc], nm+":circular", 0, 1e-4*r*vc); c.close(o[2], vc/r, nm+":Omega", 2e-3); c.close(o[0], np.sqrt(-H[0]+3*(vc/r)**2), nm+":kappa", 1e-2); o = f(np.array([r, 0, 0, 0, vc, 3e-3*vc]), frequencies=True)[1]; c.close(o[1], np.sqrt(-H[2]), nm+":nu", 2e-2)
                eps = 1e-2; a = f(np.array([r, 0, 0, eps*vc, vc, 0])); c.close(a[0], eps**2*vc**2/2/np.sqrt(-H[0]+3*(vc/r)**2), nm+":epicyclic-Jr", .05 if nm == "fudge" else .1, 0 if nm == "fudge" else 1e-4*r*vc); a = f(np.array([r, 0, 0, 0, vc, eps*vc])); c.close(a[1], eps**2*vc**2/2/np.sqrt(-H[2]), nm+":epicyclic-Jz", .1, 0 if nm == "fudge" else 1e-4*r*vc)
                if pot.potential(1e9*L, 0, 0) < 0:
                    vs = np.sqrt(-2*pot.potential(L, 0, L)); u = f(np.array([L, 0, L, 0, 1.1*vs, 0])); c.ok(np.isnan(u[0]), nm+":unbound", str(u))
            # explicit focal distance: monotonic family including the interpolated one
            a = agama.actions(pot, w, fd=.5*L, angles=True); b = agama.actions(pot, w, fd=.5*L); c.close(a[0], b, "fd", 1e-12, 1e-12*np.max(b)); basic(c, w, a[0], a[1], a[2], "fd", 1)
def pot_om(pot, ic):
    r = np.linalg.norm(ic[:3]); return np.sqrt(np.linalg.norm(pot.force(ic[:3]))/r)
def torus(c):
    rng = c.rng
    for i in range(c.n(5)):
        L, M = logu(rng, 1e-2, 1e2), logu(rng, 1e-2, 1e2); s = (AX+[lambda rng, L, M: [dict(type="PerfectEllipsoid", mass=M, scaleRadius=L, axisRatioZ=float(rng.uniform(.4, .9)))]])[i % 6 if i % 2 else 5](rng, L, M); pot = agama.Potential(*s); exact = len(s) == 1 and s[0]["type"] == "PerfectEllipsoid"
        with c.case("torus", dict(spec=s)):
            am = agama.ActionMapper(pot, tol=1e-3 if exact else .003); jt = L*np.sqrt(L*-pot.force(L, 0, 0)[0]); worst = []
            for j in range(4):
                Jv = jt*np.array([logu(rng, .03, .5), logu(rng, .03, .5), logu(rng, .3, 3)*(1 if rng.random() < .7 else -1)]); sJ = abs(Jv).sum(); th = rng.uniform(0, 2*pi, (24, 3)); A = np.column_stack((np.tile(Jv, (24, 1)), th)); x, Om = am(A, frequencies=True)
                nf = np.isfinite(x).all(1) & np.isfinite(Om).all(1); c.ok(nf.all() or not nf.any(), "torus-finite", "some points are finite and some are not")
                if not nf.any(): c.event("tori-failed"); continue   # a torus that failed to converge is reported as NaN
                c.close(Om, Om[0], "torus-freq-const", 1e-12); c.close(x[:, 0]*x[:, 4]-x[:, 1]*x[:, 3], Jv[2], "torus-Lz", 1e-6); c.close(am(A[::-1]), x[::-1], "torus-repeat", 1e-12); c.close(am(A[3]), x[3], "torus-scalar", 1e-12); c.ok(np.sign(Om[0, 2]) == np.sign(Jv[2]), "torus-sign")
                E = pot.potential(x[:, :3])+.5*(x[:, 3:]**2).sum(1); KE = .5*(x[:, 3:]**2).sum(1).mean(); dE = np.std(E)/(KE); 
                # residual Hamiltonian variation corresponds to the error of actions dE/Omega
                dJ = np.std(E)/np.linalg.norm(Om[0])/sJ
                # linear advance along the integrated orbit
                T = 2*pi/Om[0, 0]*2; t, tr = agama.orbit(potential=pot, ic=x[0], time=T, trajsize=21, dtype=float, accuracy=1e-10, verbose=False); B = np.column_stack((np.tile(Jv, (21, 1)), th[0]+np.outer(t, Om[0]))); y = am(B); lr = np.linalg.norm(tr[:, :3], axis=1).mean(); dx = np.max(np.linalg.norm(y[:, :3]-tr[:, :3], axis=1))/lr
                y2 = am(A+np.array([0, 0, 0, 2*pi, -2*pi, 2*pi])); c.close(y2, x, "torus-periodic", 0, 1e-6*np.array([lr]*3+[np.sqrt(2*KE)]*3))
                # azimuthal symmetry
                ph = 1.1; R = rotmat(ph, 0, 0).T; y3 = am(A+np.array([0, 0, 0, 0, 0, ph])); c.close(y3, np.hstack((x[:, :3] @ R.T, x[:, 3:] @ R.T)), "torus-azimuth", 0, 1e-6*np.array([lr]*3+[np.sqrt(2*KE)]*3))
                ex = 0
                if exact: a, t_, o = agama.actions(pot, x, fd=L*np.sqrt(1-s[0]["axisRatioZ"]**2) if len(s) == 1 else 0, angles=True); ex = abs(a-Jv).max()/sJ; exo = abs(o-Om).max()/abs(Om).max(); ext = abs(wrap(t_-th)).max()
                else: exo = ext = 0
                worst.append([dJ, dx, ex, exo, ext]); c.event("tori")
            if not worst: continue
            wm = np.median(np.array(worst), 0); wx = np.max(np.array(worst), 0); c.maxrel["torus"] = [float(v) for v in np.maximum(wx, c.maxrel.get("torus", [0]*5))] if False else float(wx[0])
            c.ok(wm[0] < .01 and wx[0] < .05, "torus-energy", "median/max %g %g" % (wm[0], wx[0])); c.ok(wm[1] < .1 and wx[1] < .4, "torus-orbit", "distance between the torus and the orbit: median/max %g %g" % (wm[1], wx[1])); c.ok(wm[2] < .01 and wx[2] < .04, "torus-exact-J", "%g %g" % (wm[2], wx[2])); c.ok(wm[3] < .01 and wx[3] < .05, "torus-exact-Omega", "%g %g" % (wm[3], wx[3])); c.ok(wm[4] < .1 and wx[4] < .4, "torus-exact-theta", "%g %g" % (wm[4], wx[4]))
            if c.thorough or os.environ.get("VERIF_VERBOSE"): print("torus", worst)
def edge(c):
    """defined results for invalid or degenerate input"""
    rng = c.rng
    for i in range(c.n(20)):
        k, s, pot, L, cusp = sphmodel(rng, i) if i % 2 else ("axi", None, None, logu(rng, .01, 100), True)
        if pot is None: s = AX[i//2 % len(AX)](rng, L, 1.); pot = agama.Potential(*s)
        with c.case("edge:%s" % k, dict(spec=s)):
            af = agama.ActionFinder(pot); st = lambda x, **kw: agama.actions(pot, x, **({} if k != "axi" else dict(fd=.3*L)), **kw); v = np.sqrt(L*-pot.force(L, 0, 0)[0]); nan, inf = float("nan"), float("inf")
            for f, nm in ((af, "finder"), (st, "standalone")):
                for x in ([nan, 0, 0, 0, v, 0], [L, 0, 0, 0, nan, 0], [inf, 0, 0, 0, v, 0], [L, 0, 0, 0, inf, 0]):
                    try: r = f(np.array(x), angles=True)
                    except RuntimeError: c.event("nan-input-rejected"); continue
                    c.ok(np.isnan(r[0][0]) or not np.isfinite(r[0]).all(), nm+":nan-input", "actions at %s: %s" % (x, r[0]))
                if not k == "Kepler+":
                    x0 = np.array([0, 0, 0, 0, 0, 0.]); r = f(x0) if np.isfinite(pot.potential(0, 0, 0)) else np.zeros(3); c.close(r, 0, nm+":center", 0, 1e-6*L*v)
                # tiny and huge scales: no garbage
                for sc in (1e-8, 1e-4, 1e4, 1e7):
                    fr = -pot.force(sc*L, 0, 0)[0]
                    if not fr > 0: continue
                    vv = np.sqrt(fr*sc*L); x = np.array([sc*L, 0, 0, .1*vv, .8*vv, .2*vv]); r = f(x); jj = sc*L*vv; c.ok(np.all(np.isfinite(r)) and r[0] >= 0 and r[1] >= 0 and abs(r[2]/jj-.8) < 1e-9 and r[0] < 2*jj and r[1] < 2*jj, nm+":scale", "actions at r=%g L: %s, expected order %g" % (sc, r, jj))
            c.raises(lambda: af(np.array([1., 2, 3])), "short-input"); c.raises(lambda: agama.ActionFinder(), "no-potential")
            rm = agama.Potential(type="Dehnen", axisRatioY=.8, axisRatioZ=.7, scaleRadius=L); c.raises(lambda: agama.ActionFinder(rm), "nonaxisymmetric"); c.raises(lambda: agama.actions(rm, np.array([L, 0, 0, 0, 1, 0.]), fd=1.), "nonaxisymmetric-standalone")
GROUPS = dict(spherical=dict(fn=spherical, cost=40), staeckel=dict(fn=staeckel, cost=30), fudge=dict(fn=fudge, cost=40, threads=2), torus=dict(fn=torus, cost=40), edge=dict(fn=edge, cost=20))
