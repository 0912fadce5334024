import os, warnings, numpy as np
from common import *
from scipy.integrate import solve_ivp
if not os.environ.get("VERIF_META_ONLY"):
    from vh import Skip
RULE = ("random potentials (all model families, composites, modified, rotating frames, time-dependent tables) x bound initial conditions x integration settings (method, accuracy, direction, start time, number of output points, data type, batch); "
  "a case is one integrated orbit (or bunch) whose recorded trajectory is compared with an independent integrator, closed-form orbits, conserved quantities and itself under equivalent settings")
ASSUMPTIONS = ["the force itself is correct (decided by C02)", "orbits through the singular centre of a cusp are excluded where no closed form exists"]
SMOOTH = ["Plummer", "Isochrone", "MiyamotoNagai", "PerfectEllipsoid", "Logarithmic", "BlobsComposite", "Composite", "Modified", "NFW", "Dehnen", "MultipoleTriax", "Multipole"]
def J6():
    J = np.zeros((6, 6)); J[:3, 3:] = np.eye(3); J[3:, :3] = -np.eye(3); return J
def cross_om(Om, v): return np.stack([-Om*v[..., 1], Om*v[..., 0], 0*v[..., 2]], -1)
def refint(pot, ic, ts, Om=0., rtol=1e-11):
    """independent integration: position in the rotating frame, velocity in the inertial frame instantaneously aligned with it"""
    ic = np.asarray(ic, float); L = np.linalg.norm(ic[:3])+1e-30; V = np.linalg.norm(ic[3:])+np.sqrt(L*np.linalg.norm(pot.force(ic[:3], t=ts[0])))+1e-30
    sc = np.array([L]*3+[V]*3)
    def f(t, w):
        w = w*sc; a = pot.force(w[:3], t=t); return np.concatenate((w[3:]-cross_om(Om, w[:3]), a-cross_om(Om, w[3:])))/sc
    r = solve_ivp(f, (ts[0], ts[-1]), ic/sc, method="DOP853", rtol=rtol, atol=1e-13, t_eval=ts)
    if not r.success: raise Skip
    return r.y.T*sc, sc
def makeic(rng, pot, L, n=1, t=0, lo=.2, hi=3., vmin=.3, vmax=1.1):
    """bound initial conditions at random directions with velocity comparable to the circular one"""
    x = points(rng, n, lo*L, hi*L, .15); a = pot.force(x, t=t); vc = np.sqrt(np.linalg.norm(a, axis=1)*np.linalg.norm(x, axis=1)); v = dirs(rng, n)*(vc*rng.uniform(vmin, vmax, n))[:, None]
    return np.column_stack((x, v)), 2*pi*np.linalg.norm(x, axis=1)/vc
def single(pot, ic, T, n, **kw):
    kw.setdefault("dtype", float); return agama.orbit(potential=pot, ic=ic, time=T, trajsize=n, **kw)
def smooth(rng, k=None):
    m = randmodel(rng, k or SMOOTH[rng.integers(len(SMOOTH))]); return m
def newton(c):
    rng = c.rng
    for i in range(c.n(70)):
        m = smooth(rng, SMOOTH[i % len(SMOOTH)]); pot = m.obj; rot = rng.random() < .4
        icb, Tb = makeic(rng, pot, m.L); ic, T = icb[0], float(Tb[0]); Om = float(rng.uniform(-2, 2))*2*pi/T if rot else 0.; back = rng.random() < .25; t0 = 0. if rng.random() < .5 else float(rng.uniform(-5, 5))*T
        T *= float(rng.uniform(1, 3))*(-1 if back else 1); n = int(rng.integers(2, 60)); acc = [1e-8, 1e-10, 1e-12, 1e-6][rng.integers(4)]; meth = "hermite" if not rot and rng.random() < .3 else "dop853"
        with c.case("newton:%s" % m.kind, dict(spec=m.spec, ic=ic, T=T, t0=t0, Om=Om, n=n, acc=acc, method=meth)):
            kw = dict(accuracy=acc, timestart=t0, method=meth); kw.update(Omega=Om) if Om else 0
            ts, tr = single(pot, ic, T, n, **kw)
            c.ok(len(ts) == n and tr.shape == (n, 6), "trajsize", "requested %d points, got %s" % (n, tr.shape))
            c.close(ts, t0+T/(n-1)*np.arange(n), "times", 0, 1e-13*(abs(t0)+abs(T))); c.close(tr[0], ic, "initial", 1e-14, 1e-14*np.linalg.norm(ic[:3])+1e-14*np.linalg.norm(ic[3:]) if Om else 0)
            c.ok(ts[-1] == t0+T or abs(ts[-1]-t0-T) < 1e-14*(abs(t0)+abs(T)), "endtime")
            ref, sc = refint(pot, ic, np.linspace(t0, t0+T, n), Om); e = np.max(abs(tr-ref)/sc)
            # approximate (interpolated) potentials have discontinuous high derivatives at grid nodes
            tol = 1e3*acc**.8+1e-6 if meth == "dop853" else 300*acc**.7+1e-4
            c.ok(e < tol*(30 if m.approx else 1), "newton:%s%s" % (meth, ":Omega" if Om else ""), "trajectory deviates by %g (tolerance %g)" % (e, tol)); c.maxrel["newton:"+meth] = max(c.maxrel.get("newton:"+meth, 0), e/tol)
            P = pot.potential(tr[:, :3], t=t0); E = P+.5*(tr[:, 3:]**2).sum(1); Lz = tr[:, 0]*tr[:, 4]-tr[:, 1]*tr[:, 3]
            EJ = E-Om*Lz; sE = abs(P).max()+sc[3]**2+abs(Om)*sc[0]*sc[3]
            if m.kind not in ("Modified",) or True: c.ok(np.ptp(EJ)/sE < tol*(30 if m.approx else 1), "jacobi:%s" % meth, "Jacobi integral varies by %g" % (np.ptp(EJ)/sE))
            if m.axi and m.kind != "Modified": c.ok(np.ptp(Lz)/(sc[0]*sc[3]) < tol, "Lz", "Lz varies by %g" % (np.ptp(Lz)/(sc[0]*sc[3])))
            if m.sph and m.kind not in ("Modified", "Multipole") and not Om: L = np.cross(tr[:, :3], tr[:, 3:]); c.ok(np.max(abs(L-L[0]))/(sc[0]*sc[3]) < tol, "L", "angular momentum varies")
            # reversal
            tb, trb = single(pot, tr[-1], -T, n, **dict(kw, timestart=t0+T)); c.ok(np.max(abs(trb[-1]-ic)/sc) < 10*tol*(30 if m.approx else 1), "reversal", "returned to %s instead of %s" % (trb[-1], ic)); c.close(tb, t0+T-T/(n-1)*np.arange(n), "times-rev", 0, 1e-13*(abs(t0)+abs(T)))
        c.event("orbits:" + meth)
def closed(c):
    """closed-form orbits"""
    rng = c.rng
    for i in range(c.n(60)):
        k = i % 4; L, V = logu(rng, 1e-2, 1e2), logu(rng, 1e-2, 1e2); n = int(rng.integers(3, 80)); acc = 1e-10
        if k == 0:   # anisotropic harmonic oscillator, also in a rotating frame when isotropic in the plane
            p, q = (1., float(rng.uniform(.4, 2))) if i % 8 else (float(rng.uniform(.5, 2)), float(rng.uniform(.4, 2))); w = V/L; pot = agama.Potential(type="Harmonic", Omega=w, axisRatioY=p, axisRatioZ=q); Om = float(rng.normal())*w if p == 1 else 0.
            ic = np.concatenate((rng.normal(size=3)*L, rng.normal(size=3)*V)); T = float(rng.uniform(1, 30))/w; t0 = float(rng.normal())*T
            with c.case("closed:harmonic", dict(L=L, V=V, p=p, q=q, Om=Om, ic=ic, T=T)):
                ts, tr = single(pot, ic, T, n, accuracy=acc, timestart=t0, Omega=Om); t = ts-t0; om = w/np.array([1, p, q])
                x = ic[:3]*np.cos(om*t[:, None])+ic[3:]/om*np.sin(om*t[:, None]); v = -ic[:3]*om*np.sin(om*t[:, None])+ic[3:]*np.cos(om*t[:, None]); a = -Om*t
                R = lambda u: np.column_stack((u[:, 0]*np.cos(a)-u[:, 1]*np.sin(a), u[:, 1]*np.cos(a)+u[:, 0]*np.sin(a), u[:, 2]))
                c.close(tr, np.column_stack((R(x), R(v))), "closed:harmonic", 0, 1e-6*np.array([L+V/w]*3+[V+L*w]*3)*max(1, 1/p, 1/q)**2)
        elif k == 1:   # Kepler orbit of any eccentricity: Plummer with negligible softening
            G = V*V*L; pot = agama.Potential(type="Plummer", mass=G, scaleRadius=0) if rng.random() < .5 else agama.Potential(type="Isochrone", mass=G, scaleRadius=0)
            e = [0., .3, .9, .99, float(rng.random()), .7][i//4 % 6]; R = rotmat(*rng.uniform(0, 3, 3)); a = L; w = np.sqrt(G/a**3); T = float(rng.uniform(.5, 5))*2*pi/w
            def kep(t):
                M = w*t+.7; E = M+0*e
                for _ in range(200):
                    d = (E-e*np.sin(E)-M)/(1-e*np.cos(E)); E = E-np.clip(d, -.5, .5)
                b = a*np.sqrt(1-e*e); x = np.column_stack((a*(np.cos(E)-e), b*np.sin(E), 0*E)); r = 1-e*np.cos(E); v = np.column_stack((-a*np.sin(E), b*np.cos(E), 0*E))*(w/r)[:, None]; return np.column_stack((x @ R, v @ R)), r
            with c.case("closed:kepler", dict(e=e, L=L, V=V, T=T)):
                ic = kep(np.zeros(1))[0][0]; ts, tr = single(pot, ic, T, n, accuracy=1e-11); ref, r = kep(ts)
                # a small error in phase is amplified at the pericentre
                fac = np.column_stack([1/r]*3+[1/r**2]*3)/(1-e); c.close(tr, ref, "closed:kepler", 0, 1e-6*fac*np.array([L]*3+[V]*3))
                E = .5*(tr[:, 3:]**2).sum(1)-G/np.linalg.norm(tr[:, :3], axis=1); c.close(E, -G/2/a, "kepler-energy", 1e-7); c.close(np.cross(tr[:, :3], tr[:, 3:]), np.cross(ic[:3], ic[3:])+0*tr[:, :3], "kepler-L", 0, 1e-7*L*V)
        elif k == 2:   # radial-period and azimuthal advance of the isochrone
            M = V*V*L; pot = agama.Potential(type="Isochrone", mass=M, scaleRadius=L); icb, T = makeic(rng, pot, L); ic = icb[0]
            with c.case("closed:isochrone", dict(ic=ic, L=L, M=M)):
                E = .5*(ic[3:]**2).sum()+pot.potential(ic[:3]); Lv = np.cross(ic[:3], ic[3:]); L2 = np.linalg.norm(Lv)
                if E >= -.02*M/L or L2 < .05*L*V: raise Skip
                Tr = 2*pi*M/(-2*E)**1.5; dphi = pi*(1+L2/np.sqrt(L2**2+4*M*L)); ts, tr = single(pot, ic, Tr, 3, accuracy=1e-11); x = tr[-1, :3]; e1 = ic[:3]/np.linalg.norm(ic[:3]); e2 = np.cross(Lv/L2, e1)
                c.close(x, np.linalg.norm(ic[:3])*(e1*np.cos(dphi)+e2*np.sin(dphi)), "closed:isochrone", 0, 1e-6*np.linalg.norm(ic[:3])); c.close(np.linalg.norm(tr[-1, 3:]), np.linalg.norm(ic[3:]), "isochrone-v", 1e-6)
        else:   # uniform field in time-dependent form: x'' = a(t) from a moving centre of a harmonic potential
            w = V/L; K = 40; tt = np.linspace(0, 20/w, K); amp, wf = L*float(rng.uniform(.1, 1)), w*float(rng.uniform(.2, .7)); tt = np.linspace(-5/w, 25/w, 400)
            cen = np.column_stack((tt, amp*np.sin(wf*tt), amp*np.cos(wf*tt), 0*tt)); pot = agama.Potential(type="Harmonic", Omega=w, center=cen)
            ic = np.concatenate((rng.normal(size=3)*L, rng.normal(size=3)*V)); T = 20/w
            with c.case("closed:driven", dict(L=L, V=V, amp=amp, wf=wf, ic=ic)):
                ts, tr = single(pot, ic, T, n, accuracy=acc); g = w*w/(w*w-wf*wf)*amp; o = np.zeros((n, 6))
                for k2, (fs, fc) in enumerate(((1, 0), (0, 1), (0, 0))):
                    xp = g*(fs*np.sin(wf*ts)+fc*np.cos(wf*ts)); vp = g*wf*(fs*np.cos(wf*ts)-fc*np.sin(wf*ts)); A = ic[k2]-g*fc; B = (ic[3+k2]-g*wf*fs)/w
                    o[:, k2] = xp+A*np.cos(w*ts)+B*np.sin(w*ts); o[:, 3+k2] = vp-A*w*np.sin(w*ts)+B*w*np.cos(w*ts)
                c.close(tr, o, "closed:driven", 0, 3e-5*np.array([L+V/w]*3+[V+L*w]*3))
        c.event("closed-orbits")
def settings(c):
    """equivalent ways of requesting the same orbit give the same trajectory"""
    rng = c.rng
    for i in range(c.n(40)):
        m = smooth(rng); pot = m.obj; N = int(rng.integers(2, 9)); ics, Tb = makeic(rng, pot, m.L, N); rot = rng.random() < .4; T = Tb*rng.uniform(.5, 4, N)*np.where(rng.random(N) < .25, -1, 1)
        Om = float(rng.uniform(-1, 1))*2*pi/Tb.mean() if rot else 0.; t0 = rng.uniform(-3, 3, N)*Tb; n = int(rng.integers(2, 40)); acc = [1e-8, 1e-10][rng.integers(2)]; kw = dict(accuracy=acc, Omega=Om, verbose=False)
        if not rot and rng.random() < .2: kw["method"] = "hermite"
        with c.case("settings:%s" % m.kind, dict(spec=m.spec, ics=ics, T=T, t0=t0, Om=Om, n=n)):
            base = [single(pot, ics[k], T[k], n, timestart=t0[k], **kw) for k in range(N)]; sc = np.array([m.L*10]*3+[np.abs(ics[:, 3:]).max()*3]*3)
            same = lambda a, b, key, tol=1e-9: c.close(a, b, key, 0, tol*sc)
            # batch equals point by point, with per-orbit times, sizes
            b = agama.orbit(potential=pot, ic=ics, time=T, timestart=t0, trajsize=n, dtype=float, **kw)
            c.ok(b.shape == (N, 2), "batch-shape", str(b.shape))
            for k in range(N): same(b[k, 1], base[k][1], "batch"); c.close(b[k, 0], base[k][0], "batch-time", 1e-15)
            ns = rng.integers(1, 30, N); b = agama.orbit(potential=pot, ic=ics, time=T, timestart=t0, trajsize=ns, dtype=float, **kw)
            for k in range(N): c.ok(len(b[k, 0]) == ns[k], "batch-size", "%d instead of %d points" % (len(b[k, 0]), ns[k])); same(b[k, 1][-1], base[k][1][-1], "batch-size-end")
            k = int(rng.integers(N)); kk = dict(kw, timestart=t0[k]); ic = ics[k]; t, tr = base[k]
            # number of output points does not influence the trajectory
            mlt = int(rng.integers(2, 12)); t2, tr2 = single(pot, ic, T[k], (n-1)*mlt+1, **kk); same(tr2[::mlt], tr, "denser")
            t1, tr1 = single(pot, ic, T[k], 1, **kk); c.ok(len(t1) == 1, "trajsize1"); c.close(t1, t0[k]+T[k], "trajsize1-time", 1e-14, 1e-14*abs(T[k])); same(tr1[0], tr[-1], "trajsize1")
            # recorded at every timestep: monotone times, first = initial, last = end, points on the same trajectory
            ta, tra = single(pot, ic, T[k], 0, **kk); d = np.diff(ta)*np.sign(T[k]); c.ok(np.all(d > 0), "steps-monotone"); c.ok(ta[0] == t0[k] and abs(ta[-1]-t0[k]-T[k]) < 1e-13*(abs(t0[k])+abs(T[k])), "steps-range", "%r..%r" % (ta[0], ta[-1])); same(tra[0], ic, "steps-ic", 1e-13); same(tra[-1], tr[-1], "steps-end", 1e-9); c.event("steps", len(ta))
            c.ok(abs(np.sum(d)/abs(T[k])-1) < 1e-10, "steps-sum")
            # the interpolated orbit
            o = agama.orbit(potential=pot, ic=ic, time=T[k], dtype=object, **kk); c.ok(len(o) == len(ta), "obj-len"); c.close([o[j] for j in range(len(o))], ta, "obj-times", 1e-14, 1e-14*abs(T[k])); same(o(ta), tra, "obj-nodes", 1e-10)
            it = 1e-4 if not m.approx else 1e-3
            if "method" in kw: it = 1e-3
            tc_ = np.clip(t, min(ta), max(ta)); same(o(tc_), tr, "obj-interp", it); c.close(o(float(tc_[n//2])), o(tc_)[n//2], "obj-scalar", 1e-12, 1e-300); out = o(np.array([t0[k]-1e-3*T[k], t0[k]+1.001*T[k]])); c.ok(np.all(np.isnan(out)), "obj-outside", str(out))
            c.ok(bool(o.reversed) == bool(T[k] < 0), "obj-reversed"); c.close(o.Omega, Om, "obj-omega", 1e-15)
            o2 = agama.orbit(potential=pot, ic=ics, time=T, timestart=t0, dtype=object, trajsize=0, **kw); same(o2[k](ta), tra, "obj-batch", 1e-10)
            # data types
            f32 = single(pot, ic, T[k], n, **dict(kk, dtype="float32")); c.ok(f32[1].dtype == np.float32, "dtype32"); c.close(f32[1], tr, "dtype32", 2e-7, 1e-30); c64 = single(pot, ic, T[k], n, **dict(kk, dtype="complex64"))
            cx = single(pot, ic, T[k], n, **dict(kk, dtype=complex)); same(cx[1].real, tr[:, :3], "complex-pos") if False else c.close(cx[1].real, tr[:, :3], "complex-pos", 1e-14, 1e-300); c.close(cx[1].imag, tr[:, 3:], "complex-vel", 1e-14, 1e-300); c.close(c64[1].real, tr[:, :3], "c64-pos", 2e-7, 1e-30); c.close(c64[1].imag, tr[:, 3:], "c64-vel", 2e-7, 1e-30)
            dd = agama.orbit(potential=pot, ic=ic, time=T[k], trajsize=n, **kk); c.ok(dd[1].dtype == np.float32, "dtype-default")
            # a longer run passes through the same points
            if n > 2:
                h = int(rng.integers(1, n-1)); th, trh = single(pot, ic, t[h]-t0[k], 1, **kk); same(trh[0], tr[h], "shorter", 1e2*acc+1e-6*(30 if m.approx else 1) if "method" not in kw else 1e-2)
                tc, trc = single(pot, tr[h], t[-1]-t[h], 1, **dict(kk, timestart=t[h])); same(trc[0], tr[-1], "restart", 1e-4 if "method" not in kw else 3e-2)
            # accompanying computations do not alter the orbit
            r = agama.orbit(potential=pot, ic=ic, time=T[k], trajsize=n, dtype=float, lyapunov=True, **kk); c.ok(np.array_equal(r[0][1], tr), "lyap-unchanged")
            # time-invariance of a static potential
            tz, trz = single(pot, ic, T[k], n, **dict(kk, timestart=t0[k]+float(rng.uniform(-1, 1))*Tb[k])); same(trz, tr, "timeshift", 1e-4 if "method" not in kw else 1e-2)
    for i in range(c.n(25)):   # equivalent dynamical descriptions
        m = smooth(rng, ["Plummer", "Logarithmic", "BlobsComposite", "MultipoleTriax", "Composite"][i % 5]); pot = m.obj; icb, Tb = makeic(rng, pot, m.L); ic, T = icb[0], Tb[0]*float(rng.uniform(.5, 2)); Om = float(rng.uniform(-1.5, 1.5))*2*pi/Tb[0]; n = int(rng.integers(2, 30)); t0 = float(rng.uniform(-2, 2))*T
        sc = np.array([m.L*3]*3+[np.abs(ic[3:]).max()*3]*3); tol = 1e-5 if not m.approx else 3e-3
        with c.case("equiv:%s" % m.kind, dict(spec=m.spec, ic=ic, T=T, Om=Om)):
            t, tr = single(pot, ic, T, n, Omega=Om, timestart=t0, accuracy=1e-10)
            # rotating potential seen from the inertial frame
            tab = np.array([[t0-T, Om*(t0-T)], [t0+2*T, Om*(t0+2*T)]]); pr = agama.Potential(potential=pot, rotation=tab)
            rz = lambda w, a: np.column_stack((w[:, 0]*np.cos(a)-w[:, 1]*np.sin(a), w[:, 1]*np.cos(a)+w[:, 0]*np.sin(a), w[:, 2], w[:, 3]*np.cos(a)-w[:, 4]*np.sin(a), w[:, 4]*np.cos(a)+w[:, 3]*np.sin(a), w[:, 5]))
            ti, tri = single(pr, rz(ic[None], Om*t0)[0], T, n, timestart=t0, accuracy=1e-10); c.close(rz(tri, -Om*ti), tr, "rotframe", 0, tol*sc)
            # dynamical similarity
            l, v = logu(rng, .1, 10), logu(rng, .1, 10); ps = agama.Potential(potential=pot, scale=[v*v*l, l]); ts, trs = single(ps, ic*np.array([l]*3+[v]*3), T*l/v, n, Omega=Om*v/l, timestart=t0*l/v, accuracy=1e-10); c.close(trs/np.array([l]*3+[v]*3), tr, "similarity", 0, tol*sc); c.close(ts*v/l, t, "similarity-time", 1e-12, 1e-12*T)
            # Galilean boost: the potential moves with a constant velocity
            t2, tr2 = single(pot, ic, T, n, timestart=t0, accuracy=1e-10); u = rng.normal(size=3)*sc[3]; tt = np.array([t0-T, t0+2*T]); pm = agama.Potential(potential=pot, center=np.column_stack((tt, (tt-t0)[:, None]*u)) if True else None)
            tg, trg = single(pm, ic+np.concatenate((0*u, u)), T, n, timestart=t0, accuracy=1e-10); c.close(trg, tr2+np.column_stack(((t2-t0)[:, None]*u, u+0*tr2[:, 3:])), "galilean", 0, 10*tol*sc+1e-9*np.concatenate((abs(u*T), abs(u))))
            # rigid rotation of the whole system
            a = rng.uniform([-3, 0, -3], [3, 3, 3]); R = rotmat(*a); po = agama.Potential(potential=pot, orientation=list(a)); to, tro = single(po, np.concatenate((R.T @ ic[:3], R.T @ ic[3:])), T, n, timestart=t0, accuracy=1e-10); c.close(np.column_stack((tro[:, :3] @ R.T, tro[:, 3:] @ R.T)), tr2, "rigid", 0, tol*sc)
def timedep(c):
    rng = c.rng
    for i in range(c.n(30)):
        m = smooth(rng, ["Plummer", "Logarithmic", "MiyamotoNagai", "BlobsComposite", "Isochrone"][i % 5]); icb, Tb = makeic(rng, m.obj, m.L); ic, Tc = icb[0], Tb[0]; T = Tc*float(rng.uniform(1, 3)); K = int(rng.integers(3, 8)); t0 = float(rng.uniform(-1, 1))*T; tt = np.sort(rng.uniform(t0-.3*T, t0+1.2*T, K)); tt[-1] = t0+1.2*T; tt[0] = t0-.5*T; mod = {}
        k = i % 4
        if k in (0, 3): mod["center"] = np.column_stack((tt, .2*m.L*rng.normal(size=(K, 3))))
        if k in (1, 3): mod["scale"] = np.column_stack((tt, rng.uniform(.7, 1.4, (K, 2))))
        if k in (2, 3): mod["rotation"] = np.column_stack((tt, np.cumsum(rng.uniform(-1, 1, K))))
        n = int(rng.integers(2, 40)); back = rng.random() < .3; Om = float(rng.uniform(-1, 1))*2*pi/Tc if rng.random() < .3 else 0.
        with c.case("timedep:%s" % "+".join(sorted(mod)), dict(spec=m.spec, mod=mod, ic=ic, T=T, t0=t0)):
            pot = agama.Potential(potential=m.obj, **mod); ta, tb = (t0+T, t0) if back else (t0, t0+T)
            t, tr = single(pot, ic, tb-ta, n, timestart=ta, Omega=Om, accuracy=1e-10)
            # independent integration, broken at the nodes of the table
            brk = sorted([x for x in tt if min(ta, tb) < x < max(ta, tb)], reverse=back)+[tb]; out = []; w, cur = ic, ta
            sc = None; rem = list(np.linspace(ta, tb, n)); res = {}
            for bnd in brk:
                inside = [x for x in rem if (x < bnd if not back else x > bnd)] if bnd != tb else rem; rem = [x for x in rem if x not in inside]
                tsq = [cur]+[x for x in inside if x != cur]+([bnd] if bnd not in inside else []); y, s = refint(pot, w, np.array(tsq), Om); sc = s if sc is None else sc
                for x, yy in zip(tsq, y): res.setdefault(x, yy)
                w, cur = y[-1], bnd
            ref = np.array([res[x] for x in np.linspace(ta, tb, n)])
            c.close(tr, ref, "timedep:" + "+".join(sorted(mod)), 0, 3e-4*sc); c.maxrel["timedep"] = max(c.maxrel.get("timedep", 0), np.max(abs(tr-ref)/sc)/3e-4)
            # shifting both the table and the start time changes nothing
            if not Om:
                d = float(rng.uniform(-3, 3))*T; pot2 = agama.Potential(potential=m.obj, **{k2: np.column_stack((v[:, 0]+d, v[:, 1:])) for k2, v in mod.items()}); t2, tr2 = single(pot2, ic, tb-ta, n, timestart=ta+d, accuracy=1e-10); c.close(tr2, tr, "tableshift", 0, 3e-4*sc)
def variational(c):
    rng = c.rng; J = J6()
    for i in range(c.n(48)):
        m = smooth(rng, ["Plummer", "Isochrone", "MiyamotoNagai", "PerfectEllipsoid", "Logarithmic", "BlobsComposite", "Composite", "MultipoleTriax"][i % 8]); pot = m.obj; icb, Tb = makeic(rng, pot, m.L); ic, Tc = icb[0], Tb[0]; T = Tc*float(rng.uniform(.3, 2.5))*(-1 if rng.random() < .2 else 1)
        Om = float(rng.uniform(-1.5, 1.5))*2*pi/Tc if rng.random() < .5 else 0.; t0 = [0., float(rng.uniform(-5, 5))*Tc, 1000*Tc][rng.integers(3)]; n = int(rng.integers(2, 25)); V = np.abs(ic[3:]).max()+m.L/Tc; u = np.array([m.L]*3+[V]*3)
        with c.case("variational:%s" % m.kind, dict(spec=m.spec, ic=ic, T=T, t0=t0, Om=Om, n=n)):
            kw = dict(Omega=Om, timestart=t0, accuracy=1e-12); (t, tr), dv = agama.orbit(potential=pot, ic=ic, time=T, trajsize=n, dtype=float, der=True, **kw)
            c.ok(len(dv) == 6 and all(d.shape == (n, 6) for d in dv), "dev-shape", str([d.shape for d in dv]))
            if not all(d.shape == (n, 6) for d in dv): raise Skip
            M = np.stack(dv, -1)/u[None, :, None]*u[None, None, :]    # M[t, out, in], scaled
            c.close(M[0], np.eye(6), "dev-initial", 0, 1e-12)
            t_b, tr_b = single(pot, ic, T, n, **kw); c.ok(np.array_equal(tr_b, tr), "dev-unchanged")
            g = max(1., abs(M).max()); tol = (1e-5 if not m.approx else 1e-2)*g
            for d in range(6):
                h = 3e-4*u[d]; P = []
                for s in (1, -1, 2, -2): w = ic.copy(); w[d] += s*h; P.append(single(pot, w, T, n, **dict(kw, accuracy=1e-12))[1])
                fd = (8*(P[0]-P[1])-(P[2]-P[3]))/(12*h)/u*u[d]; c.close(M[:, :, d], fd, "dev:%s" % ("Omega" if Om else "static"), 0, 200*tol)
                c.maxrel["dev"] = max(c.maxrel.get("dev", 0), np.max(abs(M[:, :, d]-fd))/(200*tol))
            for k in range(n): c.close(M[k].T @ J @ M[k]*1., J, "symplectic", 0, 5e-4*g*g*(1e3 if m.approx else 1)); c.close(np.linalg.det(M[k]), 1., "determinant", 0, 5e-4*g**2*(1e3 if m.approx else 1))
            # the velocity along the orbit is itself a solution of the variational equation (in the frame where the potential is static)
            a = lambda w: np.concatenate((w[3:]-cross_om(Om, w[:3]), pot.force(w[:3])-cross_om(Om, w[3:])))/u
            c.close(M[-1] @ a(tr[0]), a(tr[-1]), "dev-flow", 0, 10*tol*np.linalg.norm(a(tr[0])))
            # other forms of output
            (t1, tr1), d1 = agama.orbit(potential=pot, ic=ic, time=T, trajsize=1, dtype=float, der=True, **kw); c.close(np.stack(d1, -1)[0]/u[:, None]*u, M[-1], "dev-last", 0, 1e-9*g)
            o, od = agama.orbit(potential=pot, ic=ic, time=T, dtype=object, der=True, **kw); c.close(np.stack([q(np.clip(t, min(q), max(q))) for q in od], -1)/u[None, :, None]*u, M, "dev-object", 0, 500*tol)
            b, bd, ly = agama.orbit(potential=pot, ic=np.vstack((ic, ic)), time=T, trajsize=n, dtype=float, der=True, lyapunov=True, verbose=False, **kw); c.close(np.stack(list(bd[1]), -1)/u[None, :, None]*u, M, "dev-batch", 0, 1e-9*g); c.ok(b.shape == (2, 2) and bd.shape == (2, 6) and ly.shape == (2,), "dev-batch-shape")
def lyapunov(c):
    rng = c.rng; N = c.n(16, 60)
    # regular: any spherical, Stackel, axisymmetric-thin-loop orbit
    for i in range(c.n(6)):
        kind = ["Plummer", "Isochrone", "PerfectEllipsoid", "Harmonic", "Plummer", "Dehnen"][i % 6]; L = logu(rng, .1, 10)
        pot = agama.Potential(type=kind, **(dict(scaleRadius=L, mass=L) if kind != "Harmonic" else dict(Omega=1., axisRatioY=.8, axisRatioZ=.6)), **(dict(axisRatioZ=.6) if kind == "PerfectEllipsoid" else {}))
        ics, T = makeic(rng, pot, L, N, vmin=.5, vmax=1.)
        with c.case("lyap-regular:" + kind, dict(L=L, ics=ics)):
            r, ly = agama.orbit(potential=pot, ic=ics, time=300*T, lyapunov=True, trajsize=1, verbose=False); c.ok(np.sum(ly != 0) <= max(1, N//8), "lyap-regular:" + kind, "regular orbits have nonzero Lyapunov exponents: %s" % ly); c.event("regular-orbits", int(np.sum(ly == 0)))
    # chaotic: a strongly non-integrable potential (flattened, lopsided and fast-rotating) where box-like orbits are known to be chaotic;
    # the exponent must agree with the divergence rate measured by renormalised neighbour orbits
    for i in range(c.n(4)):
        L = logu(rng, .1, 10); pot = agama.Potential(type="Logarithmic", v0=1., scaleRadius=.05*L, axisRatioY=.75, axisRatioZ=.6); x = dirs(rng, N)*L; ics = np.column_stack((x, .15*dirs(rng, N))); T = L*6
        with c.case("lyap-chaotic", dict(L=L, ics=ics)):
            r, ly = agama.orbit(potential=pot, ic=ics, time=1000*T, lyapunov=True, trajsize=1, verbose=False, accuracy=1e-9)
            nch = np.sum(ly > 0); c.ok(nch >= N//5, "lyap-chaotic", "only %d of %d orbits are recognised as chaotic" % (nch, N)); c.ok(np.all(ly >= 0), "lyap-sign", str(ly)); c.event("chaotic-orbits", int(nch))
            # normalised exponent does not depend on units of length and on the number of output points
            k = int(np.argmax(ly)); l2 = agama.orbit(potential=pot, ic=ics[k], time=1000*T, lyapunov=True, accuracy=1e-9); c.close(l2, ly[k], "lyap-same", 1e-9)
            # measured directly: growth of the deviation between two neighbouring orbits
            Tc = pot.Tcirc(ics[k]); w = ics[k].copy(); d = 1e-7*np.concatenate((dirs(rng, 1)[0]*L, dirs(rng, 1)[0])); s = 0.; nseg = 250; tseg = 600*T/nseg
            for j in range(nseg):
                e = [single(pot, q, tseg, 1, accuracy=1e-11)[1][-1] for q in (w, w+d)]; dn = e[1]-e[0]; g = np.sqrt((dn[:3]**2).sum()/L**2+(dn[3:]**2).sum()); g0 = np.sqrt((d[:3]**2).sum()/L**2+(d[3:]**2).sum()); s += np.log(g/g0); w = e[0]; d = dn*1e-7/g
            lam = s/(nseg*tseg)*Tc; c.ok(ly[k]/7 < lam < 7*ly[k], "lyap-rate", "estimate %g, direct measurement %g" % (ly[k], lam)); c.maxrel["lyap-rate"] = max(c.maxrel.get("lyap-rate", 0), abs(np.log(lam/ly[k]))/np.log(7))
def edge(c):
    rng = c.rng
    for i in range(c.n(12)):
        m = smooth(rng, ["Plummer", "Logarithmic", "MiyamotoNagai"][i % 3]); pot = m.obj; icb, Tb = makeic(rng, pot, m.L); ic, T = icb[0], Tb[0]
        with c.case("edge", dict(spec=m.spec, ic=ic)):
            c.raises(lambda: agama.orbit(potential=pot, ic=ic, time=T), "no-output"); c.raises(lambda: agama.orbit(potential=pot, ic=ic, time=T, der=True), "der-without-traj"); c.raises(lambda: agama.orbit(potential=pot, ic=ic[:5], time=T, trajsize=3), "ic-size"); c.raises(lambda: agama.orbit(potential=pot, ic=ic, trajsize=3), "no-time")
            c.raises(lambda: agama.orbit(ic=ic, time=T, trajsize=3), "no-pot"); c.raises(lambda: agama.orbit(potential=pot, ic=ic, time=T, trajsize=-1), "negative-size"); c.raises(lambda: agama.orbit(potential=pot, ic=np.array([ic, ic]), time=[T], trajsize=3, verbose=False), "time-size"); c.raises(lambda: agama.orbit(potential=pot, ic=ic, time=T, trajsize=3, dtype=int), "dtype-int"); c.raises(lambda: agama.orbit(potential=pot, ic=ic, time=T, trajsize=3, method="euler"), "method")
            c.raises(lambda: agama.orbit(potential=pot, ic=ic, time=T, trajsize=3, method="hermite", Omega=1.), "hermite-omega"); c.raises(lambda: agama.orbit(potential=agama.Density(type="Plummer"), ic=ic, time=T, trajsize=3), "density-as-potential"); c.raises(lambda: agama.orbit(potential=pot, ic=ic, time=T, trajsize=3, bogus=1), "bogus")
            # truncated by the maximal number of steps: a prefix of the full run
            t, tr = single(pot, ic, 20*T, 0); t1, tr1 = single(pot, ic, 20*T, 0, maxNumSteps=5); c.ok(len(t1) == 6, "maxsteps", "%d points" % len(t1)); c.close(t1, t[:6], "maxsteps-t", 1e-14); c.close(tr1, tr[:6], "maxsteps", 1e-13, 1e-300)
            # staying at rest at the centre
            if m.kind == "Plummer": t, tr = single(pot, np.zeros(6), T, 5); c.ok(np.all(tr == 0) and len(t) == 5, "rest", str(tr))
            # escaping orbit
            w = ic.copy(); w[3:] *= 5; t, tr = single(pot, w, 50*T, 7); c.ok(len(t) == 7 and np.all(np.isfinite(tr)), "unbound"); E = pot.potential(tr[:, :3])+.5*(tr[:, 3:]**2).sum(1); c.ok(np.ptp(E) < 1e-5*max(abs(E).max(), abs(pot.potential(tr[:, :3])).max()), "unbound-energy")
            # planar and radial orbits remain so
            w = ic.copy(); w[2] = w[5] = 0; t, tr = single(pot, w, 5*T, 11); c.ok(np.all(abs(tr[:, [2, 5]]) <= 1e-12*max(m.L, abs(w).max())), "planar", str(abs(tr[:, [2, 5]]).max()))
            # straight-line motion in a vanishing potential
            z = agama.Potential(type="Plummer", mass=0.); t, tr = single(z, ic, T, 6); c.close(tr, np.column_stack((ic[:3]+t[:, None]*ic[3:], ic[3:]+0*tr[:, 3:])), "free", 1e-12, 1e-12*m.L)
            # user-defined function as the potential
            up = agama.Potential(potential=lambda x: pot.potential(x), symmetry="n") if False else None
GROUPS = dict(newton=dict(fn=newton, cost=20), closed=dict(fn=closed, cost=6), settings=dict(fn=settings, cost=25), timedep=dict(fn=timedep, cost=20), variational=dict(fn=variational, cost=25), lyapunov=dict(fn=lyapunov, cost=25), edge=dict(fn=edge, cost=5), native=dict(cpp="c08_orbit", cost=20))
