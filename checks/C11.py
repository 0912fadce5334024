import os, numpy as np
from common import *
from scipy.special import erf
if not os.environ.get("VERIF_META_ONLY"):
    from vh import Skip
    from C09 import AX
RULE = ("random galaxy models (spherical potentials with quasi-spherical DFs, axisymmetric composite potentials with rotating double-power-law, exponential and quasi-isothermal DFs and their composites), viewed from random directions including face-on and edge-on, with trivial, spatial, velocity-dependent and asymmetric selection functions; "
  "a case is one model and point, whose moments, projections, velocity distributions and projected DF are compared with an independent quadrature of f(J(x,v)) S(x,v) over velocities and the line of sight")
ASSUMPTIONS = ["the action finder and the DF are correct as functions of phase space (decided by C09, C10); the same action finder is used in the reference integral"]
class GM:
    """a model together with its integrand evaluated point by point"""
    def __init__(self, rng, kind, sf=None, ncomp=None):
        self.L, self.M = L, M = logu(rng, 1e-2, 1e2), logu(rng, 1e-2, 1e2); self.kind = kind; self.sfname = sf
        if kind == "sph":
            k = rng.integers(4); self.pspec = [[dict(type="Plummer", mass=M, scaleRadius=L)], [dict(type="Isochrone", mass=M, scaleRadius=L)], [dict(type="Dehnen", gamma=float(rng.uniform(0, 1.5)), mass=M, scaleRadius=L)], [dict(type="Spheroid", gamma=.5, beta=4, alpha=1, outerCutoffRadius=10*L, mass=M, scaleRadius=L), dict(type="Plummer", mass=M*.3, scaleRadius=2*L)]][k]
            self.pot = agama.Potential(*self.pspec); mk = lambda b, ra: dict(type="QuasiSpherical", potential=self.pot, density=agama.Density(**dict(type="Plummer" if k < 2 else "Spheroid", mass=M*float(rng.uniform(.3, 1)), scaleRadius=L*float(rng.uniform(.8, 1.2)), **({} if k < 2 else dict(gamma=.5, beta=4.5, alpha=1)))), beta0=min(b, 0 if k < 2 else .2), **({} if ra is None else dict(r_a=ra)))
            self.dspec = [mk(float(rng.choice([0, .3, -.3, .2])), None if rng.random() < .5 else 3*L) for _ in range(ncomp or rng.integers(1, 3))]; self.dpar = [{a: b for a, b in d.items() if a not in ("potential", "density")} for d in self.dspec]
            self.dfs = [agama.DistributionFunction(**d) for d in self.dspec]
        else:
            self.pspec = AX[rng.integers(len(AX))](rng, L, M) if rng.random() < .6 else [dict(type="MiyamotoNagai", mass=M, scaleRadius=L, scaleHeight=.3*L), dict(type="NFW", mass=10*M, scaleRadius=8*L)]
            self.pot = agama.Potential(*self.pspec); vc = np.sqrt(2*L*-self.pot.force(2*L, 0, 0)[0]); J0 = L*vc; self.dpar = []
            for _ in range(ncomp or rng.integers(1, 4)):
                t = rng.integers(3)
                if t == 0: a, b = rng.dirichlet([6]*3)*3, rng.dirichlet([6]*3)*3; d = dict(type="DoublePowerLaw", norm=M, J0=J0, slopeIn=float(rng.uniform(0, 1.6)), slopeOut=float(rng.uniform(4.5, 7)), coefJrIn=float(a[0]), coefJzIn=float(a[1]), coefJrOut=float(b[0]), coefJzOut=float(b[1]), rotFrac=float(rng.uniform(-1, 1)), Jphi0=J0*float(rng.uniform(.2, 1)))
                elif t == 1: d = dict(type="Exponential", norm=M, Jr0=.35*J0, Jz0=.3*J0, Jphi0=J0, addJden=.3*J0, addJvel=.3*J0)
                else: d = dict(type="QuasiIsothermal", Sigma0=M/L**2, Rdisk=L, sigmar0=.5*vc, Rsigmar=4*L, sigmaz0=.45*vc, Rsigmaz=4*L, sigmamin=.1*vc, Jmin=.1*J0)
                self.dpar.append(d)
            self.dfs = [agama.DistributionFunction(**dict(d, **(dict(potential=self.pot) if d["type"] == "QuasiIsothermal" else {}))) for d in self.dpar]
        self.df = self.dfs[0] if len(self.dfs) == 1 and rng.random() < .5 else agama.DistributionFunction(*self.dfs)
        self.af = agama.ActionFinder(self.pot); v0 = np.sqrt(-2*self.pot.potential(L, 0, 0)); self.v0 = v0; c = L*rng.normal(size=3); w = v0*rng.normal(size=3)*.3; self.sfi = None
        if sf == "spatial": st = float(rng.choice([1, 2, 4, .7])); R = L*logu(rng, 1, 5); self.sf = agama.SelectionFunction(point=[float(a) for a in c], radius=R, steepness=st); self.sfi = lambda x: np.exp(-(np.sqrt(((x[:, :3]-c)**2).sum(1))/R)**st)
        elif sf == "velocity": self.sfi = lambda x: 1/(1+np.exp(-(x[:, 3:]@w)/v0**2*20))
        elif sf == "mixed": n = rng.normal(size=3); self.sfi = lambda x: .5+.5*np.tanh((x[:, :3]@n)/L+2*(x[:, 3:]@w)/v0**2)
        if sf in ("velocity", "mixed"): self.sf = self.sfi
        self.model = agama.GalaxyModel(potential=self.pot, df=self.df, af=self.af, **({"sf": self.sf} if sf else {}))
        self.par = dict(pot=self.pspec, df=self.dpar, sf=sf)
    def F(self, xv, comp=None):
        """the integrand f(J(x,v)) S(x,v); zero for unbound points"""
        E = self.pot.potential(xv[:, :3])+.5*(xv[:, 3:]**2).sum(1); g = E < 0; J = self.af(xv[g]); f = np.zeros(len(xv)); d = self.df if comp is None else self.dfs[comp]
        v = np.asarray(d(J)); f[g] = np.where(np.isfinite(v) & np.isfinite(J).all(1), v, 0)
        if self.sfi: f *= self.sfi(xv)
        return f
    def vquad(self, x, n=1):
        """velocity nodes and weights at a point in the intrinsic frame, in spherical coordinates with the polar axis along e_phi; clustered at the circular velocity"""
        ve = np.sqrt(-2*self.pot.potential(x)); Rr = np.hypot(x[0], x[1]); ex = np.array([x[0], x[1], 0])/Rr if Rr > 0 else np.array([1, 0, 0.]); ep = np.array([-ex[1], ex[0], 0]); ez = np.array([0, 0, 1.])
        sv, wv = glpanels([0, .15, .4, .7, .9, 1], 6*n); ct, wc = glpanels([-1, -.9, -.5, 0, .5, .9, 1], 5*n); m = 16*n; ph = (np.arange(m)+.5)*2*pi/m
        V, C, P = np.meshgrid(sv*ve, ct, ph, indexing="ij"); S = np.sqrt(1-C**2); W = (wv*sv**2*ve**3)[:, None, None]*wc[None, :, None]*np.full(m, 2*pi/m); v = (V*S*np.cos(P))[..., None]*ex+(V*S*np.sin(P))[..., None]*ez+(V*C)[..., None]*ep
        return v.reshape(-1, 3), W.ravel()
    def intrinsic(self, x, comp=None, n=1):
        v, w = self.vquad(x, n); f = self.F(np.hstack((np.tile(x, (len(v), 1)), v)), comp)*w; r = f.sum(); return r, (f@v)/r if r else v[0]*0, (v.T*f)@v/r if r else np.zeros((3, 3))
def angles(rng, k):
    return [(0, 0, 0), (.4, 0, 1.1), (.3, pi/2, -.2), None, (1., pi, .5), None][k % 6] or tuple(float(a) for a in rng.uniform([-3, .1, -3], [3, 3, 3]))
def T6(m): return np.array([m[0, 0], m[1, 1], m[2, 2], m[0, 1], m[0, 2], m[1, 2]])
SF = [None, "spatial", "velocity", None, "mixed"]
def cmpm(c, key, r, ref, R, v0, tol):
    """compare the reported moments in the observed frame with the reference ones in the intrinsic frame"""
    d, v, V = ref; c.close(r[0], d, key+":density", tol, 1e-300); sd = np.sqrt(np.trace(V)); c.close(r[1], R@v, key+":velocity", 0, tol*2*sd+1e-12*v0); c.close(r[2], T6(R@V@R.T), key+":velocity2", 0, 2*tol*sd**2+1e-12*v0**2)
def moments(c):
    rng = c.rng
    for i in range(c.n(10)):
        m = GM(rng, ["axi", "sph"][i % 2], SF[(i//2) % 5])
        with c.case("moments:%s:%s" % (m.kind, m.sfname), dict(m.par, i=i)):
            L = m.L; X = points(rng, 4, .15*L, 4*L); A = np.array([angles(rng, i+j) for j in range(4)]); Rs = [rotmat(*a) for a in A]; kw = dict(alpha=A[:, 0], beta=A[:, 1], gamma=A[:, 2])
            r = m.model.moments(X, dens=True, vel=True, vel2=True, **kw)
            for j in range(4):
                x = Rs[j].T@X[j]; ref, fine = m.intrinsic(x), m.intrinsic(x, n=2) ; acc = abs(ref[0]/fine[0]-1) if fine[0] else 0
                if acc > .003: c.event("reference-quadrature-inaccurate"); continue
                cmpm(c, "moments", [q[j] for q in r], fine, Rs[j], m.v0, 5e-3); c.event("moment points")
            # subsets of output and a single orientation for all points
            r1 = m.model.moments(X, dens=True, vel=False, vel2=True, **kw); c.close(r1[0], r[0], "flags:dens", 4e-3); s2 = r[2][:, :3].sum(1)[:, None]; c.close(r1[1], r[2], "flags:vel2", 0, 6e-3*s2)
            c.close(m.model.moments(X, dens=True, vel=False, vel2=False, **kw), r[0], "flags:dens-only", 4e-3); c.close(m.model.moments(X, dens=False, vel=True, vel2=False, **kw), r[1], "flags:vel-only", 0, 6e-3*np.sqrt(s2))
            q = m.model.moments(X[1], vel=True, alpha=A[1, 0], beta=A[1, 1], gamma=A[1, 2]); c.close(q[0], r[0][1], "scalar:dens", 1e-12); c.close(q[2], r[2][1], "scalar:vel2", 1e-10, 1e-10*s2[1]); c.ok(np.shape(q[0]) == () and q[1].shape == (3,) and q[2].shape == (6,), "shape-scalar")
            # separate
            s = m.model.moments(X, vel=True, separate=True, **kw); n = len(m.dfs); c.ok(s[0].shape == (4, n) and s[1].shape == (4, n, 3) and s[2].shape == (4, n, 6), "shape-separate", str([a.shape for a in s]))
            if s[0].shape != (4, n): continue
            c.close(s[0].sum(1), r[0], "separate:dens", 4e-3); c.close((s[0][..., None]*s[1]).sum(1)/r[0][:, None], r[1], "separate:vel", 0, 8e-3*np.sqrt(s2)); c.close((s[0][..., None]*s[2]).sum(1)/r[0][:, None], r[2], "separate:vel2", 0, 8e-3*s2)
            k = int(rng.integers(n)); x = Rs[0].T@X[0]; ref, fine = m.intrinsic(x, k), m.intrinsic(x, k, n=2)
            if fine[0] > 1e-3*r[0][0] and abs(ref[0]/fine[0]-1) < .003: cmpm(c, "separate-component", [s[0][0, k], s[1][0, k], s[2][0, k]], fine, Rs[0], m.v0, 1e-2)
def projected(c):
    rng = c.rng
    for i in range(c.n(3)):
        m = GM(rng, ["axi", "sph"][i % 2], SF[(i+i//2) % 5], ncomp=None if i % 3 else 2)
        with c.case("projected:%s:%s" % (m.kind, m.sfname), dict(m.par, i=i)):
            L = m.L; n = 2; X = points(rng, n, .3*L, 3*L, 0)[:, :2]; A = np.array([angles(rng, i//2+j) for j in range(n)]); kw = dict(alpha=A[:, 0], beta=A[:, 1], gamma=A[:, 2]); r = m.model.moments(X, vel=True, **kw); s = m.model.moments(X, vel=True, separate=True, **kw); pdf = m.model.projectedDF(np.hstack((X, np.zeros((n, 3)), np.full((n, 3), np.inf))), **kw); vd = m.model.vdf(X[:2], dens=True, alpha=A[:2, 0], beta=A[:2, 1], gamma=A[:2, 2])
            for j in range(n):
                def line(per):
                    z, w = glpanels([-6, -1.5, 0, 1.5, 6], per); Rp = np.hypot(*X[j]); Z = Rp*np.sinh(z); W = w*Rp*np.cosh(z); P = np.column_stack((np.tile(X[j], (len(Z), 1)), Z)); g = abs(Z) < 300*L; q = m.model.moments(P[g], vel=True, alpha=A[j, 0], beta=A[j, 1], gamma=A[j, 2]); d = q[0]*W[g]; S = d.sum(); return S, (d@q[1])/S, (d@q[2])/S
                a = line(8); b = line(6)
                if abs(a[0]/b[0]-1) > 4e-3: c.event("reference-quadrature-inaccurate"); continue
                sd = np.sqrt(a[2][:3].sum()); c.close(r[0][j], a[0], "projected:density", 1e-2); c.close(r[1][j], a[1], "projected:velocity", 0, 2e-2*sd); c.close(r[2][j], a[2], "projected:velocity2", 0, 2e-2*sd**2); c.close(pdf[j], r[0][j], "projectedDF:all-infinite", 1e-2); c.event("projected points")
                if j < 2:
                    c.close(vd[3][j], a[0], "projected:vdf-density", 4e-2); ve = np.sqrt(-2*m.pot.potential(rotmat(*A[j]).T@np.array([X[j, 0], X[j, 1], 0])))*1.3
                    for k in range(3):
                        v, w = glint(-ve, ve, 400); f = np.asarray(vd[k][j](v, ext=False)); c.close((f*w).sum(), 1, "projected:vdf-norm", 2e-2); c.close((f*v*w).sum(), a[1][k], "projected:vdf-mean", 0, 4e-2*sd); c.close((f*v*v*w).sum(), a[2][k], "projected:vdf-second", 0, 5e-2*sd**2)
            c.close(s[0].sum(1), r[0], "projected:separate", 1e-2); c.close((s[0][..., None]*s[2]).sum(1)/r[0][:, None], r[2], "projected:separate-vel2", 0, 2e-2*r[2][:, :3].sum(1)[:, None])
            if m.kind == "sph" and m.sfi is None and len(m.dfs) == 1: c.close(r[0], [m.dspec[0]["density"].projectedDensity(x) for x in X], "projected:input-density", 1.5e-2)
def projdf(c):
    rng = c.rng
    for i in range(c.n(10)):
        m = GM(rng, ["axi", "sph"][i % 2], SF[(i//2) % 5])
        with c.case("projdf:%s:%s" % (m.kind, m.sfname), dict(m.par, i=i)):
            L = m.L; a = angles(rng, i//2); R = rotmat(*a); kw = dict(alpha=a[0], beta=a[1], gamma=a[2]); X = L*dirs(rng, 1)[0, :2]*float(rng.uniform(.5, 2)); ve0 = np.sqrt(-2*m.pot.potential(R.T@np.array([X[0], X[1], 0]))); V = ve0*rng.uniform(-.4, .4, 3); inf = np.inf
            def ref(err, n):
                """four-dimensional quadrature over the line of sight and unknown velocities"""
                z, wz = glpanels([-12, -5, -2, -.5, .5, 2, 5, 12], 3*n); Rp = np.hypot(*X); Z = Rp*np.sinh(z); wz = wz*Rp*np.cosh(z); pts, ws = [], []
                for Zi, wi in zip(Z, wz):
                    x = R.T@np.array([X[0], X[1], Zi]); ve = np.sqrt(-2*m.pot.potential(x))
                    def axis(k, vm):
                        if err[k] == 0: return np.array([V[k]]), np.ones(1)
                        if np.isinf(err[k]): return glpanels([-vm, -.5*vm, 0, .5*vm, vm], 2*n)
                        lo, hi = max(-vm, V[k]-6*err[k]), min(vm, V[k]+6*err[k])
                        if not lo < hi: return np.zeros(0), np.zeros(0)
                        v, w = glpanels(np.linspace(lo, hi, 4), 2*n); return v, w*np.exp(-.5*((v-V[k])/err[k])**2)/np.sqrt(2*pi)/err[k]
                    vz, wvz = axis(2, ve)
                    for b, wb in zip(vz, wvz):
                        vm = np.sqrt(max(ve**2-b*b, 0))
                        if vm == 0: continue
                        if np.isinf(err[0]):   # polar coordinates in the plane
                            s, w1 = glint(0, 1, 5*n); ph = (np.arange(8*n)+.5)*2*pi/(8*n); S, P = np.meshgrid(s*vm, ph, indexing="ij"); vx, vy = (S*np.cos(P)).ravel(), (S*np.sin(P)).ravel(); w = (S*(w1*vm)[:, None]*2*pi/(8*n)).ravel()
                        else:
                            ax, wx = axis(0, vm); ay, wy = axis(1, vm); vx, vy = [q.ravel() for q in np.meshgrid(ax, ay, indexing="ij")]; w = np.outer(wx, wy).ravel()
                        pts.append(np.column_stack((np.tile(x, (len(vx), 1)), np.column_stack((vx, vy, vx*0+b))@R))); ws.append(w*wb*wi)
                return float(np.sum(m.F(np.vstack(pts))*np.concatenate(ws))) if pts else 0.
            E = ve0*rng.uniform(.1, .5, 3); combos = [(inf, inf, 0), (0, 0, inf), (0, 0, 0), (inf, inf, E[2]), (E[0], E[1], 0), (E[0], 0, inf), (E[0], E[1], E[2])]; sel = [combos[k % 7] for k in range(i, i+(7 if c.thorough else 3))]
            for e in sel:
                g = m.model.projectedDF(np.hstack((X, V, e)), **kw); nm = "".join("0" if q == 0 else "i" if np.isinf(q) else "e" for q in e); full = nm == "eee"; a1, a2 = ref(e, 1 if full else 2), ref(e, 2 if full else 3); tol = abs(a1/a2-1) if a2 else 0
                if tol > .02 or a2 <= 0: c.event("reference-quadrature-inaccurate"); continue
                c.close(g, a2, "projectedDF:"+nm, (.06 if m.kind == "axi" else .02)+tol); c.event("projectedDF values")
            # the documented limit of very large uncertainties
            B = 30*ve0; g = m.model.projectedDF([np.hstack((X, [0, 0, V[2]], [inf, inf, B])), np.hstack((X, [0, 0, 0], [inf]*3)), np.hstack((X, V, [B, B, 0])), np.hstack((X, V*0, [inf, inf, 0]*1))-np.hstack((X*0, [0, 0, -V[2]], [0]*3))], **kw)
            c.close(g[0], g[1]*np.exp(-.5*(V[2]/B)**2)/np.sqrt(2*pi)/B, "projectedDF:large-vz-error", .05); c.close(g[2], g[3]*np.exp(-.5*(V[0]**2+V[1]**2)/B**2)/(2*pi)/B**2, "projectedDF:large-vxy-error", .08)
            s = m.model.projectedDF(np.hstack((X, V, [inf, inf, 0])), separate=True, **kw); t = m.model.projectedDF(np.hstack((X, V, [inf, inf, 0])), **kw); c.ok(np.shape(s) == (len(m.dfs),), "projectedDF:shape-separate", str(np.shape(s))); c.close(np.sum(s), t, "projectedDF:separate", .06)
            c.close(m.model.projectedDF(np.hstack((X, [0, 0, 3*ve0*10], [inf, inf, 0])), **kw), 0, "projectedDF:unbound", 0, 0)
            import warnings
            with warnings.catch_warnings(): warnings.simplefilter("ignore"); c.ok(np.isnan(m.model.projectedDF(np.hstack((X, V, [inf, 0, 0])), **kw)), "projectedDF:mixed-errors")
def vdf(c):
    rng = c.rng
    for i in range(c.n(2)):
        m = GM(rng, ["axi", "sph"][i % 2], [None, "mixed", "spatial", "velocity"][i % 4])
        with c.case("vdf:%s:%s" % (m.kind, m.sfname), dict(m.par, i=i)):
            L = m.L; x = points(rng, 1, .3*L, 3*L)[0]; a = angles(rng, i//2); R = rotmat(*a); kw = dict(alpha=a[0], beta=a[1], gamma=a[2]); ve = np.sqrt(-2*m.pot.potential(R.T@x)); r = m.model.moments(x, vel=True, **kw); sd = np.sqrt(r[2][:3].sum()); grid = np.unique(np.concatenate((np.linspace(-ve, ve, 31), np.linspace(-.3*ve, .3*ve, 21))))
            for nm, g in ((("default", {}) if i % 2 == 0 else ("size", dict(gridv=16))), ("array", dict(gridv=grid if i % 2 == 0 else np.linspace(-ve, ve, 14)))):
                q = m.model.vdf(x, dens=True, **g, **kw); c.close(q[3], r[0], nm+":density", 5e-3); v, w = glint(-ve, ve, 400)
                for k in range(3): f = np.asarray(q[k](v)); c.close((f*w).sum(), 1, nm+":norm", 2e-3); c.close((f*v*w).sum(), r[1][k], nm+":mean", 0, 8e-3*sd); c.close((f*v*v*w).sum(), r[2][k], nm+":second", 0, 2e-2*sd**2); c.close(q[k]([-1.01*ve, 1.01*ve], ext=False), 0, nm+":outside", 0, 1e-4/ve)
            # value of the distribution at several velocities against an independent marginalisation over the other two components
            nv = 5 if i % 2 == 0 else 3; k = int(rng.integers(3)); vk = r[1][k]+np.linspace(-1, 1, nv)*np.sqrt(max(r[2][k]-r[1][k]**2, 1e-6*sd**2))*1.2; vk = vk[abs(vk) < .9*ve]; o = [(1, 2), (2, 0), (0, 1)][k]; ref = []
            for b in vk:
                vm = np.sqrt(ve**2-b*b); s, w1 = glpanels([0, .2, .5, .8, 1], 12); ph = (np.arange(48)+.5)*2*pi/48; S, P = np.meshgrid(s*vm, ph, indexing="ij"); U = np.zeros((S.size, 3)); U[:, k] = b; U[:, o[0]] = (S*np.cos(P)).ravel(); U[:, o[1]] = (S*np.sin(P)).ravel(); ref.append(np.sum(m.F(np.hstack((np.tile(R.T@x, (len(U), 1)), U@R)))*(S*(w1*vm)[:, None]*2*pi/48).ravel())/r[0])
            pk = max(ref); c.close(q[k](vk), ref, "vdf:value", 0, (.06 if i % 2 == 0 else .1)*pk); c.event("vdf values", len(vk))
            X = points(rng, 2, .3*L, 3*L); s = m.model.vdf(X, dens=True, separate=True, gridv=14, **kw); n = len(m.dfs); c.ok(s[0].shape == (2, n) and s[3].shape == (2, n), "shape-separate"); t = m.model.vdf(X, dens=True, gridv=14, **kw); c.ok(t[0].shape == (2,), "shape-array")
            for j in range(2):
                vv = np.linspace(-.5, .5, 5)*ve; c.close(s[3][j].sum(), t[3][j], "separate:density", 6e-3); c.close(sum(s[3][j, b]*np.asarray(s[1][j, b](vv, ext=False)) for b in range(n)), t[3][j]*np.asarray(t[1][j](vv, ext=False)), "separate:vdf", 0, .03*t[3][j]*max(np.asarray(t[1][j](np.linspace(-ve, ve, 50), ext=False))))
def total(c):
    rng = c.rng
    for i in range(c.n(2)):
        sf = [None, "spatial", "mixed"][i % 3]; m = GM(rng, "sph" if i % 3 else "axi", sf, ncomp=2)
        with c.case("total:%s:%s" % (m.kind, sf), dict(m.par, i=i)):
            t = m.model.totalMass(); bad = lambda v: m.kind == "sph" and any("r_a" in d for d in m.dpar) and not np.all(v < 1.5*m.df.totalMass())
            if bad(t) or bad(m.model.totalMass(separate=True)): c.ok(False, "totalmass-om-radial-spike", "totalMass=%g" % t); continue
            s = m.model.totalMass(separate=True); c.ok(np.shape(s) == (2,), "shape"); c.close(np.sum(s), t, "separate-sum", 1e-2); u = [agama.GalaxyModel(m.pot, d, af=m.af, **({"sf": m.sf} if sf else {})).totalMass() for d in m.dfs]; c.close(s, u, "separate", 1.5e-2)
            if sf is None: c.close(u, [d.totalMass() for d in m.dfs], "total-vs-actions", 2e-2)
            else:   # integral of the density reported by moments
                d, w = sphere(6, 8); lr, lw = glpanels(np.linspace(np.log(1e-3*m.L), np.log(300*m.L), 6), 4); rr = np.exp(lr); X = (rr[:, None, None]*d[None]).reshape(-1, 3); rho = m.model.moments(X, vel2=False).reshape(len(rr), -1); c.close(t, np.sum((rho@w)*rr**3*lw), "total-vs-density", 6e-2)
    with c.case("selection-function"):
        for k in range(20):
            p, R, xi = rng.normal(size=3), logu(rng, .1, 10), float(rng.choice([0, .5, 1, 2, 5, np.inf])); s = agama.SelectionFunction(point=list(p), radius=R, steepness=xi); x = rng.normal(size=(50, 6))*R; d = np.sqrt(((x[:, :3]-p)**2).sum(1))/R; c.close(s(x), np.ones(50) if xi == 0 else (d <= 1)*1. if np.isinf(xi) else np.exp(-d**xi), "sf-value", 1e-12); c.close(s(x[3]), s(x)[3], "sf-scalar", 0)
        pot = agama.Potential(type="Plummer"); df = agama.DistributionFunction(type="QuasiSpherical", potential=pot)
        c.raises(lambda: agama.SelectionFunction(point=[0, 0, 0], radius=-1., steepness=1.), "sf-negative-radius"); c.raises(lambda: agama.SelectionFunction(point=[0, 0, 0], radius=1., steepness=-1.), "sf-negative-steepness")
        g = agama.GalaxyModel(pot, df); c.raises(lambda: g.moments([1, 2, 3, 4]), "bad-length"); c.raises(lambda: g.moments([1., 2, 3], dens=False, vel=False, vel2=False), "nothing"); c.raises(lambda: g.moments([1., 2, 3], foo=1), "unknown-argument"); c.raises(lambda: g.vdf([1., 0, 0], gridv=1), "gridv"); c.raises(lambda: g.moments([[1., 2, 3]]*3, beta=[1, 2]), "angles-length"); c.raises(lambda: g.projectedDF([1, 2, 3.]), "projectedDF-length"); c.raises(lambda: agama.GalaxyModel(pot), "no-df")
        z = g.moments([0., 0, 0], vel=True); c.close(z[0], 3/(4*pi), "centre-density", 5e-3); far = g.moments([1e6, 0, 0], vel=True); c.ok(np.isfinite(far[0]) and np.isfinite(far[2]).all() and far[0] < 1e-20, "far")
GROUPS = dict(moments=dict(fn=moments, cost=40, threads=2), projected=dict(fn=projected, cost=60, threads=2), projdf=dict(fn=projdf, cost=60, threads=2), vdf=dict(fn=vdf, cost=40, threads=2), total=dict(fn=total, cost=60, threads=4))
