"""helpers shared by the Python monitors: random models, independent quadrature, rotations, statistics"""
import os, math
import numpy as np
if not os.environ.get("VERIF_META_ONLY"):
    import agama
pi = np.pi
def logu(rng, a, b): return float(np.exp(rng.uniform(np.log(a), np.log(b))))
def pick(rng, special, a, b, p=0.4):
    return float(special[rng.integers(len(special))]) if rng.random() < p else float(rng.uniform(a, b))
def dirs(rng, n):
    v = rng.normal(size=(n, 3)); return v / np.sqrt((v**2).sum(1))[:, None]
def points(rng, n, lo, hi, degenerate=0.25):
    """n points with log-uniform radii in lo..hi; a fraction lies on symmetry planes and axes"""
    r = np.exp(rng.uniform(np.log(lo), np.log(hi), n)); v = dirs(rng, n)
    for i in range(n):
        if rng.random() < degenerate:
            k = rng.integers(4)
            if k < 3: v[i, k] = 0
            else: v[i, :2] = 0
            v[i] /= max(1e-300, np.sqrt((v[i]**2).sum()))
            if not np.all(np.isfinite(v[i])) or (v[i] == 0).all(): v[i] = [0, 0, 1]
    return v * r[:, None]
def rotmat(a, b, g):
    """rotation matrix R of the reference documentation: X = R x, Euler angles alpha, beta, gamma"""
    ca, sa, cb, sb, cg, sg = np.cos(a), np.sin(a), np.cos(b), np.sin(b), np.cos(g), np.sin(g)
    return np.array([[ca*cg - sa*cb*sg,  sa*cg + ca*cb*sg, sb*sg],
                     [-ca*sg - sa*cb*cg, -sa*sg + ca*cb*cg, sb*cg],
                     [sa*sb, -ca*sb, cb]])
_gl = {}
def gl(n):
    if n not in _gl: _gl[n] = np.polynomial.legendre.leggauss(n)
    return _gl[n]
def glint(a, b, n):
    """nodes and weights on [a,b]"""
    x, w = gl(n); return 0.5*(a + b) + 0.5*(b - a)*x, 0.5*(b - a)*w
def glpanels(edges, n):
    xs, ws = zip(*[glint(edges[i], edges[i+1], n) for i in range(len(edges)-1)])
    return np.concatenate(xs), np.concatenate(ws)
def sphere(nt=24, nph=24, full=True):
    """directions and weights (sum = 4 pi): Gauss-Legendre in cos theta, equally spaced in phi"""
    if nt > 40:   # panels clustered towards the equatorial plane, for flattened models
        ct, w = glpanels([-1, -.3, -.08, -.02, 0, .02, .08, .3, 1], nt // 5)
    else: ct, w = gl(nt)
    ph = (np.arange(nph) + 0.5) * 2*pi / nph
    st = np.sqrt(1 - ct**2)
    d = np.stack([np.outer(st, np.cos(ph)), np.outer(st, np.sin(ph)), np.outer(ct, np.ones(nph))], -1).reshape(-1, 3)
    return d, np.outer(w, np.ones(nph) * 2*pi/nph).reshape(-1)
def massquad(dens, r1, r2, nt=40, nph=40, perdex=10, t=0):
    """mass of a density between two radii: composite Gauss-Legendre in log r"""
    d, w = sphere(nt, nph)
    ne = max(2, int(np.ceil(np.log10(r2/r1) * perdex / 8)) + 1)
    lr, lw = glpanels(np.linspace(np.log(r1), np.log(r2), ne), 8)
    r = np.exp(lr)
    rho = dens.density((r[:, None, None] * d[None]).reshape(-1, 3), t=t).reshape(len(r), -1)
    return float(np.sum((rho @ w) * r**3 * lw))
class Blobs:
    """sum of Plummer spheres: an exactly known model with a chosen symmetry"""
    SYM = ["none", "reflection", "bisymmetric", "triaxial", "axisymmetric", "spherical"]
    def __init__(self, rng, sym="none", L=1.0, off=0.5, nb=3):
        P = []
        for i in range(nb):
            m, b = rng.uniform(0.3, 1), L * rng.uniform(0.6, 1.5)
            x = L * off * rng.uniform(-.6, .6, 3)
            if sym == "spherical": S = [x*0]
            elif sym == "axisymmetric": S = [np.array([0, 0, x[2]]), np.array([0, 0, -x[2]])]
            elif sym == "reflection": S = [x, -x]
            elif sym == "bisymmetric": S = [x * s for s in ([1,1,1],[-1,-1,1],[1,1,-1],[-1,-1,-1])]
            elif sym == "triaxial": S = [x * np.array([a,b_,c]) for a in (1,-1) for b_ in (1,-1) for c in (1,-1)]
            else: S = [x]
            for s in S: P.append(np.concatenate([s, [m/len(S), b]]))
        self.P = np.array(P); self.sym = sym; self.L = L
        self.M = self.P[:, 3].sum()
    def _d(self, x):
        x = np.atleast_2d(x)
        d = x[:, None, :] - self.P[None, :, :3]
        return d, np.sqrt((d**2).sum(-1) + self.P[:, 4]**2)
    def phi(self, x): d, s = self._d(x); return -(self.P[:, 3] / s).sum(1)
    def acc(self, x): d, s = self._d(x); return -((self.P[:, 3] / s**3)[:, :, None] * d).sum(1)
    def rho(self, x): d, s = self._d(x); return (3/(4*pi) * self.P[:, 3] * self.P[:, 4]**2 / s**5).sum(1)
    def potential(self, **kw):
        """as a composite of native shifted Plummer spheres"""
        return agama.Potential(*[dict(type="Plummer", mass=p[3], scaleRadius=p[4], center=list(p[:3])) for p in self.P])
class Model:
    def __init__(self, spec, obj, L, **kw):
        self.spec, self.obj, self.L = spec, obj, L
        self.cusp = self.infmass = self.thin = False; self.approx = 0.; self.rlo = 1e-2; self.rhi = 1e2; self.sph = False; self.axi = False
        self.__dict__.update(kw)
KINDS = ["Plummer", "Isochrone", "NFW", "MiyamotoNagai", "PerfectEllipsoid", "Dehnen", "DehnenTriax", "Ferrers", "King", "Logarithmic",
    "Multipole", "MultipoleTriax", "BasisSet", "CylSpline", "Disk", "Composite", "Modified", "BlobsComposite"]
def modspec(rng, L):
    s = {}
    if rng.random() < .6: s["center"] = [float(v) for v in L*rng.normal(size=3)]
    if rng.random() < .6: s["orientation"] = [float(v) for v in rng.uniform([-4, 0, -4], [4, 3.1, 4])]
    if rng.random() < .4: s["rotation"] = float(rng.uniform(-4, 4))
    if rng.random() < .4: s["scale"] = [logu(rng, .3, 3), logu(rng, .3, 3)]
    if not s: s["rotation"] = float(rng.uniform(-4, 4))
    return s
def randmodel(rng, kind=None, L=None, M=None, depth=0):
    kind = kind or KINDS[rng.integers(len(KINDS))]
    M = M or logu(rng, 1e-2, 1e2); L = L or logu(rng, 1e-2, 1e2)
    ml = dict(mass=M, scaleRadius=L)
    p = 1. if rng.random() < .4 else float(rng.uniform(.5, 1.)); q = 1. if rng.random() < .2 else float(rng.uniform(.4, 1.))
    k = {}
    if kind in ("Plummer", "Isochrone", "NFW"):
        s = dict(type=kind, **ml); k = dict(sph=True, axi=True, cusp=kind == "NFW", infmass=kind == "NFW")
    elif kind == "MiyamotoNagai": s = dict(type=kind, scaleHeight=L*logu(rng, .1, 3), **ml); k = dict(axi=True)
    elif kind == "PerfectEllipsoid": s = dict(type=kind, axisRatioZ=float(rng.uniform(.2, .95)), **ml); k = dict(axi=True)
    elif kind == "Dehnen":
        g = pick(rng, [0, 1, 2, 1.5, .5], 0, 2); s = dict(type="Dehnen", gamma=g, **ml); k = dict(sph=True, axi=True, cusp=g > 0)
    elif kind == "DehnenTriax":
        s = dict(type="Dehnen", gamma=pick(rng, [0, 1], 0, 1.8), axisRatioY=float(rng.uniform(.5, .95)), axisRatioZ=float(rng.uniform(.4, .9)), **ml); k = dict(cusp=True, approx=3e-3)
    elif kind == "Ferrers":
        pp = float(rng.uniform(.4, .95)); s = dict(type=kind, axisRatioY=pp, axisRatioZ=pp*float(rng.uniform(.3, .95)), **ml); k = dict(approx=3e-3)
    elif kind == "King": s = dict(type=kind, W0=float(rng.uniform(1, 8)), trunc=pick(rng, [0, 1], 0, 1.5), **ml); k = dict(sph=True, axi=True, approx=1e-4)
    elif kind == "Logarithmic": s = dict(type=kind, v0=logu(rng, .1, 10), scaleRadius=L, axisRatioY=max(p, .8), axisRatioZ=max(q, .8)); k = dict(infmass=True)
    elif kind in ("Multipole", "MultipoleTriax", "BasisSet"):
        if kind == "Multipole": p = 1.
        elif kind == "MultipoleTriax": p = float(rng.uniform(.6, .95))
        g, b, a = pick(rng, [0, 1], 0, 1.7), pick(rng, [4, 5], 3.5, 6), pick(rng, [1, 2], .7, 2.)
        den = dict(type="Spheroid", gamma=g, beta=b, alpha=a, axisRatioY=p, axisRatioZ=max(q, .5), **ml)
        if rng.random() < .4: den.update(outerCutoffRadius=L*logu(rng, 1, 30), cutoffStrength=float(rng.uniform(.5, 3)))
        s = dict(type="BasisSet" if kind == "BasisSet" else "Multipole", density=agama.Density(**den), lmax=int(rng.integers(0, 9)), **({} if kind != "BasisSet" else dict(nmax=int(rng.integers(4, 13)))))
        k = dict(cusp=True, axi=p == 1, sph=(p == 1 and max(q, .5) == 1) or s["lmax"] == 0, approx=1e-3)
        o = agama.Potential(**s); s = dict(s, density=den); return Model(s, o, L, kind=kind, M=M, **k)
    elif kind == "CylSpline":
        den = dict(type="Disk", scaleHeight=L*float(rng.uniform(.1, .4))*(1 if rng.random() < .5 else -1), **ml) if rng.random() < .5 else dict(type="Spheroid", gamma=0.5, beta=5., axisRatioZ=float(rng.uniform(.3, .8)), **ml)
        s = dict(type="CylSpline", density=agama.Density(**den), mmax=0, gridSizeR=25, gridSizeZ=25); o = agama.Potential(**s); s = dict(s, density=den)
        return Model(s, o, L, kind=kind, M=M, axi=True, approx=1e-2, thin=den["type"] == "Disk", rlo=.1, rhi=10, cusp=den["type"] == "Disk")
    elif kind == "Disk":
        s = dict(type="Disk", scaleHeight=L*float(rng.uniform(.1, .4))*(1 if rng.random() < .5 else -1), **ml); k = dict(axi=True, thin=True, cusp=True, approx=1e-2, rlo=.1, rhi=10)
    elif kind == "Composite":
        n = int(rng.integers(2, 4)); ms = [randmodel(rng, KINDS[rng.integers(6)], L*logu(rng, .5, 2), M*logu(rng, .3, 3), depth+1) for _ in range(n)]
        o = agama.Potential(*[m.obj for m in ms])
        return Model([m.spec for m in ms], o, L, kind=kind, M=M, cusp=any(m.cusp for m in ms), infmass=any(m.infmass for m in ms), axi=all(m.axi for m in ms), sph=all(m.sph for m in ms), approx=max(m.approx for m in ms))
    elif kind == "Modified":
        m = randmodel(rng, KINDS[rng.integers(12 if depth == 0 else 6)], L, M, depth+1); mod = modspec(rng, L)
        o = agama.Potential(potential=m.obj, **mod)
        r = Model([m.spec, mod], o, L); r.__dict__.update({a: b for a, b in m.__dict__.items() if a not in ("spec", "obj")}); r.kind = kind; r.axi = r.sph = False; r.mod = mod; r.base = m; r.cusp = True
        return r
    elif kind == "BlobsComposite":
        b = Blobs(rng, Blobs.SYM[rng.integers(6)], L); return Model(dict(blobs=b.P), b.potential(), L, kind=kind, M=b.M, blobs=b)
    return Model(s, agama.Potential(**s), L, kind=kind, M=M, **k)
