import os, tempfile, shutil, re, numpy as np
from common import *
RULE = ("random expansions (each kind, symmetry, order, units), alone or nested in composites, x export, reload by several routes x points; random snapshots (size, columns, separators, comments, magnitudes) x format x units; "
  "random configuration files, key/value operations, numbers and widths against a reference model; INI file versus keyword versus string construction of the same model; a case is one object that went through a file or text and came back")
ASSUMPTIONS = ["exported coefficients carry at least 13 digits (relative to the largest coefficient of the same kind), text snapshots 8 significant digits, NEMO snapshots single precision",
  "only expansions are stored (documented); parameters of analytic models round-trip through INI files instead"]
TMP = None
def tmpf(name):
    global TMP
    if TMP is None:
        import atexit
        TMP = tempfile.mkdtemp(prefix="c07_"); atexit.register(shutil.rmtree, TMP, True)
    return os.path.join(TMP, name)
UNITS = [None, dict(mass=1, length=1, velocity=1), dict(mass=1e10, length=8, time=13), dict(mass=2.2229e5, length=1, velocity=1), dict(length=.01, velocity=220, mass=1e5), dict(length=1e-3, time=1e-3, mass=1)]
def setunits(u):
    agama.setUnits() if u is None else agama.setUnits(**u)
def expansions(c):
    rng = c.rng
    for i in range(c.n(75)):
        setunits(UNITS[i % len(UNITS)] if rng.random() < .7 else None); L = logu(rng, .1, 10); sym = ["Spherical", "Axisymmetric", "Triaxial", "Reflection", "None", "Bisymmetric", "4", "1"][rng.integers(8)]
        kind = ["Multipole", "CylSpline", "BasisSet", "DensitySphericalHarmonic", "DensityAzimuthalHarmonic"][i % 5]
        if kind[:3] == "Cyl" or kind == "DensityAzimuthalHarmonic": sym = {"4": "None", "1": "None"}.get(sym, sym)
        lm = int(rng.integers(0, 9)); mm = int(rng.integers(0, lm+1)); G = 1 if agama.getUnits() is None else agama.G
        q = dict(type=kind, symmetry=sym, mmax=mm)
        bl = Blobs(rng, {"Spherical": "spherical", "Axisymmetric": "axi"}.get(sym, "none"), L) if 0 else None
        src = rng.integers(3); axes = dict(axisRatioY=.8, axisRatioZ=.6) if sym not in ("Spherical", "Axisymmetric") else dict(axisRatioZ=.7) if sym != "Spherical" else {}
        if src == 0: src = agama.Density(type="Spheroid", gamma=.5, beta=4.5, scaleRadius=L, mass=1., **axes)
        elif src == 1: src = agama.Density(type="Dehnen", gamma=0, scaleRadius=L, mass=2., **axes)
        else: src = agama.Density(agama.Density(type="Disk", scaleRadius=L, scaleHeight=.2*L), agama.Density(type="Plummer", scaleRadius=.5*L))
        if sym in ("None", "4", "1", "Reflection") and rng.random() < .4:
            x0 = L*rng.normal(size=3)*.3; s = src; src = (lambda a: lambda x: s.density(x)*(1+.4*np.tanh((x @ a)/L)))(rng.normal(size=3)*(1 if sym == "None" else np.array([0., 1, 1]) if sym == "4" else np.array([1., 0, 1]) if sym == "1" else 0))
        n = int(rng.integers(8, 22))
        if kind in ("Multipole", "DensitySphericalHarmonic"): q.update(lmax=lm, gridSizeR=n, rmin=.01*L, rmax=100*L)
        elif kind == "BasisSet": q.update(lmax=lm, nmax=int(rng.integers(0, 14)), r0=L, **({"eta": float(rng.uniform(.5, 2))} if rng.random() < .5 else {}))
        else: q.update(gridSizeR=n, gridSizez=int(rng.integers(8, 20)), Rmin=.05*L, Rmax=50*L, zmin=.04*L, zmax=40*L)
        with c.case("expansion:"+kind, dict(q=q, u=str(agama.getUnits()))):
            isd = kind.startswith("Density"); Cl = agama.Density if isd else agama.Potential
            o = Cl(density=src, **q); f = tmpf("e%d.ini" % i); o.export(f)
            x = points(rng, 60, 1e-3*L, 1e3*L, .2)
            routes = [Cl(f), Cl(file=f)]
            rot = [np.linalg.qr(rng.normal(size=(3, 3)))[0] for _ in range(12)]; rsc = np.max([abs(o.density(x @ r)) for r in rot], 0)
            def cmp(a, b, key, tol=2e-12):
                ra, rb = a.density(x), b.density(x)
                if isd: c.close(ra, rb, key+":rho", 0, 1e-7*np.maximum(rsc, abs(rb))+1e-300)
                else:
                    r_ = np.sqrt((x**2).sum(1)); F = np.where((r_ < .05*L) | (r_ > 30*L), 3e3 if kind != "BasisSet" else 30, 1.)*(10 if kind == "CylSpline" else 1)
                    rr = np.maximum(np.sqrt((x**2).sum(1)), .01*L); p0, a0, d0 = a.eval(x, pot=True, acc=True, der=True); sf = np.maximum(np.linalg.norm(a0, axis=1), abs(p0)/rr); sh = np.maximum(abs(d0).max(1), abs(p0)/rr**2); Rc = np.maximum(np.hypot(x[:, 0], x[:, 1]), 1e-7*L); sf = sf+1e-4*abs(p0)/Rc; sh = sh+1e-6*abs(p0)/Rc**2
                    if kind == "CylSpline": sf = sf+abs(p0)/(.04*L); sh = sh+.1*abs(p0)/(.04*L)**2   # coefficients are printed with >=10 digits, derivatives are limited by grid spacing
                    c.close(ra, rb, key+":rho", 0, 1e-6*F*sh/(4*np.pi*G)+1e-300)
                    p1, a1, d1 = b.eval(x, pot=True, acc=True, der=True)
                    c.close(p1, p0, key+":phi", 0, 500*tol*F*abs(p0)); c.close(a1, a0, key+":acc", 0, (1e-8*F*sf)[:, None]+1e-300); c.close(d1, d0, key+":der", 0, (1e-6*F*sh)[:, None]+1e-300)
            for k, b in enumerate(routes): cmp(o, b, "export%d-" % k+kind)
            f2 = tmpf("e%d_2.ini" % i); routes[0].export(f2); cmp(o, Cl(f2), "export-again", 4e-12)
            # override or modification of what is read
            if not isd and rng.random() < .5:
                cen = L*rng.normal(size=3); b = agama.Potential(file=f, center=cen); c.close(b.potential(x+cen), o.potential(x), "export-center", 2e-6, 0)
            # composites, possibly nested or with the components in a single file
            if not isd:
                o2 = agama.Potential(type="Multipole", density=agama.Density(type="Plummer", scaleRadius=L*.5), lmax=0, gridSizeR=12); f3 = tmpf("e%d_3.ini" % i); comp = [agama.Potential(o, o2), agama.Potential(agama.Potential(o2, o), o), agama.Potential(o, o2, o2)][rng.integers(3)]; comp.export(f3); b = agama.Potential(f3); cmp(comp, b, "composite")
                c.ok(len(b) == (2 if len(comp) == 2 and not isinstance(comp[0], tuple) and len(comp) == len(b) else 3), "composite-len")
            else:
                o2 = agama.Density(type="DensitySphericalHarmonic", density=agama.Density(type="Plummer", scaleRadius=L*.5), lmax=0, gridSizeR=12); f3 = tmpf("e%d_3.ini" % i); comp = agama.Density(o, o2); comp.export(f3); cmp(comp, agama.Density(f3), "composite")
    setunits(None)
def analytic(c):
    """parameters of analytic models written to an INI file, as string or keywords give the same model"""
    rng = c.rng; syn = {"scaleRadius": ["scaleRadius", "rscale"], "scaleHeight": ["scaleHeight", "scaleRadius2", "scaleHeight"], "axisRatioY": ["axisRatioY", "p"], "axisRatioZ": ["axisRatioZ", "q"]}
    for i in range(c.n(300)):
        b = randmodel(rng, ["Plummer", "Isochrone", "NFW", "MiyamotoNagai", "Dehnen", "Logarithmic", "PerfectEllipsoid", "Ferrers"][i % 8])
        if not isinstance(b.spec, dict): continue
        setunits(UNITS[i % len(UNITS)] if rng.random() < .5 else None); spec = {k: v for k, v in b.spec.items()}
        with c.case("ini:"+b.kind, dict(spec=spec)):
            case = lambda s: [s, s.lower(), s.upper(), "".join(ch.upper() if rng.random() < .5 else ch for ch in s)][rng.integers(4)]
            fmt = lambda v: "%.17g" % v if isinstance(v, float) else str(v)
            f = tmpf("a%d.ini" % i); names = [case([k for k in [k]][0]) for k in spec]
            with open(f, "w") as o:
                if rng.random() < .5: o.write("# some comment\n\n; another = comment\n")
                o.write("["+case("Potential")+["", " my model", "1", " 2"][rng.integers(4)]+"]\n")
                L = ["%s%s=%s%s" % (n, " "*rng.integers(3), " "*rng.integers(3), fmt(v)) for n, v in zip(names, spec.values())]; rng.shuffle(L)
                for l in L: o.write((";x=1\n" if rng.random() < .2 else "")+l+["\n", "\r\n", "  \n"][rng.integers(3)])
                if rng.random() < .3: o.write("[Something else]\ntype=junk\nmass=5\n")
            ref = agama.Potential(**spec); x = points(rng, 20, .01*b.L, 100*b.L, .2); alts = [agama.Potential(f), agama.Potential(file=f), agama.Potential(spec), agama.Potential(**{n: v for n, v in zip(names, spec.values())}), agama.Potential(**{k: fmt(v) for k, v in spec.items()})]
            for k, a in enumerate(alts): c.close(a.potential(x), ref.potential(x), "ini%d" % k, 1e-15); c.close(a.density(x), ref.density(x), "ini%d" % k, 1e-14, equal_nan=True); c.close(a.force(x), ref.force(x), "ini%d" % k, 1e-14)
            # several sections = composite of all components in order; other sections are ignored
            f2 = tmpf("b%d.ini" % i); open(f2, "w").write("[Potential1]\n"+"\n".join("%s=%s" % (k, fmt(v)) for k, v in spec.items())+"\n[Ignored]\nmass=3\n[potential second]\ntype=Plummer\nmass=0.5\nscaleRadius=%.17g\n" % b.L)
            p2 = agama.Potential(f2); pl = agama.Potential(type="Plummer", mass=.5, scaleRadius=b.L); c.ok(len(p2) == 2, "ini-composite-len"); c.close(p2.potential(x), ref.potential(x)+pl.potential(x), "ini-composite", 1e-13); c.close(p2[1].potential(x), pl.potential(x), "ini-composite", 1e-13)
            p3 = agama.Potential(p2, dict(type="Plummer", mass=.1)); c.close(p3.potential(x), p2.potential(x)+agama.Potential(type="Plummer", mass=.1).potential(x), "ini-plus", 1e-13)
    setunits(None)
    for bad in ("", "[Potential]\ntype=NonexistentModel\n", "[Potential]\nmass=1\n", "no sections at all\n", "[Density]\ntype=Plummer\n", "[Potential]\ntype=Plummer\nmass=abc\n", "[Potential]\ntype=Plummer\nmass=1\nMASS=2\n", "[Potential]\ntype=Plummer\nscaleRadius=1\nrscale=2\n", "[Potential]\ntype=Multipole\nlmax=2\nCoefficients\n#Phi\n1 2\n", "[Potential]\ntype=CylSpline\nCoefficients\n", "[Potential]\ntype=BasisSet\nlmax=2\nnmax=1\nCoefficients\n#Phi\n0 1\n"):
        with c.case("badini", dict(text=bad)):
            f = tmpf("bad.ini"); open(f, "w").write(bad); c.raises(lambda: agama.Potential(f), "badini-accepted:"+re.sub(r"\s+", "_", bad)[:60]); c.raises(lambda: agama.Potential(tmpf("nonexistent.ini")), "badini-missing")
def num(rng):
    k = rng.integers(6); s = -1. if rng.random() < .5 else 1.
    return 0. if k == 0 and rng.random() < .3 else s*logu(rng, 1e-30, 1e30) if k == 1 else s*logu(rng, 1e-3, 1e3) if k < 4 else float(rng.integers(-100, 100)) if k == 4 else s*9.99999999999*10.**rng.integers(-5, 5)
def snapshots(c):
    rng = c.rng; from agama import NemoFile
    for i in range(c.n(250)):
        setunits(UNITS[i % len(UNITS)] if rng.random() < .5 else None); n = int(rng.integers(1, 40)); D = 3 if rng.random() < .3 else 6; X = np.array([[num(rng) for _ in range(D)] for _ in range(n)]); M = np.array([abs(num(rng)) for _ in range(n)]); f = tmpf("s%d" % i)
        with c.case("snapshot", dict(n=n, D=D, u=str(agama.getUnits()))):
            agama.writeSnapshot(f, (X, M)) if rng.random() < .5 else agama.writeSnapshot(filename=f, particles=(X, M), format=["t", "Text", "TEXT"][rng.integers(3)])
            x, m = agama.readSnapshot(f); c.ok(x.shape == (n, 6) and m.shape == (n,), "text-shape")
            if len(m) == n: c.close(x[:, :D], X, "text-coords", 6e-8); c.close(m, M, "text-mass", 6e-8); c.ok((x[:, D:] == 0).all(), "text-novel"); f1 = f+"b"; agama.writeSnapshot(f1, (x, m)); x1, m1 = agama.readSnapshot(f1); c.close(x1, x, "text-idempotent", 1e-14); c.close(m1, m, "text-idempotent", 1e-14)
            # single precision binary
            Y = np.clip(X, -1e30, 1e30); Y[(abs(Y) < 1e-30)] = 0; agama.writeSnapshot(f+".n", (Y, M), ["n", "nemo", "NEMO"][rng.integers(3)]); s = NemoFile(f+".n").read(); c.close(np.array(s["Position"]).reshape(-1, 3), Y[:, :3], "nemo-pos", 1.2e-7); c.close(np.array(s["Mass"]).ravel(), M, "nemo-mass", 1.2e-7)
            if D == 6: c.close(np.array(s["Velocity"]).reshape(-1, 3), Y[:, 3:], "nemo-vel", 1.2e-7)
    setunits(None)
    for i in range(c.n(150)):     # hand-written text files
        n = int(rng.integers(0, 20)); D = [3, 6][rng.integers(2)]; X = np.array([[num(rng) for _ in range(D)] for _ in range(n)]).reshape(n, D); M = np.array([abs(num(rng)) for _ in range(n)]); f = tmpf("h%d" % i); s = ""; sep = [" ", "\t", ", ", ";", "   "][rng.integers(5)]
        for k in range(n):
            while rng.random() < .25: s += ["# comment 1 2 3 4 5 6 7 8\n", "; 1 2 3 4 5 6 7\n", "x y z vx vy vz m\n", "1 2 3\n", "\n" if s else "# \n"][rng.integers(5)]
            s += " "*int(rng.integers(3) if s else 0)+sep.join([["%.17g", "%+.16e", "%.17g"][rng.integers(3)] % v for v in list(X[k])+[M[k]]])+(" # trailing comment" if rng.random() < .0 else "")+["\n", "\r\n", " \n"][rng.integers(3)]
        if s and rng.random() < .4: s = s.rstrip("\r\n ")
        s = s or "# nothing\n"; open(f, "w").write(s)
        with c.case("handtext", dict(text=s[:300])):
            x, m = agama.readSnapshot(f); c.ok(len(m) == n and x.shape == (n, 6), "handtext-count", "%d vs %d" % (len(m), n))
            if len(m) == n and n: c.close(x[:, :D], X, "handtext", 1e-15); c.close(m, M, "handtext-mass", 1e-15)
            pp = agama.Potential(type="Multipole", particles=f, lmax=0, gridSizeR=10) if 0 else None
    for bad in (b"\x00\x01\x02\x03" * 20, b"1 2 3 4x\nabc", b"1 2 3 x\n", b"1 2 3 4 5 6 q\n", bytes(range(1, 30))*10):
        with c.case("badsnap", dict(b=repr(bad[:20]))):
            f = tmpf("bad"); open(f, "wb").write(bad)
            try: x, m = agama.readSnapshot(f); c.ok(bad[:5] == b"1 2 3" and bad[6:7] == b"4" and len(m) == 1 and m[0] == 4, "badsnap-accepted", repr(bad[:20]))
            except RuntimeError: c.ok(True, "badsnap")
            except Exception: c.ok(True, "badsnap")
            c.raises(lambda: agama.readSnapshot(tmpf("none")), "badsnap-missing"); c.raises(lambda: agama.writeSnapshot(tmpf("none/none"), (np.zeros((2, 6)), np.ones(2))), "badsnap-unwritable"); c.raises(lambda: agama.writeSnapshot(tmpf("x"), (np.zeros((2, 6)), np.ones(3))), "badsnap-mismatch"); c.raises(lambda: agama.writeSnapshot(tmpf("x"), (np.zeros((2, 6)), np.ones(2)), "qqq"), "badsnap-format")
if not os.environ.get("VERIF_META_ONLY"):
    import agama
    from vh import Skip
GROUPS = dict(expansions=dict(fn=expansions, cost=20), analytic=dict(fn=analytic, cost=10), snapshots=dict(fn=snapshots, cost=10), **{g: dict(cpp="c07_io", args=[g], cost=6) for g in ("numbers", "config", "profiles")}, cppsnapshots=dict(cpp="c07_io", args=["snapshots"], cost=5))
