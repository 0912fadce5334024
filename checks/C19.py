import os, numpy as np
from common import *
if not os.environ.get("VERIF_META_ONLY"):
    from vh import Skip
RULE = ("spherical potentials (one or two Plummer/Dehnen components, optional central point mass) x tracer densities (own or foreign) or synthetic DFs of the phase volume x radii over 5 decades; "
  "constant-anisotropy Jeans models; flattened and spherical tracers in axisymmetric potentials x meridional anisotropy x rotation parameter; self-consistent iterations of static, spheroidal and disky components in random combinations, initial guesses and orders of the list")
ASSUMPTIONS = ["oracles: closed-form component profiles plus double-exponential quadratures written for the monitor", "densities for which an isotropic DF is not guaranteed to be positive are not judged", "local spherical models of tracers that do not generate the potential are judged with an explicit phase-volume grid", "moments of GalaxyModel are correct (decided by C11)"]
_P = ["potential", "density"]
def static(c):
    """total potential = sum of the components' potentials; repeated iterations change nothing"""
    rng = c.rng
    for it in range(c.n(10, 60)):
        L = logu(rng, .1, 10); comps = []; exact = []; kinds = []
        m = agama.SelfConsistentModel(rminSph=L*2e-4, rmaxSph=L*3e3, sizeRadialSph=60, lmaxAngularSph=8, RminCyl=L*.02, RmaxCyl=L*80, sizeRadialCyl=22, zminCyl=L*.02, zmaxCyl=L*80, sizeVerticalCyl=20, useActionInterpolation=False, verbose=False)
        for k in range(int(rng.integers(1, 5))):
            t = int(rng.integers(4)); M = logu(rng, .1, 10); a = L*logu(rng, .3, 3)
            p = dict(type="Plummer", mass=M, scaleRadius=a) if t == 0 else dict(type="Dehnen", mass=M, scaleRadius=a, gamma=float(rng.uniform(0, 1.5))) if t == 1 else dict(type="MiyamotoNagai", mass=M, scaleRadius=a, scaleHeight=a*float(rng.uniform(.3, 1)))
            e = agama.Potential(p); exact.append(e); disk = t >= 2; 
            if rng.random() < .25: comps.append(agama.Component(potential=e)); kinds.append("potential")
            elif rng.random() < .2: comps.append(agama.Component(potential=e, density=agama.Density(p), disklike=disk)); kinds.append("both"); exact.append(e)
            else: comps.append(agama.Component(density=agama.Density(p), disklike=disk)); kinds.append("disk" if disk else "sph")
        with c.case("static", dict(kinds=kinds, L=L, n=len(comps))):
            for q in comps: m.components.append(q)
            m.iterate(); x = points(rng, 20, L*.1, L*10); f, = [sum(e.force(x) for e in exact)]; P = sum(e.potential(x) for e in exact); sc = np.abs(P); sf = np.sqrt((f**2).sum(1))[:, None]
            c.close(m.potential.potential(x), P, "scm:potential", 5e-3); c.close(m.potential.force(x), f, "scm:force", 0, 2e-2*sf); P1 = m.potential.potential(x)
            r = L*2e3; c.close(-m.potential.potential([r, 0, 0])*r, -sum(e.potential([r, 0, 0]) for e in exact)*r, "scm:mass", 3e-2)
            J = m.af(np.hstack((x[:3], np.zeros((3, 3))))); c.ok(np.all(np.isfinite(J)), "scm:actionfinder")
            for q, k in zip(comps, kinds): c.ok((q.potential is not None) == (k in ("potential", "both")), "scm:component-potential", k); c.ok((q.density is not None) == (k != "potential"), "scm:component-density", k)
            m.iterate(); c.close(m.potential.potential(x), P1, "scm:idempotent", 1e-13)
            m.components.append(agama.Component(potential=exact[0])); m.iterate(); c.close(m.potential.potential(x), P1+exact[0].potential(x), "scm:list-changed", 1e-10)
            m.components = [agama.Component(potential=exact[0])]; m.iterate(); c.close(m.potential.potential(x), exact[0].potential(x), "scm:list-replaced", 1e-12)
def iterations(c):
    """DF-based components: density is the moment of the DF in the previous potential; the fixed point is the exact model"""
    rng = c.rng
    for it in range(c.n(6, 50)):
        L = logu(rng, .2, 5); M = logu(rng, .2, 5); t = ["Plummer", "Isochrone", "Dehnen"][rng.integers(3)]; p = dict(type=t, mass=M, scaleRadius=L); ext = rng.random() < .5; scale = float(rng.uniform(.7, 1.4)); interp = bool(rng.random() < .3)
        with c.case("sph:"+t, dict(L=L, M=M, ext=ext, scale=scale, interp=interp)):
            pot = agama.Potential(p); q = agama.Potential(type="Plummer", mass=M*.7, scaleRadius=2*L); tot = agama.Potential(pot, q) if ext else pot
            df = agama.DistributionFunction(type="QuasiSpherical", density=pot, potential=tot); g = dict(rminSph=L*5e-3, rmaxSph=L*200, sizeRadialSph=25, lmaxAngularSph=0)
            guess = agama.Density(type=t if rng.random() < .5 else "Plummer", mass=M, scaleRadius=L*scale); comp = agama.Component(df=df, density=guess, disklike=False, **g); m = agama.SelfConsistentModel(useActionInterpolation=interp, verbose=False, **dict(g, rminSph=L*1e-3, rmaxSph=L*1e3, sizeRadialSph=40)); m.components = [comp]+([agama.Component(potential=q)] if ext else [])
            if rng.random() < .5: m.components = m.components[::-1]; c.event("external component first")
            x = points(rng, 12, L*.05, L*10); tm = df.totalMass(); d = []; prev = None; n = c.n(8, 12)
            for i in range(n):
                m.iterate(); cur = m.potential; dn = comp.density
                if i == 0: c.event("first iterations")
                # the component's density is the moment of its DF in the potential of the previous iteration
                if prev is not None:
                    if i in (1, n-1):
                        gm = agama.GalaxyModel(prev, df, agama.ActionFinder(prev, interp=interp)); c.close(dn.density(x), gm.moments(x, dens=True, vel=False, vel2=False), "scm:moment", 3e-2)
                    d.append(np.max(np.abs(cur.potential(x)/prev.potential(x)-1)))
                c.close(dn.totalMass(), tm, "scm:df-mass", 3e-2)
                c.close(cur.potential(x), agama.Potential(type="Multipole", density=dn, lmax=0, rmin=L*1e-3, rmax=L*1e3, gridSizeR=40).potential(x)+(q.potential(x) if ext else 0), "scm:sum", 1e-8)
                prev = cur
            c.ok(d[-1] < 6e-3, "scm:converged", str(d)); c.le(d[-1], .3*d[0]+1e-3, "scm:contracting")
            c.close(cur.potential(x), tot.potential(x), "scm:fixed-point-potential", 1.5e-2); c.close(dn.density(x), pot.density(x), "scm:fixed-point-density", 6e-2)
            c.close(cur.potential(x), cur.potential(x@rotmat(*rng.uniform(0, 3, 3)).T), "scm:spherical", 1e-9)
def disky(c):
    """flattened components: spheroidal and disky DFs together with a static halo"""
    rng = c.rng
    for it in range(c.n(1, 8)):
        M = logu(rng, .3, 3); L = logu(rng, .5, 2); halo = agama.Potential(type="Plummer", mass=20*M, scaleRadius=4*L); v0 = np.sqrt(M/L)
        with c.case("disky", dict(M=M, L=L)):
            pot0 = agama.Potential(agama.Potential(type="Disk", mass=M, scaleRadius=L, scaleHeight=-.15*L), halo)
            dfd = agama.DistributionFunction(type="QuasiIsothermal", mass=M, Rdisk=L, Hdisk=.15*L, sigmar0=.6*v0, Rsigmar=2*L, potential=pot0); dfb = agama.DistributionFunction(type="DoublePowerLaw", norm=.3*M, J0=.3*L*v0, slopeIn=1, slopeOut=6, coefJrIn=1.3, coefJzIn=.9, coefJrOut=1.3, coefJzOut=.9)
            g = dict(RminCyl=.15*L, RmaxCyl=8*L, sizeRadialCyl=10, zminCyl=.05*L, zmaxCyl=2*L, sizeVerticalCyl=7); s = dict(rminSph=.03*L, rmaxSph=30*L, sizeRadialSph=10, lmaxAngularSph=4)
            disk = agama.Component(df=dfd, density=agama.Density(type="Disk", mass=M, scaleRadius=L, scaleHeight=-.15*L), disklike=True, **g); bulge = agama.Component(df=dfb, density=agama.Density(type="Plummer", mass=dfb.totalMass(), scaleRadius=.4*L), disklike=False, **s); m = agama.SelfConsistentModel(useActionInterpolation=True, verbose=False, RminCyl=.1*L, RmaxCyl=12*L, sizeRadialCyl=20, zminCyl=.04*L, zmaxCyl=4*L, sizeVerticalCyl=16, rminSph=.01*L, rmaxSph=100*L, sizeRadialSph=30, lmaxAngularSph=6); m.components = [disk, bulge, agama.Component(potential=halo)]
            x = points(rng, 6, .3*L, 4*L); x[:, 2] *= .15; d = []; prev = None
            for i in range(3):
                m.iterate(); cur = m.potential
                if prev is not None:
                    d.append(np.max(np.abs(cur.potential(x)/prev.potential(x)-1)))
                    if i == 1:
                        gd = agama.GalaxyModel(prev, dfd, agama.ActionFinder(prev, interp=True)).moments(x, dens=True, vel=False, vel2=False); gb = agama.GalaxyModel(prev, dfb, agama.ActionFinder(prev, interp=True)).moments(x, dens=True, vel=False, vel2=False)
                        c.close(disk.density.density(x), gd, "scm:disk-moment", .15, .02*np.max(gd)); c.close(bulge.density.density(x), gb, "scm:bulge-moment", .4); c.le(np.median(np.abs(bulge.density.density(x)/gb-1)), .15, "scm:bulge-moment-median")
                pd = sum(agama.Potential(type="CylSpline", density=disk.density, mmax=0, Rmin=.1*L, Rmax=12*L, gridSizeR=20, zmin=.04*L, zmax=4*L, gridSizeZ=16).potential(x) for _ in [0]); pb = agama.Potential(type="Multipole", density=bulge.density, lmax=6, mmax=0, rmin=.01*L, rmax=100*L, gridSizeR=30).potential(x)
                c.close(cur.potential(x), pd+pb+halo.potential(x), "scm:sum", 1e-6); prev = cur
            c.close(disk.density.totalMass(), dfd.totalMass(), "scm:disk-mass", .06); c.close(bulge.density.totalMass(), dfb.totalMass(), "scm:bulge-mass", .06); c.ok(d[-1] < 1e-2, "scm:disky-converged", str(d)); c.le(d[-1], d[0], "scm:disky-contracting")
            c.close(cur.potential(x), cur.potential(x*[1, 1, -1]), "scm:z-symmetry", 1e-6); a = rng.uniform(0, 6); c.close(cur.potential(x), cur.potential(np.column_stack((x[:, 0]*np.cos(a)-x[:, 1]*np.sin(a), x[:, 0]*np.sin(a)+x[:, 1]*np.cos(a), x[:, 2]))), "scm:axisymmetry", 1e-9)
def invalid(c):
    with c.case("invalid"):
        p = agama.Potential(type="Plummer"); df = agama.DistributionFunction(type="QuasiSpherical", density=p, potential=p)
        c.raises(lambda: agama.SelfConsistentModel(verbose=False).iterate(), "scm:empty"); c.raises(lambda: agama.Component(), "scm:component-empty"); c.raises(lambda: agama.Component(df=df, potential=p, disklike=False), "scm:component-exclusive"); c.raises(lambda: agama.Component(density=p), "scm:component-disklike"); c.raises(lambda: agama.Component(df=df, disklike=False, rminSph=1, rmaxSph=.5, sizeRadialSph=20, lmaxAngularSph=0), "scm:component-grid")
        m = agama.SelfConsistentModel(verbose=False, rminSph=1e-2, rmaxSph=1e2, sizeRadialSph=20, lmaxAngularSph=0); m.components = [1]; c.raises(m.iterate, "scm:component-type")
_g = lambda n, cost=5: dict(cpp="c19_sph", args=[n], cost=cost)
GROUPS = dict(phasevol=_g("phasevol"), iso=_g("iso", 8), table=_g("table"), jeans=_g("jeans"), jeansaxi=_g("jeansaxi"), static=dict(fn=static, cost=40, threads=8), iterations=dict(fn=iterations, cost=30, threads=4), disky=dict(fn=disky, cost=40, threads=8), invalid=dict(fn=invalid, cost=1))
