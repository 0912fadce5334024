// C03: derived one- and two-dimensional interpolators, phase volume, averaged models, roots along a line of sight
#include "potgen.h"
using namespace gen;
static double Pw(const BasePotential& p, double R) { return p.value(coord::PosCyl(R,0,0)); }
static Case axi(vh::Ctx& c, int i, bool sph=false) {
    static const int A[]={PLUMMER,ISOCHRONE,NFW_,DEHNENS,MN,PERFELL,DEHNENS,MULTIPOLE}, S[]={PLUMMER,ISOCHRONE,NFW_,DEHNENS,DEHNENS};
    for(;;) { Case k=random(c, sph? S[i%5] : A[i%8]); if(isZRotSymmetric(*k.pot) && (!sph || isSpherical(*k.pot))) return k; }
}
int main(int argc, char** argv) {
    vh::Ctx c(argc, argv);
    if(c.has("interp")) for(int i=0;i<c.n(64);i++) { Case k=axi(c,i);
        vh::run(c,"interp",k.desc,[&]{ std::string T=k.desc;
            Interpolator I(*k.pot); Interpolator2d I2(*k.pot); const BasePotential& p=*k.pot; bool approx = T.find("Multipole")!=std::string::npos;
            for(int j=0;j<30;j++) {
                double R=k.L*c.logu(1e-3,1e3), v,d1,d2, g; double P0; coord::GradCyl gr; coord::HessCyl h; p.eval(coord::PosCyl(R,0,0),&P0,&gr,&h);
                I.evalDeriv(R,&v,&d1,&d2); double tol=approx?1e-4:1e-5;
                c.close(v,P0,"int-Phi",tol*.1,0,T); c.close(d1,gr.dR,"int-dPhi",approx?3e-3:tol,1e-12*fabs(P0)/R,T); c.close(d2,h.dR2,"int-d2Phi",30*tol,30*tol*fabs(gr.dR/R)+1e-10*fabs(P0)/R/R,T);
                double vc=sqrt(R*gr.dR), Ec=P0+.5*vc*vc, Lc=R*vc;
                c.close(v_circ(p,R),vc,"vcirc",1e-12,0,T);
                double dphi=-log(fabs(1-Ec/Pw(p,0))); if(!std::isfinite(Pw(p,0))) dphi=0; double amp = std::isfinite(Pw(p,0)) ? 1+1e-10*fabs(Pw(p,0)/(Ec-Pw(p,0))) : 1;
                if(amp<1.01) { double e2=approx?5e-4:1e-5;
                c.close(R_circ(p,Ec),R,"Rcirc",e2,0,T); c.close(I.R_circ(Ec),R,"int-Rcirc",e2,0,T); c.close(L_circ(p,Ec),Lc,"Lcirc",e2,0,T); c.close(I.L_circ(Ec),Lc,"int-Lcirc",e2,0,T);
                c.close(R_max(p,P0),R,"Rmax",e2,0,T); c.close(I.R_max(P0),R,"int-Rmax",e2,0,T);
                c.close(T_circ(p,Ec),2*M_PI*R/vc,"Tcirc",e2,0,T);
                // derivatives: dL/dE=1/Omega, dR/dL etc
                double dL,dR,dRm,dRL; I.L_circ(Ec,&dL); I.R_circ(Ec,&dR); I.R_max(P0,&dRm); I.R_from_Lz(Lc,&dRL); double kap2=h.dR2+3*gr.dR/R, dLdR=kap2*R*R*R/(2*Lc);
                double te=approx?3e-3:2e-4;
                c.close(dL,R/vc,"int-dLdE",te,0,T); c.close(dR*dLdR,R/vc,"int-dRdE",10*te,0,T); c.close(dRm*gr.dR,1,"int-dRmaxdE",te,0,T); c.close(dRL*dLdR,1,"int-dRdL",10*te,0,T);
                }
                c.close(R_from_Lz(p,Lc),R,"RfromLz",1e-5,0,T); c.close(R_from_Lz(p,-Lc),R,"RfromLz",1e-5,0,T); c.close(I.R_from_Lz(Lc),R,"int-RfromLz",approx?5e-4:1e-5,0,T);
                double ka,nu,Om,kb,nb,Ob; epicycleFreqs(p,R,ka,nu,Om); I.epicycleFreqs(R,kb,nb,Ob);
                c.close(ka*ka,h.dR2+3*gr.dR/R,"kappa",1e-9,0,T); c.close(nu*nu,h.dz2,"nu",1e-9,1e-10*Om*Om,T); c.close(Om*Om,gr.dR/R,"Omega",1e-9,0,T);
                c.close(kb,ka,"int-kappa",30*tol,0,T); c.close(nb,nu,"int-nu",100*tol,1e-3*Om*tol,T); c.close(Ob,Om,"int-Omega",10*tol,0,T);
                // planar orbit with known extent
                double R2=R*(1+c.logu(1e-2,30)), P2=Pw(p,R2), L2=2*(P2-P0)/(1/R/R-1/R2/R2), E=P0+L2/(2*R*R), a,b; double t3=(approx?1e-4:1e-5)+1e-7/(R2/R-1);
                if(fabs(E)>1e-6*fabs(P0) && (!std::isfinite(Pw(p,0)) || E-Pw(p,0)>1e-6*fabs(Pw(p,0)))) {
                    findPlanarOrbitExtent(p,E,sqrt(L2),a,b); c.close(a,R,"extent-peri",t3,0,T); c.close(b,R2,"extent-apo",t3,0,T);
                    I2.findPlanarOrbitExtent(E,sqrt(L2),a,b); c.close(a,R,"int2d-peri",30*t3,0,T); c.close(b,R2,"int2d-apo",30*t3,0,T);
                }
            }
            double a,b; if(!k.infmass) { findPlanarOrbitExtent(p,0.1,1,a,b); c.ok(!(b<1e100),"extent-unbound",T); }
            findPlanarOrbitExtent(p,NAN,1,a,b); c.ok(a!=a&&b!=b,"extent-nan",T);
            if(std::isfinite(Pw(p,0))) { findPlanarOrbitExtent(p,Pw(p,0)*(1+1e-3*(Pw(p,0)<0?1:-1)),1,a,b); c.ok(a!=a&&b!=b,"extent-below",T); }
            // inner slope: the potential near the origin follows the reported power law
            double Phi0,coef,s=innerSlope(Axisymmetrized<BasePotential>(p),&Phi0,&coef); c.ok(s>=-1,"innerslope-range",T);
            double g=-1; size_t w=T.find("gamma="); if(w!=std::string::npos && T.find("Dehnen")!=std::string::npos && !approx) g=atof(T.c_str()+w+6);
            if(T.find("Plummer")!=std::string::npos || T.find("Isochrone")!=std::string::npos) g=0; if(T.find("type=NFW")!=std::string::npos) g=1;
            if(g>=0) c.close(s,2-g,"innerslope",2e-2,2e-2,T);
        }); }
    if(c.has("phasevol")) for(int i=0;i<c.n(60);i++) { Case k=axi(c,i,true);
        vh::run(c,"phasevol",k.desc,[&]{ std::string T=k.desc; const BasePotential& p=*k.pot; Sphericalized<BasePotential> w(p); PhaseVolume pv(w); bool dflt=false;
            for(int j=0;j<12;j++) {
                double R=k.L*c.logu(1e-3,1e3), E=Pw(p,R), h,g; pv.evalDeriv(E,&h,&g);
                if(std::isfinite(Pw(p,0)) && (E-Pw(p,0))<1e-7*fabs(E)) continue;
                // independent quadrature: r = R sin^2(a)
                double sh=0, sg=0; int n=400; for(int q=0;q<n;q++) { double a=(q+.5)/n*M_PI/2, r=R*sin(a)*sin(a)*sin(a)*sin(a); double jac=4*R*pow(sin(a),3)*cos(a)*M_PI/2/n, v=sqrt(fmax(0,2*(E-Pw(p,r)))); sh+=r*r*v*v*v*jac; sg+=r*r*v*jac; }
                sh*=16*M_PI*M_PI/3; sg*=16*M_PI*M_PI;
                c.close(h,sh,"h",3e-4,0,T); c.close(g,sg,"g",3e-4,0,T);
                double g2,dg; c.close(pv.E(h,&g2,&dg),E,"EofH",1e-6,0,T); c.close(g2,g,"gofH",1e-4,0,T);
                double e=1e-3, gp,gm; pv.E(h*(1+e),&gp); pv.E(h*(1-e),&gm); c.close(dg,(gp-gm)/(2*e*h),"dgdh",1e-3,0,T);
                double h2=h*c.logu(.2,5); c.close(pv.deltaE(log(h),log(h2)),pv.E(h)-pv.E(h2),"deltaE",1e-6,1e-9*fabs(E),T);
                c.close(pv.value(E),h,"value",1e-14,0,T);
            }
            double h,g; if(!k.infmass) { pv.evalDeriv(0,&h,&g); c.ok(h==INFINITY,"h-unbound",T); pv.evalDeriv(1.,&h,&g); c.ok(h==INFINITY,"h-unbound",T); }
            if(std::isfinite(Pw(p,0))) { pv.evalDeriv(Pw(p,0)*2,&h,&g); c.ok(h==0&&g==0,"h-below",T+" h="+D(h)+" g="+D(g)); }
        }); }
    if(c.has("symm")) for(int i=0;i<c.n(60);i++) {
        int sy=randSym(c); double L=c.logu(.1,10); shared_ptr<Blobs> b=makeBlobs(c,sy,L,.5);
        vh::run(c,"symm",std::string(symName(sy))+vh::Str().operator<<(b->bl[0].x).s.str(),[&]{ std::string T=symName(sy); const BasePotential& p=*b;
            Sphericalized<BasePotential> sp(p); Sphericalized<BaseDensity> sd(p); Axisymmetrized<BasePotential> ap(p); Axisymmetrized<BaseDensity> ad(p);
            for(int j=0;j<10;j++) { double r=L*c.logu(.05,20), ct=c.uni(-1,1), st=sqrt(1-ct*ct), ph=c.uni(-3,3); double sP=0,sG=0,sR=0,sH=0,wt=0,aP=0,aR=0,aGR=0,aGz=0,aHRR=0,aHzz=0,aHRz=0; int n=64, m=64; std::vector<double> gx(n),gw(n);
                // Gauss-Legendre nodes by Newton iteration
                for(int q=0;q<n;q++) { double x=cos(M_PI*(q+.75)/(n+.5)); double dp=1; for(int it=0;it<50;it++) { double p0=1,p1=x; for(int l=2;l<=n;l++) { double t=((2*l-1)*x*p1-(l-1)*p0)/l; p0=p1; p1=t; } dp=n*(x*p1-p0)/(x*x-1); x-=p1/dp; } gx[q]=x; gw[q]=2/((1-x*x)*dp*dp); }
                for(int q=0;q<n;q++) for(int s=0;s<m;s++) { double f=(s+.5)*2*M_PI/m, x=gx[q]; coord::GradSph g; coord::HessSph h; double v; p.eval(coord::PosSph(r,acos(x),f),&v,&g,&h); double w=gw[q]/m/2; sP+=w*v; sG+=w*g.dr; sH+=w*h.dr2; sR+=w*p.density(coord::PosSph(r,acos(x),f)); }
                for(int s=0;s<m;s++) { double f=(s+.5)*2*M_PI/m, v; coord::GradCyl g; coord::HessCyl h; p.eval(coord::PosCyl(r*st,r*ct,f),&v,&g,&h); aP+=v/m; aGR+=g.dR/m; aGz+=g.dz/m; aHRR+=h.dR2/m; aHzz+=h.dz2/m; aHRz+=h.dRdz/m; aR+=p.density(coord::PosCyl(r*st,r*ct,f))/m; }
                coord::GradCyl g; coord::HessCyl h; double v,d1,d2; sp.evalDeriv(r,&v,&d1,&d2); double G=fabs(sP)/r;
                c.close(v,sP,"sph-pot",1e-5,0,T); c.close(d1,sG,"sph-force",1e-4,3e-5*G,T); c.close(d2,sH,"sph-hess",5e-4,5e-4*G/r,T); c.close(sd.value(r),sR,"sph-dens",1e-3,1e-4*G/r,T);
                ap.eval(coord::PosCyl(r*st,r*ct,ph),&v,&g,&h); double e=1e-5; c.close(v,aP,"axi-pot",e,0,T); c.close(g.dR,aGR,"axi-force",0,10*e*G,T); c.close(g.dz,aGz,"axi-force",0,10*e*G,T); c.ok(fabs(g.dphi)<=1e-14*G*r,"axi-dphi",T);
                c.close(h.dR2,aHRR,"axi-hess",0,1e-3*G/r,T); c.close(h.dz2,aHzz,"axi-hess",0,1e-3*G/r,T); c.close(h.dRdz,aHRz,"axi-hess",0,1e-3*G/r,T); c.ok(fabs(h.dphi2)<=1e-13*G*r&&fabs(h.dRdphi)<=1e-13*G&&fabs(h.dzdphi)<=1e-13*G,"axi-hessphi",T);
                c.close(ad.density(coord::PosCyl(r*st,r*ct,ph)),aR,"axi-dens",1e-3,1e-4*G/r,T); c.close(ap.density(coord::PosCyl(r*st,r*ct,ph)),aR,"axi-potdens",1e-3,1e-4*G/r,T);
                c.ok(isSpherical(sp)&&isSpherical(sd)&&isZRotSymmetric(ap)&&isZRotSymmetric(ad),"averaged-symmetry",T);
                // roots of Phi(X,Y,Z)=E along a line of sight
                coord::Orientation o(c.uni(-3,3),c.uni(0,3),c.uni(-3,3)); double X=L*c.uni(-2,2), Y=L*c.uni(-2,2), Z=L*c.uni(.3,5), Zm,Z1,Z2, E=p.value(o.fromRotated(coord::PosCar(X,Y,Z))); 
                auto F=[&](double z){ return p.value(o.fromRotated(coord::PosCar(X,Y,z))); };
                findRoots(p,E,X,Y,o,Zm,Z1,Z2); if(c.ok(Z1<=Zm&&Zm<=Z2,"roots-order",T+vh::Str().operator<<(Z1).s.str()+" "+D(Zm)+" "+D(Z2))) { double sc=fabs(E); c.close(F(Z1),E,"roots",1e-5,0,T); c.close(F(Z2),E,"roots",1e-5,0,T); c.ok(F(Zm)<=E*(1-1e-9),"roots-min",T); }
                double md=1e100; for(int q=0;q<400;q++) md=fmin(md,F(L*(q-200)*.02)); 
                findRoots(p,md-.05*fabs(md),X,Y,o,Zm,Z1,Z2); c.ok(Z1!=Z1&&Z2!=Z2,"roots-none",T);
            }
            double rad=getRadiusByMass(p,.5*p.totalMass()); c.close(p.enclosedMass(rad),.5*p.totalMass(),"radiusByMass",2e-3,0,T);
        }); }
    c.done(); return 0;
}
