// C19: equilibrium models judged by independent quadratures: DF <-> density (Eddington), phase volume, mass/energy integrals, diffusion
// coefficients from their definitions, samples against their distribution, spherical and axisymmetric Jeans equations.
#include "galaxymodel_spherical.h"
#include "galaxymodel_jeans.h"
#include "df_spherical.h"
#include "potential_analytic.h"
#include "potential_dehnen.h"
#include "potential_utils.h"
#include "potential_composite.h"
#include "math_spline.h"
#include "math_core.h"
#include "vh.h"
#include <algorithm>
#include <functional>
#include <fstream>
#include <memory>
#include <unistd.h>
using vh::Ctx; using vh::Str; typedef std::vector<double> V; typedef long double LD;
using std::shared_ptr;
static const double PI2=M_PI*M_PI;
// one spherical component: Plummer (g<0) or Dehnen with inner slope g
struct Comp { double M,a,g;
    double phi(double r) const { if(g<0) return -M/sqrt(r*r+a*a); double p=2-g, l=r>1e-3*a?log1p(-a/(r+a)):log(r/(r+a)); return -M/a*(-expm1(p*l))/p; }
    double dphi(double r) const { if(g<0) return M*r/pow(r*r+a*a,1.5); return M*pow(r,1-g)*pow(r+a,g-3); }
    double d2phi(double r) const { if(g<0) { double s=r*r+a*a; return M*(s-3*r*r)/pow(s,2.5); } return dphi(r)*((1-g)/r-(3-g)/(r+a)); }
    double rho(double r) const { if(g<0) return .75*M*a*a/M_PI/pow(r*r+a*a,2.5); return (3-g)*M*a/4/M_PI*pow(r,-g)*pow(r+a,g-4); }
    double drho(double r) const { if(g<0) return -5*r/(r*r+a*a)*rho(r); return -rho(r)*(g/r+(4-g)/(r+a)); }
    double d2rho(double r) const { double s=r*r+a*a, q=rho(r); if(g<0) return q*(35*r*r/s/s-5/s); double u=g/r+(4-g)/(r+a); return q*(u*u+g/r/r+(4-g)/(r+a)/(r+a)); }
};
struct Pot1: math::IFunction { std::vector<Comp> c; double Mbh; Pot1(): Mbh(0) {}
    double phi(double r) const { double s=-Mbh/r; if(Mbh==0) s=0; for(auto& k: c) s+=k.phi(r); return s; }
    double dphi(double r) const { double s=Mbh/r/r; for(auto& k: c) s+=k.dphi(r); return s; }
    double dif(double r, double e) const { // Phi(r(1+e)) - Phi(r) >= 0 without cancellation
        if(e>1e-3) return phi(r*(1+e))-phi(r); double h=r*e, m=r+h/2; return (dphi(r)+4*dphi(m)+dphi(r+h))/6*h; }
    void evalDeriv(double r, double* v, double* d, double* d2) const { if(v) { double s=Mbh>0?-Mbh/r:0; for(auto& k: c) s+=k.phi(r); *v=s; } if(d) *d=(r>0||Mbh>0)?dphi(r):c[0].g<=0?0:NAN; if(d2) { double s=-2*Mbh/r/r/r; if(Mbh==0) s=0; for(auto& k: c) s+=k.d2phi(r); *d2=s; } }
    unsigned int numDerivs() const { return 2; }
    double rmax(double E) const { double a=1e-20,b=1e20; for(int i=0;i<200;i++) { double m=sqrt(a*b); (phi(m)<E?a:b)=m; } return sqrt(a*b); }
    double scale() const { double s=1e300; for(auto& k: c) s=std::min(s,k.a); return s; }
};
struct Den1: math::IFunction { Comp k; Den1(Comp q): k(q) {} void evalDeriv(double r, double* v, double* d, double* d2) const { if(v) *v=k.rho(r); if(d) *d=k.drho(r); if(d2) *d2=k.d2rho(r); } unsigned int numDerivs() const { return 2; } };
// synthetic DF of phase volume: broken power law
struct SynDF: math::IFunction { double N,h0,a,b; void evalDeriv(double h, double* v, double* d, double* d2) const { double x=h/h0, f=N*pow(x,-a)*pow(1+x,a-b); if(v) *v=f; if(d) *d=-f/h*(a+(b-a)*x/(1+x)); if(d2) *d2=NAN; } unsigned int numDerivs() const { return 1; } };
template<class F> static double trap(F f, double a, double b, double h) { LD s=0; long n=lround((b-a)/h); for(long i=0;i<=n;i++) { double v=f(a+i*h); if(std::isfinite(v)) s+=(i==0||i==n?.5L:1.L)*v; } return s*h; }
// integral over [0,1] with endpoint singularities; f(x, 1-x)
template<class F> static double tanhsinh(F f, double h=1./24) { LD s=0; for(double t=-3.6;t<=3.6+h/2;t+=h) { double u=M_PI/2*sinh(t), x=1/(1+exp(-2*u)), y=1/(1+exp(2*u)), w=M_PI*cosh(t)*x*y; double v=f(x,y); if(std::isfinite(v)) s+=w*v; } return s*h; }
// d^2 rho / dPhi^2 >= 0 everywhere is sufficient for a positive isotropic DF
static bool positive(const Pot1& P, const Comp& D) { for(double l=-14;l<14;l+=.05) { double r=D.a*exp(l), v,d,d2; P.evalDeriv(r,&v,&d,&d2); double t=D.d2rho(r)*d-D.drho(r)*d2; if(!(t>0)) return false; } return true; }
static Comp rcomp(Ctx& c, double gmax=1.8) { Comp k; k.M=c.logu(.1,10); k.a=c.logu(.2,5); int t=c.irand(0,4); k.g=t==0?-1:t==1?1:t==2?0:c.uni(0,gmax); return k; }
static Pot1 rpot(Ctx& c, bool bh) { Pot1 p; p.c.push_back(rcomp(c)); if(c.coin(.4)) p.c.push_back(rcomp(c)); if(bh) p.Mbh=c.logu(1e-3,.3)*p.c[0].M; return p; }
// own phase volume and density of states at the energy Phi(r)
static double hOf(const Pot1& P, double r) { return 16*PI2/3*r*r*r*tanhsinh([&](double x, double y){ double rr=r*x, v2=2*(x>.5?P.dif(rr,y/x):P.phi(r)-P.phi(rr)); return x*x*pow(v2,1.5); }); }
static double gOf(const Pot1& P, double r) { return 16*PI2*r*r*r*tanhsinh([&](double x, double y){ double rr=r*x, v2=2*(x>.5?P.dif(rr,y/x):P.phi(r)-P.phi(rr)); return x*x*sqrt(v2); }); }
// int_{Phi(r)}^0 dE F(r_E, E-Phi)   over E=Phi(r'),  r'=r(1+e^w)
template<class F> static double overE(const Pot1& P, double r, F f, double rhi=0) { auto q=[&](double w){ double e=exp(w), rr=r*(1+e); return f(rr,P.dif(r,e))*P.dphi(rr)*r*e; }; if(rhi>0) { double X=rhi/r-1; return tanhsinh([&](double x,double y){ (void)y; double e=X*x, rr=r*(1+e); return f(rr,P.dif(r,e))*P.dphi(rr)*r*X; }); } return trap(q,-36,40,.05); }
static std::string desc(const Pot1& P) { Str s; for(auto& k: P.c) s<<"(M="<<k.M<<" a="<<k.a<<" g="<<k.g<<")"; s<<" Mbh="<<P.Mbh; return s; }
static double ks(V x, std::function<double(double)> cdf) { std::sort(x.begin(),x.end()); double d=0; int n=x.size(); for(int i=0;i<n;i++) { double F=cdf(x[i]); d=std::max(d,std::max(F-double(i)/n,double(i+1)/n-F)); } return d*sqrt(n); }
static void phasevol(Ctx& c) {
    for(long it=0; it<c.n(200,2000); it++) { Pot1 P=rpot(c,c.coin(.4)); vh::run(c,"phasevol",desc(P),[&]{
        potential::PhaseVolume pv(P); double s=P.scale(), hp=0, Phi0=P.Mbh>0?-INFINITY:P.phi(1e-30);
        for(int k=0;k<12;k++) { double r=s*pow(10,-3.5+k*.75+c.uni(0,.5)), E=P.phi(r); if(P.Mbh==0 && r<s*1e-2 && (E-Phi0)<1e-5*fabs(Phi0)) continue; double h,g,h0=hOf(P,r),g0=gOf(P,r); pv.evalDeriv(E,&h,&g); double cond=3e-13*fabs(E)/std::max(1e-300,P.Mbh>0?fabs(E):E-Phi0);
            c.close(h,h0,"pv:h",(P.Mbh>0?1e-4:2e-5)+cond,0); c.close(g,g0,"pv:g",(P.Mbh>0?4e-4:1e-4)+cond,0); c.ok(h>hp,"pv:monotonic"); hp=h; double g2,dg,Eb=pv.E(h,&g2,&dg); c.close(Eb,E,"pv:inverse",P.Mbh>0?1e-6:2e-7); c.close(g2,g,"pv:g-of-h",1e-4+cond);
            double d=1e-3*h,ga,gb; pv.E(h-d,&ga); pv.E(h+d,&gb); c.close((gb-ga)/2/d,dg,"pv:dgdh",3e-3,1e-6*g/h); double l1=log(h),l2=l1+c.logu(1e-6,2)*(c.coin()?1:-1),g1,dE=pv.deltaE(l1,l2,&g1); c.close(dE,pv.E(exp(l1))-pv.E(exp(l2)),"pv:deltaE",1e-6,1e-10*fabs(E)); c.close(g1,g,"pv:deltaE-g",1e-4+cond); c.ok((l1-l2)*dE>0,"pv:deltaE-sign"); }
        double h; pv.evalDeriv(0,&h); c.ok(h==INFINITY,"pv:E=0"); pv.evalDeriv(1,&h); c.ok(h==INFINITY,"pv:E>0"); if(P.Mbh==0) { pv.evalDeriv(Phi0*1.1,&h); c.ok(h==0,"pv:E<Phi0"); } c.ok(pv.E(INFINITY)==0,"pv:E(inf)"); { double q=0; for(auto& k: P.c) q-=k.g<0?k.M/k.a:k.M/k.a/(2-k.g); if(P.Mbh==0) c.close(pv.E(0),q,"pv:E(0)",1e-10); else c.ok(pv.E(0)==-INFINITY,"pv:E(0)"); }; });
    }
}
static void iso(Ctx& c) {
    for(long it=0; it<c.n(120,1200); it++) { Pot1 P=rpot(c,c.coin(.35)); bool syn=c.coin(.4); Comp D=P.c[0]; if(!syn && c.coin(.4)) { for(int k=0;k<20;k++) { D=rcomp(c,1.5); if(positive(P,D)) break; } }
        double ga=P.Mbh>0?1:std::max(0.,P.c[0].g-2); if(P.Mbh>0 && D.g<.6) D.g=c.uni(.6,1.7); (void)ga;
        SynDF S; S.N=c.logu(.01,10); S.a=c.uni(-.5,P.Mbh>0?.1:.6); S.b=c.uni(1.4,3); double m=c.logu(.01,1), rs=P.scale();
        vh::run(c,syn?"iso:synthetic":"iso:eddington",Str()<<desc(P)<<" D: M="<<D.M<<" a="<<D.a<<" g="<<D.g<<" syn a="<<S.a<<" b="<<S.b,[&]{
            if(!syn && !positive(P,D)) { c.event("DF not positive"); throw vh::Skip(); } potential::PhaseVolume pv(P); Den1 dens(D); double sc=syn?rs:D.a; shared_ptr<math::IFunction> f; double h0; pv.evalDeriv(P.phi(sc),&h0); S.h0=h0*1.;
            if(syn) f.reset(new SynDF(S)); else f.reset(new math::LogLogSpline(df::createSphericalIsotropicDF(dens,P)));
            auto F=[&](double rE){ double h; pv.evalDeriv(P.phi(rE),&h); return h<1e300?f->value(h):0.; };
            V gr, gphi; for(int k=0;k<9;k++) { gr.push_back(sc*pow(10,-2+k*.5)); gphi.push_back(P.phi(gr.back())); }
            V vd, rho=galaxymodel::computeDensity(*f,pv,gphi,&vd);
            V tr, tv; for(double r: gr) { double d=overE(P,r,[&](double rE,double K){ return 4*M_PI*sqrt(2*K)*F(rE); }), p=overE(P,r,[&](double rE,double K){ return 4*M_PI*pow(2*K,1.5)*F(rE); })/3; tr.push_back(d); tv.push_back(sqrt(p/d)); }
            // Eddington inversion reproduces the density it was built from (when the DF is everywhere positive)
            bool pos=true; if(!syn) { V gh,gf; df::createSphericalIsotropicDF(dens,P,gh,gf); for(double v: gf) pos=pos&&v>0; for(size_t i=1;i<gh.size();i++) pos=pos&&gh[i]>gh[i-1]; c.ok(pos,"edd:grid");
                for(size_t i=0;i<gr.size();i++) c.close(tr[i],dens.value(gr[i]),"edd:density",2e-3);
                // and the dispersion is the one demanded by the isotropic Jeans equation
                for(size_t i=0;i<gr.size();i++) { double r=gr[i], q=overE(P,r,[&](double rE,double){ return D.rho(rE); }); c.close(tv[i],sqrt(q/D.rho(r)),"edd:jeans",2e-3); } }
            for(size_t i=0;i<gr.size();i++) { c.close(rho[i],tr[i],"dens:computeDensity",2e-3); c.close(vd[i],tv[i],"dens:veldisp",2e-3); }
            SynDF S2=S; S2.N*=.3; S2.a=S.a+.1; shared_ptr<math::IFunction> G; bool two=syn&&c.coin(); if(two) G.reset(new SynDF(S2)); else G=f; auto FG=[&](double rE){ double h; pv.evalDeriv(P.phi(rE),&h); return h<1e300?G->value(h):0.; };
            galaxymodel::SphericalIsotropicModelLocal mod(pv,*f,*G,syn||D.a!=P.c[0].a?math::createExpGrid(161,h0*1e-12,h0*1e12):V());
            // totals
            double M=trap([&](double l){ double h=exp(l); return f->value(h)*h; },log(h0)-140,log(h0)+140,.02); c.close(mod.totalMass,M,"tot:mass",1e-4); if(!syn) c.close(M,D.M,"tot:mass-true",1e-3);
            double En=trap([&](double l){ double h=exp(l); return f->value(h)*h*pv.E(h); },log(h0)-120,log(h0)+120,.02), Kn=trap([&](double l){ double h=exp(l),g; pv.E(h,&g); return 1.5*f->value(h)*h*h/g; },log(h0)-120,log(h0)+120,.02);
            c.close(mod.totalEnergy,En,"tot:energy",P.Mbh>0?4e-2:2e-3); c.close(mod.totalEkin,Kn,"tot:ekin",P.Mbh>0?2e-2:2e-3);
            if(!syn) { double W=trap([&](double l){ double r=exp(l); return 4*M_PI*r*r*r*D.rho(r)*r*P.dphi(r); },log(sc)-30,log(sc)+40,.02); c.close(2*mod.totalEkin,W,"tot:virial",2e-3); }
            for(int k=0;k<10;k++) { double r=sc*c.logu(1e-2,1e2), E=P.phi(r), h,g; pv.evalDeriv(E,&h,&g);
                double I0=trap([&](double l){ double hh=h*exp(l),gg; pv.E(hh,&gg); return G->value(hh)*hh/gg; },0,120,.01), Kg=trap([&](double l){ double hh=h*exp(l); return f->value(hh)*hh; },-140,0,.01), Kh=trap([&](double l){ double hh=h*exp(l),gg; pv.E(hh,&gg); return G->value(hh)*hh*hh/gg; },-100,0,.01);
                c.close(mod.I0(h),I0,"int:I0",3e-3); c.close(mod.Kg(h),Kg,"int:Kg",3e-3); c.close(mod.Kh(h),Kh,"int:Kh",P.Mbh>0?1.5e-2:3e-3);
                double a1,a2; galaxymodel::difCoefEnergy(mod,E,m,a1,a2); c.close(a1,16*PI2*(I0-m*Kg/g),"dif:drift",0,2e-3*16*PI2*(I0+m*Kg/g)); c.close(a2,32*PI2*(I0*h+Kh)/g,"dif:energy2",P.Mbh>0?1.5e-2:4e-3);
            }
            for(size_t i=0;i<gr.size();i++) { if(two) break; c.close(mod.density(gphi[i]),tr[i],"local:density",3e-3); c.close(mod.velDisp(gphi[i]),tv[i],"local:veldisp",3e-3); }
            for(int k=0;k<8;k++) { double r=sc*c.logu(1e-2,30), Phi=P.phi(r), a,b,d; bool unb=c.coin(.2); double q=c.logu(1e-3,1e2), rE=r*(1+q), E=unb?-Phi*c.uni(0,2):P.phi(rE), v=sqrt(2*(unb?E-Phi:P.dif(r,q)));
                auto J=[&](bool w,int n){ return overE(P,r,[&](double x,double K){ return (w?FG(x):F(x))*pow(sqrt(2*K)/v,n); },unb?0:rE); };
                double j1=J(false,1), J1=J(true,1), J3=J(true,3), I0=unb?0:trap([&](double w){ double x=rE*exp(w); return FG(x)*P.dphi(x)*x; },0,60,.02);
                mod.evalLocal(Phi,E,m,a,b,d); double ex=16*PI2*(m*j1+J1); c.close(a,-ex,"local:dvpar",1e-2); c.close(b,32*PI2/3*(I0+J3),"local:dv2par",1e-2); c.close(d,32*PI2/3*(2*I0+3*J1-J3),"local:dv2per",1e-2); }
            // loss-cone coefficient: D = 8 pi^2/g int dr <dv_perp^2> r^2/v
            if(!syn && it%2==0) { struct W: potential::BasePotentialSphericallySymmetric { const Pot1& p; W(const Pot1& q): p(q) {} std::string name() const { return "W"; } void evalDeriv(double r,double* a,double* b,double* d) const { p.evalDeriv(r,a,b,d); } double enclosedMass(double r) const { return r*r*p.dphi(r); } } wp(P);
                double r0=sc*c.logu(.05,20), E=P.phi(r0), g; pv.evalDeriv(E,NULL,&g); double I0=trap([&](double w){ double x=r0*exp(w); return FG(x)*P.dphi(x)*x; },0,60,.02);
                double ref=8*PI2/g*r0*tanhsinh([&](double x,double y){ double r=r0*x, q=y/x; if(q<1e-13||x<1e-12) return 0.; double v=sqrt(2*P.dif(r,q)); double J1=overE(P,r,[&](double z,double K){ return FG(z)*sqrt(2*K)/v; },r0), J3=overE(P,r,[&](double z,double K){ return FG(z)*pow(sqrt(2*K)/v,3); },r0); return 32*PI2/3*(2*I0+3*J1-J3)*r*r/v; },1./8);
                c.close(galaxymodel::difCoefLosscone(mod,wp,E),ref,"dif:losscone",P.Mbh>0?.3:3e-2); }
            // projection
            if(!syn) { struct FV: math::IFunctionNoDeriv { std::function<double(double)> q; double value(double r) const { return q(r); } } fd,fv; math::LogLogSpline js=galaxymodel::createJeansSphModel(dens,P,0); fd.q=[&](double r){ return D.rho(r); }; fv.q=[&](double r){ return js.value(r); }; V R(gr.begin(),gr.end()),Sg,vp; galaxymodel::computeProjectedDensity(fd,fv,R,Sg,vp);
                for(size_t i=0;i<R.size();i++) { double s=trap([&](double w){ double z=R[i]*exp(w), r=sqrt(R[i]*R[i]+z*z); return 2*z*D.rho(r); },-40,40,.05), q=trap([&](double w){ double z=R[i]*exp(w), r=sqrt(R[i]*R[i]+z*z); double sg=js.value(r); return 2*z*D.rho(r)*sg*sg; },-40,40,.05); if(i>1&&i+1<R.size()) { c.close(Sg[i],s,"proj:density",2e-2); c.close(vp[i],sqrt(q/s),"proj:veldisp",2e-2); } } }
            // samples
            if(it%3==0 && !two) { int n=c.thorough?20000:3000; for(int k=0;k<2;k++) { double r=sc*c.logu(.03,10), Phi=P.phi(r); V x; for(int i=0;i<n;i++) { double v=mod.sampleVelocity(Phi); c.ok(v>=0 && v*v<=-2*Phi*(1+1e-9),"sample:escape"); x.push_back(v); }
                    // cumulative distribution tabulated at the quantiles
                    V w,cu; double s=0,pr=0; V ww,ff; for(double t=-24;t<=30;t+=.02) { double e=exp(t), rr=r*(1+e), K=P.dif(r,e); ww.push_back(sqrt(2*K)); ff.push_back(F(rr)*sqrt(2*K)*P.dphi(rr)*r*e); } cu.push_back(0); for(size_t i=1;i<ww.size();i++) { s+=.5*(ff[i]+ff[i-1]); cu.push_back(s); } (void)pr;
                    double d=ks(x,[&](double v){ size_t i=std::lower_bound(ww.begin(),ww.end(),v)-ww.begin(); if(i==0) return 0.; if(i>=ww.size()) return 1.; return (cu[i-1]+(cu[i]-cu[i-1])*(v-ww[i-1])/(ww[i]-ww[i-1]))/s; }); c.ok(d<3.2,"sample:velocity",Str()<<"KS "<<d); }
                particles::ParticleArraySph ps=galaxymodel::samplePosVel(P,*f,n); c.ok((int)ps.size()==n,"sample:number"); V E,mu; double ms=0; for(int i=0;i<(int)ps.size();i++) { coord::PosVelSph p=ps.point(i); ms+=ps.mass(i); double v2=p.vr*p.vr+p.vtheta*p.vtheta+p.vphi*p.vphi, h; pv.evalDeriv(P.phi(p.r)+.5*v2,&h); E.push_back(log(h)); if(v2>0) { mu.push_back(p.vr/sqrt(v2)); } }
                c.close(ms,M,"sample:mass",6e-3); double d=ks(E,[&](double l){ double K=mod.Kg.value(exp(l)); return std::min(1.,std::max(0.,K/M)); }); c.ok(d<3.2,"sample:df",Str()<<"KS "<<d); d=ks(mu,[](double u){ return (u+1)/2; }); c.ok(d<3.2,"sample:isotropy",Str()<<"KS "<<d);
                V hv,ma; for(double e: E) { hv.push_back(exp(e)); ma.push_back(M/n); } math::LogLogSpline fit=df::fitSphericalIsotropicDF(hv,ma,20); double fm=trap([&](double l){ double h=exp(l); return fit.value(h)*h; },log(h0)-60,log(h0)+60,.05); c.close(fm,M,"fit:mass",.05); V q=hv; std::sort(q.begin(),q.end()); for(double t: {.2,.5,.8}) { double h=q[int(t*n)]; c.close(fit.value(h),f->value(h),"fit:df",.25); } }
        });
    }
}
static void table(Ctx& c) {
    for(long it=0; it<c.n(30,300); it++) { Pot1 P; Comp D=rcomp(c,1.5); P.c.push_back(D); if(c.coin(.4)) P.c.push_back(rcomp(c,1.)); bool bh=c.coin(.4); if(bh) { P.Mbh=.05*D.M; if(D.g<.6) { D.g=1; P.c[0]=D; } }
        vh::run(c,"table",desc(P),[&]{ if(!positive(P,D)) { c.event("DF not positive"); throw vh::Skip(); } struct W: potential::BasePotentialSphericallySymmetric { const Pot1& p; W(const Pot1& q): p(q) {} std::string name() const { return "W"; } void evalDeriv(double r,double* a,double* b,double* d) const { p.evalDeriv(r,a,b,d); } double enclosedMass(double r) const { return r*r*p.dphi(r); } } wp(P);
            Den1 dens(D); math::LogLogSpline f=df::createSphericalIsotropicDF(dens,P); const char* sd=getenv("VERIF_SCRATCH"); std::string fn=std::string(sd?sd:"/tmp")+"/c19_"+std::to_string(getpid())+".txt"; bool given=c.coin(.3); V gh,aux; potential::PhaseVolume pv(P); if(given) { double h0; pv.evalDeriv(P.phi(D.a),&h0); gh=math::createExpGrid(40,h0*1e-9,h0*1e5); for(size_t i=0;i<gh.size();i++) aux.push_back(i+.5); } galaxymodel::writeSphericalIsotropicModel(fn,"hdr",f,wp,gh,aux);
            std::ifstream s(fn.c_str()); std::string l; int rows=0; double pr=0; std::getline(s,l); c.ok(l=="#hdr","table:header"); while(std::getline(s,l)) { if(l.empty()||l[0]=='#') continue; std::istringstream q(l); V x; double v; while(q>>v) x.push_back(v); if(!c.ok(x.size()==16u+bh+given,"table:columns",Str()<<x.size())) break; rows++; double r=x[0]; if(!c.ok(r>pr,"table:monotonic")) break; pr=r; if(r<D.a*2e-2||r>D.a*1e3) continue;
                c.close(x[2],P.phi(r),"table:Phi",1e-8); double Dm=D.g<0?D.M*pow(r,3)/pow(r*r+D.a*D.a,1.5):D.M*pow(r/(r+D.a),3-D.g); c.close(x[1],Dm,"table:mass",1.5e-2); c.close(x[3],D.rho(r),"table:rho",5e-3); double h=hOf(P,r), g=gOf(P,r); c.close(x[6],h,"table:h",1e-4); c.close(x[4],f.value(x[6]),"table:f",1e-8); double vc=0; { double a=1e-12*r,b=r; for(int i=0;i<200;i++) { double m=sqrt(a*b); (P.phi(m)+.5*m*P.dphi(m)<P.phi(r)?a:b)=m; } vc=a; } c.close(x[8],vc,"table:rcirc",1e-6); double L=vc*sqrt(vc*P.dphi(vc)); c.close(x[9],L,"table:Lcirc",1e-5); c.close(x[7],g/4/PI2/L/L,"table:Trad",3e-4);
                double q2=overE(P,r,[&](double rE,double){ return D.rho(rE); }); c.close(x[10],sqrt(q2/D.rho(r)),"table:veldisp",5e-3); double sg=trap([&](double w){ double z=r*exp(w); return 2*z*D.rho(sqrt(r*r+z*z)); },-40,40,.05); if(r<D.a*100) c.close(x[12],sg,"table:surfdens",3e-2); double Kg=trap([&](double u){ double hh=x[6]*exp(u); return f.value(hh)*hh; },-140,0,.02); c.close(x[5],Kg,"table:M(E)",4e-2); if(given) c.close(x.back(),std::lower_bound(gh.begin(),gh.end(),x[6]*(1-1e-4))-gh.begin()+.5,"table:aux",0,1e-9); }
            c.ok(rows>=10,"table:rows",Str()<<rows); ::unlink(fn.c_str()); });
    }
}
static void jeans(Ctx& c) {
    for(long it=0; it<c.n(200,2000); it++) { Pot1 P=rpot(c,c.coin(.3)); bool own=c.coin(); Comp D=own?P.c[0]:rcomp(c,1.6); own=own&&P.c.size()==1&&P.Mbh==0; double b=c.coin(.3)?0:c.uni(-1.5,.9); vh::run(c,"jeans-sph",Str()<<desc(P)<<" D: "<<D.M<<" "<<D.a<<" "<<D.g<<" beta="<<b,[&]{ Den1 dens(D); math::LogLogSpline s=galaxymodel::createJeansSphModel(dens,P,b);
        for(int k=0;k<8;k++) { double r=D.a*c.logu(3e-3,1e2), q=trap([&](double w){ double e=exp(w), x=r*(1+e); return pow(1+e,2*b)*D.rho(x)*P.dphi(x)*r*e; },-36,30,.05), sg=sqrt(q/D.rho(r)); if(sg<sqrt(-2*P.phi(r))) c.close(s.value(r),sg,"jeans:sigma",own?1.5e-2:3e-2); else { c.ok(s.value(r)<=sqrt(-2*P.phi(r))*1.05,"jeans:escape"); c.event("dispersion above the escape speed"); } } });
    }
    vh::run(c,"jeans-invalid","",[&]{ Pot1 P; P.c.push_back(Comp{1,1,1}); Den1 d(P.c[0]); bool t=false; try { galaxymodel::createJeansSphModel(d,P,1.2); } catch(std::exception&) { t=true; } c.ok(t,"jeans:beta-range"); potential::Plummer p(1,1); t=false; try { galaxymodel::JeansAxi(p,p,1.,0); } catch(std::exception&) { t=true; } c.ok(t,"jeansaxi:beta-range"); });
}
static void jeansaxi(Ctx& c) {
    for(long it=0; it<c.n(20,200); it++) { double M=c.logu(.1,10), L=c.logu(.1,10); int kd=c.irand(0,2), kp=c.irand(0,3); double ba=c.logu(.2,2); double bm=c.coin(.3)?0:c.uni(-.8,.5), kap=c.coin(.3)?0:c.uni(-1,1), g=c.uni(0,1.2), a2=c.logu(.5,3);
        vh::run(c,"jeans-axi",Str()<<"M="<<M<<" L="<<L<<" dens="<<kd<<" pot="<<kp<<" b="<<ba<<" beta="<<bm<<" kappa="<<kap<<" g="<<g<<" a2="<<a2,[&]{
            auto mk=[&](int k,double s)->potential::PtrPotential { if(k==0) return potential::PtrPotential(new potential::MiyamotoNagai(M,L*s,L*s*ba)); if(k==1) return potential::PtrPotential(new potential::Plummer(M,L*s)); if(k==2) return potential::PtrPotential(new potential::Dehnen(M,L*s,g)); std::vector<potential::PtrPotential> v; v.push_back(potential::PtrPotential(new potential::MiyamotoNagai(M,L*s,L*s*ba))); v.push_back(potential::PtrPotential(new potential::Plummer(2*M,3*L*s))); return potential::PtrPotential(new potential::Composite(v)); };
            potential::PtrPotential d=mk(kd,1), p=kp==kd?d:mk(kp,a2); galaxymodel::JeansAxi J(*d,*p,bm,kap), K(*d,*p,bm,-kap), Z(*d,*p,bm,0), U(*d,*p,bm,1); double bc=1/(1-bm);
            auto pz=[&](double R,double z){ LD s=0; double q=hypot(R,L); s=trap([&](double w){ double e=exp(w), x=z+q*e; coord::GradCyl gr; p->eval(coord::PosCyl(R,x,0),NULL,&gr); return d->density(coord::PosCyl(R,x,0))*gr.dz*q*e; },-30,25,.1); return (double)s; };
            for(int k=0;k<8;k++) { double R=L*c.logu(.15,8), z=L*c.logu(.1,5)*(c.coin()?1:-1), az=fabs(z); coord::PosCyl x(R,z,c.uni(0,6)); coord::VelCyl v,w,u,mx; coord::Vel2Cyl s,t,q; J.moments(x,v,s); K.moments(x,w,t); Z.moments(coord::PosCyl(R,-z,0),u,q); U.moments(x,mx,t);
                double rho=d->density(x), P0=pz(R,az), h=.02*R, dP=(pz(R+h,az)-pz(R-h,az))/2/h, Phi; coord::GradCyl gr; p->eval(x,&Phi,&gr); double vz2=std::min(P0/rho,-Phi), vp2=bc*(R*dP+P0)/rho+R*gr.dR;
                bool clip=vp2<.02*R*gr.dR || vp2>-Phi*.98 || P0/rho>-Phi*.98; c.close(s.vz2,vz2,"axi:vz2",.07); c.close(s.vR2,bc*s.vz2,"axi:vR2",1e-12); if(clip) c.event("clipped"); else c.close(s.vphi2,vp2,"axi:vphi2",.06,.06*(bc*(R*fabs(dP)+P0)/rho+R*gr.dR));
                c.ok(s.vRvz==0&&s.vRvphi==0&&s.vzvphi==0&&v.vR==0&&v.vz==0,"axi:aligned"); c.ok(s.vphi2>=0&&s.vz2>=0&&s.vphi2<=-Phi*1.0*(1+.1),"axi:range"); c.ok(v.vphi==-w.vphi||fabs(v.vphi+w.vphi)<1e-12*fabs(v.vphi),"axi:kappa-odd"); c.ok(u.vphi==0,"axi:kappa0"); c.close(q.vphi2,s.vphi2,"axi:z-symmetry",1e-12); c.close(q.vz2,s.vz2,"axi:z-symmetry2",1e-12); c.close(v.vphi,kap*mx.vphi,"axi:kappa-linear",1e-12); c.ok(v.vphi*v.vphi<=s.vphi2*(1+1e-12),"axi:vphi-bound");
                // full streaming leaves sigma_phi = kappa/(2 Omega) sigma_R
                coord::GradCyl g0; coord::HessCyl h0; p->eval(coord::PosCyl(R,0,0),NULL,&g0,&h0); double ep=.75+.25*R*h0.dR2/g0.dR; c.close(mx.vphi*mx.vphi,std::max(0.,s.vphi2-ep*s.vR2),"axi:epicycle",1e-2,1e-2*s.vR2); }
        });
    }
}
int main(int argc, char** argv) { Ctx c(argc,argv); if(c.has("phasevol")) phasevol(c); if(c.has("iso")) iso(c); if(c.has("table")) table(c); if(c.has("jeans")) jeans(c); if(c.has("jeansaxi")) jeansaxi(c); c.done(); return 0; }
