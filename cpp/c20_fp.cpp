// C20: Fokker-Planck evolution judged by budgets and by the equation itself, with coefficients from independent quadratures
#include "galaxymodel_fokkerplanck.h"
#include "galaxymodel_spherical.h"
#include "potential_utils.h"
#include "math_core.h"
#include "math_spline.h"
#include "vh.h"
#include <algorithm>
#include <functional>
#include <memory>
#include <map>
#include <ctime>
using vh::Ctx; using vh::Str; typedef std::vector<double> V; using namespace galaxymodel;
struct Comp { double M,a,g; double rho(double r) const { if(g<0) return .75*M*a*a/M_PI/pow(r*r+a*a,2.5); return (3-g)*M*a/4/M_PI*pow(r,-g)*pow(r+a,g-4); }
    double drho(double r) const { if(g<0) return -5*r/(r*r+a*a)*rho(r); return -rho(r)*(g/r+(4-g)/(r+a)); }
    double d2rho(double r) const { double s=r*r+a*a, q=rho(r); if(g<0) return q*(35*r*r/s/s-5/s); double u=g/r+(4-g)/(r+a); return q*(u*u+g/r/r+(4-g)/(r+a)/(r+a)); }
    double Menc(double r) const { if(g<0) return M*pow(r*r/(r*r+a*a),1.5); return M*pow(r/(r+a),3-g); }
    double W() const { return g<0 ? -3*M_PI/32*M*M/a : -M*M/a/2/(5-2*g); } };
struct Den1: math::IFunction { Comp k; Den1(Comp q): k(q) {} void evalDeriv(double r, double* v, double* d, double* d2) const { if(v) *v=k.rho(r); if(d) *d=k.drho(r); if(d2) *d2=k.d2rho(r); } unsigned int numDerivs() const { return 2; } };
static const char* MN[]={"CC","FEM1","FEM2","FEM3"};
struct Setup { FokkerPlanckParams p; std::vector<Comp> k; std::vector<FokkerPlanckComponent> c;
    void fix() { for(size_t i=0;i<c.size();i++) c[i].initDensity.reset(new Den1(k[i])); }
    std::string str() const { Str s; s<<MN[p.method]<<" n="<<(long)p.gridSize<<" lnL="<<p.coulombLog<<" Mbh="<<p.Mbh<<" self="<<p.selfGravity<<" upd="<<p.updatePotential<<" drain="<<p.lossConeDrain; for(size_t i=0;i<c.size();i++) s<<" (M="<<k[i].M<<" a="<<k[i].a<<" g="<<k[i].g<<" m="<<c[i].Mstar<<" rc="<<c[i].captureRadius<<" fr="<<c[i].captureMassFraction<<" src="<<c[i].sourceRate<<" rs="<<c[i].sourceRadius<<")"; return s; } };
static Setup setup(Ctx& c, int method, int ncomp, bool bh) {
    Setup s; s.p.method=FokkerPlanckMethod(method); s.p.gridSize=c.irand(bh?150:100,220); s.p.coulombLog=c.uni(5,15); double M=c.logu(.1,10), a=c.logu(.2,5), g=bh? c.uni(.7,1.4) : c.coin(.4)?-1:c.uni(.3,.9);
    if(bh) s.p.Mbh=M*c.logu(5e-3,.2); double m=c.logu(1e-6,1e-2);
    { double h0=pow(M*a,1.5); s.p.hmin=h0*c.logu(1e-9,1e-5)*(bh?100:1); s.p.hmax=h0*c.logu(1e8,1e10); }
    for(int i=0;i<ncomp;i++) { Comp k; k.M=i?M*c.logu(.01,.5):M; k.a=a; k.g=g; FokkerPlanckComponent q; q.Mstar=m*(i?c.uni(3,15):1); s.k.push_back(k); s.c.push_back(q); } s.fix(); return s; }
// errors collected over all cases; the median of each subset (by discretisation, number of species, black hole) is judged
struct Stats { std::map<std::string,V> m; const Setup* S; Stats(): S(0) {} void add(const std::string& k, double e) { if(!std::isfinite(e)) e=1e9; e=fabs(e); m[k+"|"+MN[S->p.method]].push_back(e); m[k+"|nc="+char('0'+S->c.size())].push_back(e); m[k+(S->p.Mbh>0?"|bh":"|nobh")].push_back(e); }
    void rel(const std::string& k, double a, double b) { add(k,(a-b)/(b!=0?b:1)); }
    void judge(Ctx& c, const std::map<std::string,double>& tol) { for(auto& q: m) { std::string key=q.first.substr(0,q.first.find('|')); vh::run(c,"statistics",q.first,[&]{ V& v=q.second; if(v.size()<6) throw vh::Skip(); std::sort(v.begin(),v.end()); double med=v[v.size()/2]; if(getenv("C20V")) fprintf(stderr,"STAT %s n=%d med=%.2e p80=%.2e\n",q.first.c_str(),(int)v.size(),med,v[v.size()*4/5]); auto t=tol.find(key); c.ok(t!=tol.end(),"statistics:tolerance",key); if(t!=tol.end()) c.ok(med<t->second,"median:"+q.first,Str()<<med<<" exceeds "<<t->second<<" in "<<(long)v.size()<<" cases"); }); } } };
// a case that breaks down numerically is counted; too many of them are a violation
struct Down { long n, bad; Down(): n(0), bad(0) {} void judge(Ctx& c, const char* g) { vh::run(c,"breakdown",g,[&]{ c.ok(bad<=.3*n+1,Str()<<g<<":breakdown",Str()<<bad<<" of "<<n<<" evolutions failed"); }); } };
typedef std::unique_ptr<FokkerPlanckSolver> P; static P make(const Setup& s) { return P(new FokkerPlanckSolver(s.p,s.c)); }
// cumulative integrals on a fine logarithmic grid
struct Tab { V l,h,f,df,F,E,g,Kg,Kh,I0; };
static double cum(const math::IFunction& f, const V& gh, int nsub, V& out) { double s=0; out.assign(1,0); for(size_t i=1;i<gh.size();i++) { double a=log(gh[i-1]), b=log(gh[i]), d=(b-a)/nsub; for(int k=0;k<nsub;k++) { double x=a+k*d; auto q=[&](double t){ return f.value(exp(t))*exp(t); }; s+=d/6*(q(x)+4*q(x+d/2)+q(x+d)); } out.push_back(s); } return s; }
static double hhalf(const FokkerPlanckSolver& s, int c) { V gh=s.gridh(), q; double T=cum(*s.df(c),gh,4,q); for(size_t i=1;i<q.size();i++) if(q[i]>.5*T) return gh[i-1]*pow(gh[i]/gh[i-1],(.5*T-q[i-1])/(q[i]-q[i-1])); return NAN; }
// the recommended choice of time step (that of the phaseflow program)
struct Step { double eps, dt, worst; Step(const FokkerPlanckSolver& s, double e): eps(e), dt(.01*e*s.relaxationTime()), worst(0) {} double go(FokkerPlanckSolver& s) { double d=s.evolve(dt); worst=std::max(worst,d); dt=eps*sqrt(s.relaxationTime()*dt/d); return d; } };
static double virial(const FokkerPlanckSolver& s) { return -s.Ekin()/s.Etot(); }
// conservation of mass and energy along the evolution
static void conserve(Ctx& c) { Stats st; Down dn;
    for(long it=0; it<c.n(120,800); it++) { bool bh=c.coin(.3); int nc=c.irand(1,2); Setup S=setup(c,it%4,nc,bh); double eps=c.logu(.01,.03); st.S=&S; dn.n++;
        vh::run(c,"conserve",S.str(),[&]{ P s=make(S); V M0; double E0=s->Etot(), W=0, Mt=0; for(int i=0;i<nc;i++) { M0.push_back(s->Mass(i)); c.close(M0[i],S.k[i].M,"init:mass",bh?3e-2:1e-2); st.rel("init:mass",M0[i],S.k[i].M); Mt+=S.k[i].M; }
            Comp t=S.k[0]; t.M=Mt; W=t.W(); if(!bh) { c.close(E0,W/2,"init:energy",2e-2); c.close(s->Ekin(),-W/2,"init:ekin",2e-2); st.rel("init:energy",E0,W/2); st.rel("init:ekin",s->Ekin(),-W/2); double p0=t.g<0?-Mt/t.a:-Mt/t.a/(2-t.g); c.close(s->Phi0(),p0,"init:phi0",5e-2); st.rel("init:phi0",s->Phi0(),p0); } st.add("init:virial",virial(*s)-1);
            double T=s->relaxationTime(); c.ok(T>0&&std::isfinite(T),"init:trel"); double fm=0; for(double h: s->gridh()) { double v=0; for(int i=0;i<nc;i++) v+=s->df(i)->value(h)*S.c[i].Mstar; fm=std::max(fm,v); } st.rel("init:trel",T,.34*pow(2*M_PI,-1.5)/fm);
            double hr0=nc==2?hhalf(*s,1)/hhalf(*s,0):1; int ns=c.n(60,300); Step sp(*s,eps);
            for(int n=0;n<ns;n++) { double d; try { d=sp.go(*s); } catch(std::exception&) { d=1e9; } if(!(d<.5)) { dn.bad++; c.event("evolution broke down"); throw vh::Skip(); } c.ok(d>=0,"step:maxdelta"); }
            for(int i=0;i<nc;i++) { c.close(s->Mass(i),M0[i],"mass:conserved",4e-2); st.rel("mass:conserved",s->Mass(i),M0[i]); V q; double m=cum(*s->df(i),s->gridh(),6,q); st.rel("mass:integral",m,s->Mass(i)); bool pos=true; auto f=s->df(i); for(double h: s->gridh()) pos=pos&&f->value(h)>=0; c.ok(pos,"df:nonnegative"); c.ok(s->drainMass(i)==0&&s->sourceMass(i)==0,"budget:none"); }
            st.add("energy:conserved",(s->Etot()-(bh?s->drainEnergy():0))/E0-1); st.add("energy:virial",virial(*s)-1); c.ok(s->Mbh()==S.p.Mbh,"mbh:fixed");
            if(nc==2) { double hr=hhalf(*s,1)/hhalf(*s,0); c.ok(hr<=hr0*1.01,"segregation",Str()<<hr0<<" -> "<<hr); st.add("segregation:sign",hr<hr0?0:1); }
            // potential is generated by the density of the DF
            auto pv=s->phaseVolume(); auto pot=s->potential(); V r,ph; for(int k=0;k<7;k++) { r.push_back(t.a*pow(10,-1.+.3*k)); ph.push_back(pot->value(r[k])); } struct Sm: math::IFunctionNoDeriv { std::vector<math::PtrFunction> f; double value(double h) const { double v=0; for(auto& q: f) v+=q->value(h); return v; } } sum; for(int i=0;i<nc;i++) sum.f.push_back(s->df(i));
            V rho=computeDensity(sum,*pv,ph); for(int k=0;k<7;k++) { double e=.02, a1,a2,rr=r[k]; pot->evalDeriv(rr*exp(e),NULL,&a1); pot->evalDeriv(rr*exp(-e),NULL,&a2); double R1=rr*exp(e),R2=rr*exp(-e), q=(a1*R1*R1-a2*R2*R2)/(4*M_PI/3*(R1*R1*R1-R2*R2*R2)); st.rel("poisson",q,rho[k]); }
        }); }
    st.judge(c,{{"init:mass",4e-3},{"init:energy",3e-3},{"init:ekin",3e-3},{"init:phi0",1e-2},{"init:virial",3e-3},{"init:trel",.1},{"mass:conserved",1e-3},{"mass:integral",1e-2},{"energy:conserved",1e-2},{"energy:virial",3e-3},{"segregation:sign",.5},{"poisson",1e-2}}); dn.judge(c,"conserve");
}
// one small step against the equation itself
static void equation(Ctx& c) { Stats st; Down dn;
    for(long it=0; it<c.n(80,600); it++) { bool bh=c.coin(.3); int nc=c.irand(1,2); Setup S=setup(c,it%4,nc,bh); S.p.gridSize=c.irand(150,250); S.p.updatePotential=c.coin(); st.S=&S; dn.n++;
        vh::run(c,"equation",S.str(),[&]{ P s=make(S); V gh=s->gridh(); auto pv=s->phaseVolume(); std::vector<math::PtrFunction> f0; for(int i=0;i<nc;i++) f0.push_back(s->df(i));
            int sub=6; Tab t; double d=log(gh[1]/gh[0])/sub; long N=(gh.size()-1)*sub; for(long i=0;i<=N;i++) { double l=log(gh[0])+i*d, h=exp(l), g, E=pv->E(h,&g); double f=0,F=0; for(int k=0;k<nc;k++) { double v=f0[k]->value(h); f+=v; F+=v*S.c[k].Mstar; } t.l.push_back(l); t.h.push_back(h); t.g.push_back(g); t.E.push_back(E); t.f.push_back(f); t.F.push_back(F); }
            t.Kg.assign(N+1,0); t.Kh=t.I0=t.Kg; t.Kg[0]=t.f[0]*t.h[0]; t.Kh[0]=t.F[0]*t.h[0]*t.h[0]/t.g[0]; auto a=[&](long i){ return t.f[i]*t.h[i]; }; auto b=[&](long i){ return t.F[i]*t.h[i]*t.h[i]/t.g[i]; }; auto e=[&](long i){ return t.F[i]*t.h[i]/t.g[i]; };
            for(long i=1;i<=N;i++) { t.Kg[i]=t.Kg[i-1]+d*.5*(a(i)+a(i-1)); t.Kh[i]=t.Kh[i-1]+d*.5*(b(i)+b(i-1)); } for(long i=N-1;i>=0;i--) t.I0[i]=t.I0[i+1]+d*.5*(e(i)+e(i+1));
            double dt=c.logu(.002,.05)*s->relaxationTime()/S.p.coulombLog; try { s->evolve(dt); } catch(std::exception&) { dn.bad++; c.event("evolution broke down"); throw vh::Skip(); } double G=16*M_PI*M_PI*S.p.coulombLog;
            for(int k=0;k<nc;k++) { auto f1=s->df(k); V c0,c1; cum(*f0[k],gh,4,c0); cum(*f1,gh,4,c1); double big=0, worst=0, tot=0; long n=0; V fl,dm; std::vector<size_t> idx;
                for(size_t i=4;i+4<gh.size();i++) { if(c0[i]<1e-3*c0.back() || c0[i]>.95*c0.back()) continue; long j=i*sub; double h=gh[i], ee=.25*d*sub, df=(f1->value(h*exp(ee))-f1->value(h*exp(-ee)))/(2*ee)/h; if(S.p.method<=1) { double w=d*sub; df=(f1->value(h*exp(w))-f1->value(h*exp(-w)))/(2*w)/h; }
                    double A=S.c[k].Mstar*G*t.Kg[j]*f1->value(h), D=G*t.g[j]*(t.Kh[j]+h*t.I0[j])*df; fl.push_back(A+D); dm.push_back((c1[i]-c0[i])/dt); big=std::max(big,fabs(A)+fabs(D)); n++; }
                for(size_t i=0;i<fl.size();i++) { worst=std::max(worst,fabs(fl[i]-dm[i])); tot=std::max(tot,fabs(fl[i])); } if(n<4) { c.event("too few nodes"); continue; }
                st.add("flux",worst/big); st.add(k?"flux:second":"flux:first",worst/big); c.ok(worst<.6*big,"flux:far-off",Str()<<worst/big); c.event("flux nodes",n); if(getenv("C20V")) fprintf(stderr,"%s nc=%d k=%d bh=%d worst=%.4f net=%.3f\n",MN[S.p.method],nc,k,bh,worst/big,tot/big);
            } }); }
    st.judge(c,{{"flux",.05},{"flux:first",.05},{"flux:second",.12}}); dn.judge(c,"equation");
}
// scaling of units, halving of time step, agreement of methods, determinism
static void meta(Ctx& c) { Stats st; Down dn;
    for(long it=0; it<c.n(40,240); it++) { bool bh=c.coin(.3); int nc=c.irand(1,2); Setup S=setup(c,it%4,nc,bh); if(!bh) { for(auto& k: S.k) k.g=-1; S.fix(); } S.p.gridSize=c.irand(150,200); double sM=c.logu(1e-3,1e3), sL=c.logu(1e-3,1e3);
        vh::run(c,"meta",Str()<<S.str()<<" sM="<<sM<<" sL="<<sL,[&]{ Setup Q=S; for(auto& k: Q.k) { k.M*=sM; k.a*=sL; } for(auto& q: Q.c) q.Mstar*=sM; Q.p.Mbh*=sM; Q.p.hmin*=pow(sM*sL,1.5); Q.p.hmax*=pow(sM*sL,1.5); Q.fix(); st.S=&S; dn.n++; P a=make(S), b=make(Q), a2=make(S); double sT=sqrt(sL*sL*sL/sM), T=a->relaxationTime(); st.rel("scale:trel",b->relaxationTime(),T*sT);
            Setup R=S; R.p.method=FokkerPlanckMethod((S.p.method+1+c.irand(0,2))%4); R.p.gridSize=S.p.gridSize; P m=make(R); Step sp(*a,.02); int ns=25; for(int n=0;n<ns;n++) { double dt=sp.dt; double d; try { d=sp.go(*a); b->evolve(dt*sT); m->evolve(dt); a2->evolve(dt/2); a2->evolve(dt/2); } catch(std::exception&) { d=1e9; } if(!(d<.5)) { dn.bad++; c.event("evolution broke down"); throw vh::Skip(); } }
            st.rel("scale:energy",b->Etot(),a->Etot()*sM*sM/sL); st.rel("scale:phi0",b->Phi0(),a->Phi0()*sM/sL); double hs=pow(sM*sL,1.5);
            V gh=a->gridh(); for(int k=0;k<nc;k++) { V q; cum(*a->df(k),gh,2,q); for(size_t i=5;i<gh.size()-5;i+=5) if(q[i]>.003*q.back() && q[i]<.99*q.back()) { double h=gh[i], v=a->df(k)->value(h); st.rel("scale:df",b->df(k)->value(h*hs)*hs/sM,v); st.rel("halving:df",a2->df(k)->value(h),v); st.rel("methods:df",m->df(k)->value(h),v); } st.rel("methods:hhalf",hhalf(*m,k),hhalf(*a,k)); }
        }); }
    st.judge(c,{{"scale:trel",1e-4},{"scale:energy",1e-5},{"scale:phi0",1e-5},{"scale:df",1e-5},{"halving:df",2e-2},{"methods:df",4e-2},{"methods:hhalf",2e-2}}); dn.judge(c,"meta");
}
// sources and sinks: every change of mass is accounted for
static void budget(Ctx& c) { Stats st; Down dn;
    for(long it=0; it<c.n(60,400); it++) { int mode=it%3; bool bh=mode>0; int nc=c.irand(1,2); Setup S=setup(c,c.irand(0,3),nc,bh); bool src=mode!=1; S.p.gridSize=c.irand(100,200); if(bh) { S.p.lossConeDrain=c.coin(.7); double rc=S.k[0].a*c.logu(1e-7,1e-5); for(auto& q: S.c) { q.captureRadius=rc*c.uni(1,3); q.captureMassFraction=c.coin()?1:c.uni(0,1); q.captureRadiusScalingExp=c.coin()?0:c.uni(0,1); } }
        double T0=0; { Setup Q=S; try { T0=make(Q)->relaxationTime(); } catch(std::exception&) {} } if(src) for(size_t i=0;i<S.c.size();i++) if(i==0||c.coin()) { S.c[i].sourceRate=T0>0?S.k[i].M*c.uni(1e-2,1e-1)*S.p.coulombLog/T0:0; S.c[i].sourceRadius=S.k[i].a*c.logu(.1,2); }
        vh::run(c,"budget",S.str(),[&]{ st.S=&S; dn.n++; P s=make(S); double T=s->relaxationTime(), t=0, E0=s->Etot(); V M0; for(int i=0;i<nc;i++) M0.push_back(s->Mass(i)); double Mb=s->Mbh(); int ns=40; double pm[2]={0,0};
            Step sp(*s,.02); for(int n=0;n<ns;n++) { double dt=sp.dt, d; try { d=sp.go(*s); } catch(std::exception&) { d=1e9; } if(!(d<3)) { dn.bad++; c.event("evolution broke down"); throw vh::Skip(); } t+=dt; for(int i=0;i<nc;i++) { c.ok(s->drainMass(i)<=pm[i]+1e-12*M0[i],"drain:monotonic"); pm[i]=s->drainMass(i); } }
            double acc=0; for(int i=0;i<nc;i++) { double dm=s->Mass(i)-M0[i], ex=s->sourceMass(i)+s->drainMass(i); if(S.c[i].sourceRate>0) st.rel("source:rate",s->sourceMass(i),S.c[i].sourceRate*t); else c.ok(s->sourceMass(i)==0,"source:none"); { double sc=s->sourceMass(i)-s->drainMass(i); if(sc>0) st.add("budget:mass",(dm-ex)/sc); else st.add("budget:nomass",dm/M0[i]); } acc-=S.c[i].captureMassFraction*s->drainMass(i); if(bh && S.p.lossConeDrain) { c.ok(s->drainMass(i)<0,"drain:negative"); for(double q: s->drainTime(i)) c.ok(q>=0,"drain:time"); } }
            c.close(s->Mbh()-Mb,bh?acc:0.,"budget:mbh",1e-6,1e-12*Mb); { double es=s->sourceEnergy()+(bh?s->drainEnergy():0), sc=fabs(s->sourceEnergy())+(bh?fabs(s->drainEnergy()):0)+1e-4*fabs(E0); st.add(src?"budget:energy-source":"budget:energy-drain",(s->Etot()-E0-es)/sc); } if(getenv("C20V")) { fprintf(stderr,"bud %s bh=%d dE=%g src=%g drain=%g E0=%g;",MN[S.p.method],bh,s->Etot()-E0,s->sourceEnergy(),s->drainEnergy(),E0); for(int i=0;i<nc;i++) fprintf(stderr," dM=%g src=%g drain=%g",s->Mass(i)-M0[i],s->sourceMass(i),s->drainMass(i)); fprintf(stderr,"\n"); }
        }); }
    st.judge(c,{{"source:rate",3e-3},{"budget:mass",.06},{"budget:nomass",1e-3},{"budget:energy-source",.06},{"budget:energy-drain",.8}}); dn.judge(c,"budget");
}
// Bahcall-Wolf cusp around a massive black hole without self-gravity: f ~ |E|^{1/4}, density ~ r^{-7/4}
static void cusp(Ctx& c) { Stats st; Down dn;
    for(long it=0; it<c.n(20,80); it++) { Setup S=setup(c,it%4,1,true); st.S=&S; dn.n++; S.p.gridSize=150; S.p.selfGravity=false; S.p.Mbh=1; S.k[0].M=.01; S.k[0].g=c.uni(1.2,1.5); S.k[0].a=1; S.p.hmin=1e-6; S.p.hmax=1e4; S.fix();
        vh::run(c,"cusp",S.str(),[&]{ P s=make(S); double M0=s->Mass(0), T; { double f1=s->df(0)->value(.1); T=.34*pow(2*M_PI,-1.5)/f1/S.c[0].Mstar/S.p.coulombLog; } Step sp(*s,.05); double t=0; try { for(int n=0;n<400&&t<10*T;n++) { t+=sp.dt; sp.go(*s); } } catch(std::exception&) { dn.bad++; c.event("evolution broke down"); throw vh::Skip(); } auto f=s->df(0); auto pot=s->potential(); c.close(pot->value(.3),-1/.3,"cusp:potential",1e-6); V x,y; for(double h=1e-4;h<1e-2;h*=1.5) { x.push_back(log(-s->phaseVolume()->E(h))); y.push_back(log(f->value(h))); } double k=(y.back()-y[0])/(x.back()-x[0]); c.ok(fabs(k-.265)<.06,"cusp:slope",Str()<<k); st.add("cusp:slope",k-.265);  if(getenv("C20V")) fprintf(stderr,"cusp %s %g\n",MN[S.p.method],k); }); }
    // growth of the black hole at fixed DF
    for(long it=0; it<c.n(24,96); it++) { Setup S=setup(c,it%4,1,true); st.S=&S; S.p.hmin=std::min(S.p.hmin,1e-2*pow(S.p.Mbh*S.k[0].a*1e-4,1.5)); vh::run(c,"setmbh",S.str(),[&]{ P s=make(S); V gh=s->gridh(), f0; for(double h: gh) f0.push_back(s->df(0)->value(h)); double m=S.p.Mbh*c.uni(.7,1.5); s->setMbh(m); c.ok(s->Mbh()==m,"setmbh:value"); bool same=true; for(size_t i=0;i<gh.size();i++) same=same&&s->df(0)->value(gh[i])==f0[i]; c.ok(same,"setmbh:df"); double r=S.k[0].a*1e-4; st.rel("setmbh:potential",s->potential()->value(r)-s->Phi0(),-m/r); if(getenv("C20V")) fprintf(stderr,"SM %s g=%g hmin=%g M=%g a=%g m=%g->%g  pot=%g Phi0=%g expect %g\n",MN[S.p.method],S.k[0].g,S.p.hmin,S.k[0].M,S.k[0].a,S.p.Mbh,m,s->potential()->value(r),s->Phi0(),-m/r); try { s->evolve(1e-4*s->relaxationTime()); } catch(std::exception&) { throw vh::Skip(); } st.add("setmbh:virial",virial(*s)-1); }); }
    st.judge(c,{{"cusp:slope",.02},{"setmbh:potential",.2},{"setmbh:virial",5e-3}}); dn.judge(c,"cusp");
}
static void invalid(Ctx& c) {
    vh::run(c,"invalid","",[&]{ Setup S=setup(c,0,1,true); auto bad=[&](const char* key, std::function<void(Setup&)> ch){ Setup Q=S; ch(Q); try { make(Q); c.ok(false,Str()<<"invalid:"<<key,"accepted"); } catch(std::exception&) { c.ok(true,key); } };
        bad("empty",[](Setup& s){ s.c.clear(); }); bad("density",[](Setup& s){ s.c[0].initDensity.reset(); }); bad("mstar",[](Setup& s){ s.c[0].Mstar=0; }); bad("fraction",[](Setup& s){ s.c[0].captureMassFraction=1.5; }); bad("radius",[](Setup& s){ s.c[0].captureRadius=-1; }); bad("exp",[](Setup& s){ s.c[0].captureRadiusScalingExp=2; }); bad("rate",[](Setup& s){ s.c[0].sourceRate=-1; }); bad("srcradius",[](Setup& s){ s.c[0].sourceRate=1; }); bad("self",[](Setup& s){ s.p.selfGravity=false; s.p.Mbh=0; }); bad("method",[](Setup& s){ s.p.method=FokkerPlanckMethod(7); });
    });
}
int main(int argc, char** argv) { Ctx c(argc,argv); if(c.has("conserve")) conserve(c); if(c.has("equation")) equation(c); if(c.has("meta")) meta(c); if(c.has("budget")) budget(c); if(c.has("cusp")) cusp(c); if(c.has("invalid")) invalid(c); c.done(); return 0; }
