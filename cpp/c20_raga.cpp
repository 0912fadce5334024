// C20: the Monte Carlo stellar-dynamical code judged by conservation laws, capture accounting and local diffusion theory
#include "raga_core.h"
#include "particles_io.h"
#include "potential_analytic.h"
#include "math_core.h"
#include "utils.h"
#include "utils_config.h"
#include "vh.h"
#include <algorithm>
#include <unistd.h>
#include <fstream>
using vh::Ctx; using vh::Str; typedef std::vector<double> V; using namespace raga;
static std::string num(double x) { char b[40]; snprintf(b,40,"%.16g",x); return b; }
static std::string scratch(const char* s) { const char* d=getenv("TMPDIR"); return Str()<<(d?d:"/tmp")<<"/c20r_"<<(long)getpid()<<"_"<<s; }
struct Core { RagaCore r; utils::KeyValueMap k; Core() { k.set("coulombLog","0"); } Core& set(const char* a, double v) { k.set(a,num(v)); return *this; } Core& set(const char* a, const char* v) { k.set(a,v); return *this; } RagaCore& init() { r.init(k); return r; } };
static double radius(const coord::PosCar& p) { return sqrt(p.x*p.x+p.y*p.y+p.z*p.z); }
static double v2(const coord::PosVelCar& p) { return p.vx*p.vx+p.vy*p.vy+p.vz*p.vz; }
static double Lx(const coord::PosVelCar& p) { return p.y*p.vz-p.z*p.vy; } static double Ly(const coord::PosVelCar& p) { return p.z*p.vx-p.x*p.vz; } static double Lzz(const coord::PosVelCar& p) { return p.x*p.vy-p.y*p.vx; }
static double Ltot(const coord::PosVelCar& p) { return sqrt(pow(Lx(p),2)+pow(Ly(p),2)+pow(Lzz(p),2)); }
static double energy(const RagaCore& r, const potential::KeplerBinaryParams& bh, const coord::PosVelCar& p, double t) { return r.ptrPot->value(coord::PosCar(p))+(bh.mass>0?bh.potential(p,t):0)+.5*v2(p); }
static void dir(Ctx& c, double* u) { double ct=c.uni(-1,1), st=sqrt(1-ct*ct), f=c.uni(0,2*M_PI); u[0]=st*cos(f); u[1]=st*sin(f); u[2]=ct; }
// bound orbits of all kinds; lowL: mostly plunging
static coord::PosVelCar orbitOf(Ctx& c, const RagaCore& r, double rad, bool lowL) { double u[3],w[3]; dir(c,u); dir(c,w); double Phi=r.ptrPot->value(coord::PosCar(rad*u[0],rad*u[1],rad*u[2])); if(r.bh.mass>0) Phi-=r.bh.mass/rad; double v=sqrt(-2*Phi)*c.uni(.1,.8); double d=u[0]*w[0]+u[1]*w[1]+u[2]*w[2], q[3], n=0; for(int i=0;i<3;i++) { q[i]=w[i]-d*u[i]; n+=q[i]*q[i]; } n=sqrt(n); double e=lowL? std::max(2e-3,pow(c.uni(),2)*.5) : c.uni(); double s=(c.coin()?1:-1)*sqrt(1-e*e); return coord::PosVelCar(rad*u[0],rad*u[1],rad*u[2],v*(s*u[0]+e*q[0]/n),v*(s*u[1]+e*q[1]/n),v*(s*u[2]+e*q[2]/n)); }
static const char* TYPES[]={"Plummer","Dehnen","Isochrone"};
static std::string base(Ctx& c, Core& k, bool bh, double& M, double& a) { int t=c.irand(0,2); M=c.logu(.2,5); a=c.logu(.3,3); k.set("type",TYPES[t]).set("mass",M).set("scaleRadius",a); double g=0; if(t==1) k.set("gamma",g=c.uni(0,1.2)); double mb=bh?M*c.logu(1e-3,.1):0; if(bh) k.set("Mbh",mb); return Str()<<TYPES[t]<<" M="<<M<<" a="<<a<<" gamma="<<g<<" Mbh="<<mb; }
static void add(RagaCore& r, const coord::PosVelCar& p, double m, double ms=0, double rs=0) { r.particles.add(particles::ParticleAux(p,ms,rs),m); }
// records how far each orbit was followed, and that consecutive steps adjoin each other
struct Rec { double first, last; long steps; bool gap; Rec(): first(NAN), last(-1), steps(0), gap(false) {} };
struct Fnc: orbit::BaseRuntimeFnc { Rec& r; Fnc(orbit::BaseOrbitIntegrator& o, Rec& q): orbit::BaseRuntimeFnc(o), r(q) { r=Rec(); } bool processTimestep(double a, double b) { if(!r.steps++) r.first=a; else if(a!=r.last) r.gap=true; r.last=b; return true; } };
struct Task: BaseRagaTask { std::vector<Rec>& r; size_t n; Task(std::vector<Rec>& q, size_t N): r(q), n(N) {} void createRuntimeFnc(orbit::BaseOrbitIntegrator& o, unsigned int i) { o.addRuntimeFnc(orbit::PtrRuntimeFnc(new Fnc(o,r.at(i)))); } void startEpisode(double,double) { r.assign(n,Rec()); } void finishEpisode() {} const char* name() const { return "monitor"; } };
// without perturbations each particle keeps its integrals of motion, and splitting the episodes changes nothing
static void frozen(Ctx& c) {
    for(long it=0; it<c.n(60,600); it++) { Core A,B; double M,a; bool bh=c.coin(.4); std::string s=base(c,A,bh,M,a); B.k=A.k; std::string out=scratch("snap"); bool store=c.coin(.5); if(store) { A.set("fileOutput",out.c_str()).set("outputInterval",1e-6).set("fileOutputFormat","Text"); }
        vh::run(c,"frozen",s,[&]{ RagaCore &r=A.init(), &q=B.init(); int n=c.irand(5,30); double T0=sqrt(a*a*a/M), T=T0*c.logu(1,30); V E,L,m; for(int i=0;i<n;i++) { double R=a*c.logu(.03,10); coord::PosVelCar p=orbitOf(c,r,R,false); double mm=c.logu(1e-4,1e-2); if(c.coin(.1)) mm=0; add(r,p,mm,c.uni(.5,2)*1e-3,0); add(q,p,mm,1e-3,0); m.push_back(mm); E.push_back(energy(r,r.bh,p,0)); L.push_back(Ltot(p)); }
            std::vector<Rec> rec; r.tasks.push_back(PtrRagaTask(new Task(rec,n))); r.doEpisode(T); for(int i=0;i<n;i++) if(m[i]>0) c.ok(!rec[i].gap&&rec[i].first==0&&fabs(rec[i].last-T)<1e-12*T,"frozen:steps"); else c.ok(rec[i].steps==0,"frozen:massless"); double f=c.uni(.2,.8); q.doEpisode(T*f); q.doEpisode(T*(1-f)); c.close(r.paramsRaga.timeCurr,T,"time",1e-12); c.close(q.paramsRaga.timeCurr,T,"time",1e-12); c.ok(r.bh.mass==q.bh.mass,"bh"); double Ek=0,Ep=0; for(int i=0;i<n;i++) { coord::PosVelCar p=r.particles.point(i), p2=q.particles.point(i); c.ok(r.particles.mass(i)==m[i],"mass"); double e=energy(r,r.bh,p,0); c.close(e,E[i],"frozen:E",1e-4,1e-5*M/a); c.close(Ltot(p),L[i],"frozen:L",1e-4,1e-5*sqrt(M*a)); c.close(energy(q,q.bh,p2,0),E[i],"frozen:E:split",1e-4,1e-5*M/a); if(m[i]==0) continue; if(T<3*T0&&radius(p)>.1*a) { c.close(p.x,p2.x,"split:x",1e-3,1e-3*radius(p)); c.close(p.vy,p2.vy,"split:v",1e-3,1e-3*sqrt(v2(p))); } Ek+=m[i]*.5*v2(p); Ep+=m[i]*(e-.5*v2(p)); }
            double Phi0=r.ptrPot->value(coord::PosCar(0,0,0)); Ep=.5*(Ep)+(bh?.5*r.bh.mass*Phi0:0); { double Et=0, Es=0; for(int i=0;i<n;i++) { coord::PosVelCar p=r.particles.point(i); double K=.5*v2(p)*m[i], P=(energy(r,r.bh,p,0)-.5*v2(p))*m[i]; Et+=K+.5*P; Es+=K+P; } if(bh) { Et+=.5*r.bh.mass*Phi0; Es+=r.bh.mass*Phi0; } c.close(r.Ekin,2*Et-Es,"Ekin",1e-8); c.close(r.Epot,Es-Et,"Epot",1e-8); }
            c.ok(true,"done"); if(store) { std::string fn=out+utils::toString(T); particles::ParticleArrayAux z=particles::readSnapshot(fn); c.ok(z.size()==(size_t)n,"restart:size"); if(z.size()==(size_t)n) { Core C; C.k=B.k; C.set("fileInput",fn.c_str()).set("fileLog","").set("timeInit",T).set("timeTotal",2*T); RagaCore& w=C.init(); c.ok(w.particles.size()==(size_t)n,"restart:loaded"); c.close(w.paramsRaga.timeCurr,T,"restart:time",1e-12); for(int i=0;i<n;i++) { c.close(z.mass(i),m[i],"restart:mass",1e-6); c.close(z.point(i).stellarMass,r.particles.point(i).stellarMass,"restart:mstar",1e-6); c.close(w.particles.point(i).x,r.particles.point(i).x,"restart:x",1e-5,1e-6*a); } double dT=.3*T0; w.doEpisode(dT); r.doEpisode(dT); for(int i=0;i<n;i++) if(m[i]>0&&radius(r.particles.point(i))>.2*a) { c.close(w.particles.point(i).x,r.particles.point(i).x,"restart:continued",2e-3,2e-3*a); } c.event("restarted"); } for(double t: {0.,T,T+.3*T0}) unlink((out+utils::toString(t)).c_str()); }
            c.event("orbits",3*n); }); }
}
// captured particles are exactly those whose pericentre lies within the capture radius, and their mass is transferred once
static void capture(Ctx& c) {
    for(long it=0; it<c.n(60,600); it++) { Core A; double M,a; std::string s=base(c,A,true,M,a); double fr=c.coin(.5)?1:c.uni(0,1), mode=c.irand(0,2); std::string out=scratch("capt"); A.set("captureMassFraction",fr).set("fileOutputLosscone",out.c_str());
        vh::run(c,"capture",s,[&]{ double Mb0=A.k.getDouble("Mbh",0), rc=a*c.logu(1e-3,1e-1); if(mode!=0) A.set("speedOfLight",sqrt(8*Mb0/rc)); RagaCore& r=A.init(); int n=60; V E,L,m,rcap; double T=0; std::vector<int> must; V per,apo;
            for(int i=0;i<n;i++) { double R=a*c.logu(.2,2); coord::PosVelCar p=orbitOf(c,r,R,true); double mm=c.logu(1e-5,1e-4)*M, ms=c.logu(1e-7,1e-4)*M, rs=mode!=1?rc*c.logu(.3,3)*cbrt(ms/Mb0):0; double rca=std::max(mode!=0?rc:0.,rs*cbrt(Mb0/ms)); add(r,p,mm,ms,rs); m.push_back(mm); E.push_back(energy(r,r.bh,p,0)); L.push_back(Ltot(p)); rcap.push_back(rca);
                auto g=[&](double x){ return 2*(E[i]-r.ptrPot->value(coord::PosCar(x,0,0))+Mb0/x)-L[i]*L[i]/x/x; }; double cur=radius(p); double lo=cur*1e-8, hi=cur; for(int k=0;k<80;k++) { double x=sqrt(lo*hi); if(g(x)<0) lo=x; else hi=x; } double peri=lo; lo=cur; hi=cur*1e6; for(int k=0;k<80;k++) { double x=sqrt(lo*hi); if(g(x)>0) lo=x; else hi=x; } double ap=lo; per.push_back(peri); apo.push_back(ap); must.push_back(peri<rca*(1-2e-3)?1:peri>rca*(1+2e-3)?0:-1); double Men=Mb0; { double e=1e-4; Men+=(r.ptrPot->value(coord::PosCar(ap*(1+e),0,0))-r.ptrPot->value(coord::PosCar(ap*(1-e),0,0)))/(2*e)*ap; } T=std::max(T,2*M_PI*sqrt(ap*ap*ap/Men)); }
            T*=1.2; r.doEpisode(T); double sum=0; int nc=0; for(int i=0;i<n;i++) { bool got=r.particles.mass(i)==0; if(got) { sum+=m[i]; nc++; } else c.ok(r.particles.mass(i)==m[i],"capture:mass"); if(must[i]>=0) c.ok(got==(must[i]==1),"capture:set",Str()<<"particle "<<(long)i<<" expected "<<must[i]<<" captured "<<(long)got<<" rcapt="<<rcap[i]<<" peri="<<per[i]<<" apo="<<apo[i]<<" T="<<T<<" r="<<radius(r.particles.point(i))); c.event(got?"captured":"survived"); if(getenv("C20V")&&T>1e3) fprintf(stderr,"T=%g\n",T); }
            c.close(r.bh.mass-Mb0,fr*sum,"capture:bhmass",1e-9,1e-12*Mb0); std::ifstream f(out.c_str()); std::string l; int nl=0; double tp=0,fm=0; while(std::getline(f,l)) if(l[0]!='#') { std::istringstream q(l); double t,mm,rp,e,rcx; int ip,ib; q>>t>>mm>>rp>>e>>ip>>ib>>rcx; nl++; fm+=mm; c.ok(t>=tp&&t<=T,"capture:time"); tp=t; c.ok(ib==0,"capture:index"); if(ip>=0&&ip<n) { c.close(rcx,rcap[ip],"capture:radius",1e-6); c.ok(rp<=rcx*(1+1e-6),"capture:peri"); c.close(mm,m[ip],"capture:m",1e-6); double pe=E[ip]-r.ptrPot->value(coord::PosCar(rp,0,0)); if(rp>1e-4*a&&rp>.02*rcx) { c.close(e,pe,"capture:E",2e-2,1e-2*Mb0/rp); } } } c.ok(nl==nc,"capture:lines"); c.close(fm,sum,"capture:filemass",1e-6); if(nc) unlink(out.c_str());
            double b=r.bh.mass; r.doEpisode(T*.2); int again=0; for(int i=0;i<n;i++) again+=r.particles.mass(i)==0; if(again==nc) c.ok(r.bh.mass==b,"capture:once"); unlink(out.c_str()); }); }
}
// binary black hole: exchange of energy and angular momentum with stars, capture by either hole, gravitational waves
static void binary(Ctx& c) {
    for(long it=0; it<c.n(24,200); it++) { double M=1, a=1, Mb=c.logu(.01,.1), q=c.uni(.2,1), sma=c.logu(.01,.05), ecc=c.coin(.3)?0:c.uni(0,.7), ph=c.uni(0,2*M_PI); bool cap=it%2; double fr=c.coin()?1:c.uni(0,1); if(!cap) fr=0; std::string out=scratch("bin"), outc=scratch("bcap"); Core A; A.set("type","Plummer").set("mass",M).set("scaleRadius",a).set("Mbh",Mb).set("binary_q",q).set("binary_sma",sma).set("binary_ecc",ecc).set("binary_phase",ph).set("fileOutputBinary",out.c_str()).set("fileOutputLosscone",outc.c_str()).set("captureMassFraction",fr).set("maxNumSteps",3e5);
        vh::run(c,"binary",Str()<<"Mb="<<Mb<<" q="<<q<<" a="<<sma<<" e="<<ecc<<" phase="<<ph<<" capture="<<cap<<" fr="<<fr,[&]{ RagaCore& r=A.init(); int n=40; V E,L,m,ms,rs; double mstar=1e-5; for(int i=0;i<n;i++) { double R=cap?sma*c.logu(3,30):sma*c.logu(6,40); coord::PosVelCar p=orbitOf(c,r,R,true); double mm=Mb*c.logu(1e-5,1e-4), s=sma*(cap?c.uni(.02,.1):2e-3)*cbrt(mstar/Mb); add(r,p,mm,mstar,s); rs.push_back(s); m.push_back(mm); E.push_back(energy(r,r.bh,p,0)); L.push_back(Lzz(p)); }
            potential::KeplerBinaryParams b0=r.bh; double T=2*M_PI*sqrt(sma*sma*sma/Mb)*c.uni(10,40); std::vector<Rec> rec; r.tasks.push_back(PtrRagaTask(new Task(rec,n))); r.doEpisode(T); bool part=false; for(int i=0;i<n;i++) { c.ok(!rec[i].gap&&rec[i].first==0,"binary:steps"); if(r.particles.mass(i)>0 && rec[i].last<T*(1-1e-9)) part=true; } if(part) { c.event("unfinished orbit"); throw vh::Skip(); } double om=sqrt(Mb/pow(sma,3)); double pe=fmod(ph+om*T,2*M_PI); if(r.bh.sma>0 && !cap && fabs(r.bh.mass-Mb)<1e-14) c.ok(fabs(remainder(r.bh.phase-pe,2*M_PI))<1e-6,"binary:phase",Str()<<r.bh.phase<<" "<<pe);
            double dE=0,dL=0,aE=0,aL=0; double got[2]={0,0}; std::vector<int> dead(n,0); { std::ifstream f(outc.c_str()); std::string l; while(std::getline(f,l)) if(l[0]!='#') { std::istringstream z(l); double t,mm,rp,e,rcx; int ip,ib; z>>t>>mm>>rp>>e>>ip>>ib>>rcx; c.ok(ib==0||ib==1,"bcap:index"); if(ib<0||ib>1||ip<0||ip>=n) continue; double m1=Mb*(ib==0?1:q)/(1+q); c.close(rcx,rs[ip]*cbrt(m1/mstar),"bcap:radius",1e-5); c.ok(rp<=rcx*(1+1e-6),"bcap:peri"); got[ib]+=mm; dead[ip]++; c.event(ib?"captured by secondary":"captured by primary"); } for(int i=0;i<n;i++) c.ok(dead[i]==(r.particles.mass(i)==0),"bcap:once"); }
            c.close(r.bh.mass-Mb,fr*(got[0]+got[1]),"bcap:mass",1e-5,1e-12); double m1=r.bh.mass/(1+r.bh.q), m2=r.bh.mass*r.bh.q/(1+r.bh.q); c.close(m1-Mb/(1+q),fr*got[0],"bcap:primary",1e-4,1e-12); c.close(m2-Mb*q/(1+q),fr*got[1],"bcap:secondary",1e-4,1e-12);
            if(!cap) { for(int i=0;i<n;i++) if(r.particles.mass(i)>0) { coord::PosVelCar p=r.particles.point(i); double e=m[i]*(energy(r,b0,p,T)-E[i]), l=m[i]*(Lzz(p)-L[i]); dE+=e; aE+=fabs(e); dL+=l; aL+=fabs(l); } bool any=r.bh.mass!=Mb||r.bh.q!=q; double mu=Mb*q/pow(1+q,2), dB=-.5*mu*Mb*(1/r.bh.sma-1/sma); double scE=m[0]*0; for(int i=0;i<n;i++) scE+=m[i]; if(any && fr>0) { c.event("capture during exchange"); throw vh::Skip(); } double tol=.03*aE+2e-3*scE*Mb/sma*.2; c.ok(fabs(dB+dE)<tol,"binary:energy",Str()<<"stars gain "<<dE<<" binary gains "<<dB<<" tolerance "<<tol);
                double Lb0=mu*sqrt(Mb*sma*(1-ecc*ecc)), Lb1=mu*sqrt(Mb*r.bh.sma*(1-pow(r.bh.ecc,2))); double tl=.03*aL+2e-3*scE*sqrt(Mb*sma)*.5+.02*fabs(Lb1-Lb0); bool clip=r.bh.ecc==0||ecc==0||r.bh.ecc<.02; if(!clip) { c.ok(fabs(Lb1-Lb0+dL)<tl,"binary:Lz",Str()<<"stars gain "<<dL<<" binary gains "<<Lb1-Lb0<<" tolerance "<<tl); } c.event("exchange"); if(getenv("C20V")) fprintf(stderr,"bin dE=%g dB=%g aE=%g tol=%g  dL=%g dLb=%g aL=%g tl=%g\n",dE,dB,aE,tol,dL,Lb1-Lb0,aL,tl); }
        }); unlink(out.c_str()); unlink((out+"_enc").c_str()); unlink(outc.c_str()); }
    for(long it=0; it<c.n(40,400); it++) { double Mb=c.logu(.01,1), q=c.uni(.1,1), sma=c.logu(.001,1), ecc=c.coin(.4)?0:c.uni(0,.9), cl=c.logu(10,1e3); Core A; A.set("type","Plummer").set("mass",1).set("scaleRadius",1).set("Mbh",Mb).set("binary_q",q).set("binary_sma",sma).set("binary_ecc",ecc).set("speedOfLight",cl);
        vh::run(c,"waves",Str()<<"Mb="<<Mb<<" q="<<q<<" a="<<sma<<" e="<<ecc<<" c="<<cl,[&]{ RagaCore& r=A.init(); double B=64./5*pow(Mb,3)*q/pow(1+q,2)/pow(cl,5); double F=(1+73./24*ecc*ecc+37./96*pow(ecc,4))*pow(1-ecc*ecc,-3.5), Tc=pow(sma,4)/4/B/F; double T=Tc*c.logu(.01,2); r.doEpisode(T); 
            double A=sma, e2=ecc*ecc, t=0; int steps=0; while(t<T && A>0 && steps++<2000000) { auto rhs=[&](double A,double e2,double& da,double& de){ double f=pow(1-e2,-3.5); da=-B/A/A/A*f*(1+73./24*e2+37./96*e2*e2); de=-2*e2*(19./12)*B/pow(A,4)*pow(1-e2,-2.5)*(1+121./304*e2); }; double a1,d1,a2,d2; rhs(A,e2,a1,d1); double h=std::min(T-t,1e-3*A/fabs(a1)); rhs(A+.5*h*a1,e2+.5*h*d1,a2,d2); A+=h*a2; e2=std::max(0.,e2+h*d2); t+=h; if(A<1e-2*sma) A=0; }
            double left=A>0?pow(A/sma,4):0; c.ok(fabs(r.bh.mass-Mb)<1e-14*Mb&&fabs(r.bh.q-q)<1e-14*q,"waves:mass"); if(left>.2) { c.close(r.bh.sma,A,"waves:a",.05); c.close(r.bh.ecc*r.bh.ecc,e2,"waves:e2",.05,.02); } else if(A==0&&ecc==0&&T>1.1*Tc) c.ok(r.bh.sma==0,"waves:merged",Str()<<r.bh.sma); c.ok(r.bh.sma<=sma,"waves:shrinks"); c.event("waves"); if(getenv("C20V")) fprintf(stderr,"gw a=%g/%g e2=%g/%g T/Tc=%g\n",r.bh.sma,A,r.bh.ecc*r.bh.ecc,e2,T/Tc); }); }
}
static double plumF(double e) { return e>0? 24*M_SQRT2/(7*pow(M_PI,3))*pow(e,3.5) : 0; }
static void coefs(double r, double v, double m, double ma, double lnL, double& dv, double& dp, double& dt) { double psi=1/sqrt(1+r*r), vm=sqrt(2*psi), i2=0,i4=0,i1=0; int N=200; for(int k=0;k<N;k++) { double h=v/N, x=(k+.5)*h, f=plumF(psi-.5*x*x); i2+=h*x*x*f; i4+=h*x*x*x*x*f; } for(int k=0;k<N;k++) { double h=(vm-v)/N, x=v+(k+.5)*h; if(h>0) i1+=h*x*plumF(psi-.5*x*x); } double C=32*M_PI*M_PI*ma*lnL/3; dv=-16*M_PI*M_PI*(m+ma)*lnL*i2/v/v; dp=C*(i4/v/v/v+i1); dt=C*(3*i2/v-i4/v/v/v+2*i1); }
static coord::PosVelCar plummer(Ctx& c) { double u[3],w[3]; dir(c,u); dir(c,w); double r; do { r=1/sqrt(pow(c.uni(1e-4,.98),-2./3)-1); } while(r>30); double ve=sqrt(2/sqrt(1+r*r)), x; do { x=c.uni(); } while(c.uni(0,.1)>x*x*pow(1-x*x,3.5)); return coord::PosVelCar(r*u[0],r*u[1],r*u[2],ve*x*w[0],ve*x*w[1],ve*x*w[2]); }
// two-body relaxation in a Plummer sphere against the diffusion coefficients of the analytic distribution function
static void relax(Ctx& c) { V rE,rL,rD; 
    for(long it=0; it<c.n(8,40); it++) { int n=3000; double lnL=c.uni(3,10), ms=c.logu(1e-7,1e-5); bool two=c.coin(); double ratio=two?c.uni(3,10):1; bool self=c.coin(); double T=c.uni(.5,1.5); int ns=c.irand(1,10); Core A; A.set("coulombLog",lnL).set("numSamplesPerEpisode",ns).set("gridSizeDF",20); if(self) A.set("symmetry","Spherical"); else A.set("type","Plummer").set("mass",1).set("scaleRadius",1);
        vh::run(c,"relax",Str()<<"lnL="<<lnL<<" m*="<<ms<<" two="<<two<<" ratio="<<ratio<<" self="<<self<<" T="<<T<<" samples="<<ns,[&]{ RagaCore& r=A.init(); double ma=0; V M(n); for(int i=0;i<n;i++) { M[i]=two&&i%2?ms*ratio:ms; ma+=M[i]/n; add(r,plummer(c),1./n,M[i],0); } if(self) r.initPotentialFromParticles(); double s1=0,s2=0,pE=0,pL=0,pD=0,d1[2]={0,0}, pd[2]={0,0}, q2[2]={0,0}; V E; std::vector<coord::PosVelCar> P; for(int i=0;i<n;i++) { coord::PosVelCar p=r.particles.point(i); P.push_back(p); E.push_back(energy(r,r.bh,p,0)); double v=sqrt(v2(p)), R=radius(p), dv,dp,dt; coefs(R,v,M[i],ma,lnL,dv,dp,dt); double vr=(p.x*p.vx+p.y*p.vy+p.z*p.vz)/v; pE+=v*v*dp*T; double rp=R*R-vr*vr; pL+=T*(dp*rp+dt*(R*R-.5*rp)); int w=two&&i%2; pd[w]+=T*(v*dv+.5*(dp+dt)); pD+=T*v*v*dp; }
            r.doEpisode(T); int k=0; for(int i=0;i<n;i++) { coord::PosVelCar p=r.particles.point(i); double e=energy(r,r.bh,p,0)-E[i]; c.ok(r.particles.mass(i)==1./n,"relax:mass"); s2+=e*e; d1[two&&i%2]+=e; q2[two&&i%2]+=e*e; s1+=e; double l2=pow(Lx(p)-Lx(P[i]),2)+pow(Ly(p)-Ly(P[i]),2)+pow(Lzz(p)-Lzz(P[i]),2); pL-=0; rD.push_back(0); k++; if(self) continue; rD.back()=l2; }
            double L2=0; for(int i=0;i<n;i++) { coord::PosVelCar p=r.particles.point(i); L2+=pow(Lx(p)-Lx(P[i]),2)+pow(Ly(p)-Ly(P[i]),2)+pow(Lzz(p)-Lzz(P[i]),2); }
            rE.push_back(s2/pE); rL.push_back(L2/pL); c.ok(s2>.6*pE&&s2<1.6*pE,"relax:dE2",Str()<<s2/pE); c.ok(L2>.6*pL&&L2<1.6*pL,"relax:dL2",Str()<<L2/pL); for(int w=0;w<=two;w++) { double noise=sqrt(q2[w]); c.ok(fabs(d1[w]-pd[w])<5*noise+.3*fabs(pd[w]),"relax:drift",Str()<<"species "<<w<<" energy changes by "<<d1[w]<<" expected "<<pd[w]<<" noise "<<noise); } c.event("perturbed",n); if(getenv("C20V")) fprintf(stderr,"relax two=%d self=%d E2=%.3f L2=%.3f drift %g/%g %g/%g noise %g\n",two,self,s2/pE,L2/pL,d1[0],pd[0],d1[1],pd[1],sqrt(s2)); }); }
    vh::run(c,"relax:median","",[&]{ std::sort(rE.begin(),rE.end()); std::sort(rL.begin(),rL.end()); if(rE.size()<5) throw vh::Skip(); double a=rE[rE.size()/2], b=rL[rL.size()/2]; c.ok(fabs(a-1)<.1,"relax:median:E",Str()<<a); c.ok(fabs(b-1)<.1,"relax:median:L",Str()<<b); });
}
// potential recomputed from the particles
static void update(Ctx& c) {
    for(long it=0; it<c.n(10,60); it++) { int n=4000, ns=c.irand(1,8); Core A; A.set("symmetry","Spherical").set("updatePotential","true").set("numSamplesPerEpisode",ns).set("gridSizeR",20).set("lmax",c.coin()?0:2); bool bh=c.coin(.4); double Mb=bh?.01:0; if(bh) A.set("Mbh",Mb).set("speedOfLight",sqrt(8*Mb/.05)); 
        vh::run(c,"update",Str()<<"samples="<<ns<<" bh="<<bh,[&]{ RagaCore& r=A.init(); for(int i=0;i<n;i++) add(r,plummer(c),1./n,1e-6,0); r.initPotentialFromParticles(); potential::PtrPotential p0=r.ptrPot; double E0=r.Ekin+r.Epot, M0=1; for(int k=0;k<3;k++) { r.doEpisode(c.uni(.5,3)); double M=r.particles.totalMass(); c.ok(bh||fabs(M-1)<1e-9,"update:mass"); if(bh) c.close(M+r.bh.mass,M0+Mb,"update:mass+bh",1e-9); double R=200; coord::GradCyl g; r.ptrPot->eval(coord::PosCyl(R,0,0),NULL,&g); c.close(g.dR*R*R,M,"update:potential-mass",5e-3); 
                int n2=0; V rad; for(int i=0;i<n;i++) if(r.particles.mass(i)>0) { rad.push_back(radius(r.particles.point(i))); n2++; } std::sort(rad.begin(),rad.end()); for(double f: {.1,.3,.5,.7,.9}) { double x=rad[(size_t)(f*n2)]; r.ptrPot->eval(coord::PosCyl(x,0,0),NULL,&g); c.close(g.dR*x*x,f*M,"update:profile",.12,.02); } if(!bh) { c.close(r.Ekin+r.Epot,E0,"update:energy",.03); c.close(-2*r.Ekin/r.Epot,1,"update:virial",.05); } c.event("updates"); } c.ok(r.ptrPot!=p0,"update:replaced"); }); }
}
int main(int argc, char** argv) { Ctx c(argc,argv); if(c.has("frozen")) frozen(c); if(c.has("capture")) capture(c); if(c.has("binary")) binary(c); if(c.has("relax")) relax(c); if(c.has("update")) update(c); c.done(); return 0; }
