// C14: numerical kernels judged by their defining equations: sign changes around roots, local minimality, exact integrals, residuals and
// orthogonality of decompositions, duality certificates in linear programming, independent special functions (boost, long double),
// closed-form ODE solutions, orthonormality of spherical harmonics, exact polygon integrals.
#include "math_core.h"
#include "math_linalg.h"
#include "math_fit.h"
#include "math_specfunc.h"
#include "math_ode.h"
#include "math_geometry.h"
#include "math_sphharm.h"
#include "math_optimization.h"
#include "math_spline.h"
#include "vh.h"
#include <algorithm>
#include <functional>
#include <memory>
#include <complex>
#include <boost/math/special_functions.hpp>
using vh::Ctx; using vh::Str; typedef std::vector<double> V; typedef long double LD; using namespace math;
static std::string js(const V& v) { Str s; for(double a: v) s<<a<<","; return s; }
struct Fn: IFunction { std::function<double(double)> f, d; int nd; double lo, hi; mutable long n; mutable bool bad; Fn(std::function<double(double)> _f, std::function<double(double)> _d, int _nd, double a, double b): f(_f), d(_d), nd(_nd), lo(std::min(a,b)), hi(std::max(a,b)), n(0), bad(false) {}
    virtual void evalDeriv(double x, double* v, double* dd, double* d2) const { n++; if(!(x>=lo && x<=hi)) bad=true; if(v) *v=f(x); if(dd) *dd=d? d(x) : NAN; if(d2) *d2=NAN; } virtual unsigned int numDerivs() const { return nd; } };
struct FN: IFunctionNdim { std::function<void(const double*,double*)> f; unsigned nv, nr; mutable long n; FN(unsigned a, unsigned b, std::function<void(const double*,double*)> g): f(g), nv(a), nr(b), n(0) {} virtual void eval(const double v[], double r[]) const { n++; f(v,r); } virtual unsigned numVars() const { return nv; } virtual unsigned numValues() const { return nr; } };
struct FD: IFunctionNdimDeriv { std::function<void(const double*,double*,double*)> f; unsigned nv, nr; FD(unsigned a, unsigned b, std::function<void(const double*,double*,double*)> g): f(g), nv(a), nr(b) {} virtual void evalDeriv(const double v[], double r[], double d[]=NULL) const { V tmp(nr); f(v,r?r:&tmp[0],d); } virtual unsigned numVars() const { return nv; } virtual unsigned numValues() const { return nr; } };
static void roots(Ctx& c) {
    for(long it=0; it<c.n(3000); it++) {
        int k=c.irand(0,7), nd=c.irand(0,1); double x0=c.nor()*c.logu(1e-3,1e3), L=c.logu(1e-3,1e3), w=c.logu(1e-6,1), p=2*c.irand(0,4)+1, A=(c.coin()?1:-1)*c.logu(1e-8,1e8), r=x0+L*c.uni(.02,.98);
        std::function<double(double)> g,h; switch(k) {
            case 0: g=[=](double u){return u;}; h=[=](double){return 1.;}; break; case 1: g=[=](double u){return std::pow(u,p);}; h=[=](double u){return p*std::pow(u,p-1);}; break;
            case 2: g=[=](double u){return tanh(u/w);}; h=[=](double u){double q=1/cosh(u/w); return q*q/w;}; break; case 3: g=[=](double u){return exp(5*u)-1;}; h=[=](double u){return 5*exp(5*u);}; break;
            case 4: g=[=](double u){return u>0?1.:u<0?-1.:0.;}; h=[=](double){return 0.;}; break; case 5: g=[=](double u){return u+.9*sin(30*u)/30;}; h=[=](double u){return 1+.9*cos(30*u);}; break;
            case 6: g=[=](double u){return u>0?sqrt(u):-sqrt(-u);}; h=[=](double u){return .5/sqrt(fabs(u));}; break; default: g=[=](double u){return u*(1+50*exp(-u*u/w/w));}; h=[=](double u){return 1+50*exp(-u*u/w/w)*(1-2*u*u/w/w);}; }
        double tol=c.logu(1e-14,1e-2); bool rev=c.coin(.3); double a=x0, b=x0+L; if(rev) std::swap(a,b);
        vh::run(c,"root:"+std::to_string(k)+(nd?"d":""),Str()<<k<<" r="<<r<<" ["<<a<<","<<b<<"] w="<<w<<" p="<<p<<" A="<<A<<" tol="<<tol,[&]{
            Fn f([&](double x){return A*g((x-r)/L);},[&](double x){return A/L*h((x-r)/L);},nd,a,b); double x=findRoot(f,a,b,tol), ulp=4e-16*(fabs(x0)+L);
            c.ok(!f.bad,"root:inside"); double D=L*tol*(k==1&&nd?p:1)+ulp; bool good=(x>=std::min(a,b)&&x<=std::max(a,b)) && (fabs(x-r)<=D*1.0001 || f.n>=64); if(f.n>=64) c.event("iteration limit reached"); c.ok(good,"root:location:"+std::to_string(k),Str()<<x<<" expected "<<r<<" error/L="<<(x-r)/L); c.ok(f.n<300,"root:evaluations",std::to_string(f.n));
            Fn f2([&](double x){return A*g((x-r)/L);},0,0,r+.01*L,std::max(a,b)); c.ok(std::isnan(findRoot(f2,r+L*.01,std::max(a,b),tol)),"root:not-bracketed"); double e=findRoot(f,a,r,tol); c.ok(fabs(e-r)<=D||A*g((e-r)/L)==0,"root:endpoint");
            Fn f3([&](double x){return x>r+.5*(x0+L-r)?NAN:A*g((x-r)/L);},0,0,a,b); c.ok(std::isnan(findRoot(f3,a,b,tol)),"root:nan-endpoint"); bool t=false; try{findRoot(f,a,b,0);}catch(std::exception&){t=true;} c.ok(t,"root:zero-tolerance"); t=false; try{findRoot(f,a,INFINITY,1e-3);}catch(std::exception&){t=true;} c.ok(t,"root:infinite");
        });
    }
    // scaling transformations: round trip, derivative, range; roots over infinite intervals
    for(long it=0; it<c.n(2000); it++) vh::run(c,"scaling",std::to_string(it),[&]{
        double s=c.uni(.03,.97), e=1e-6, l=c.nor()*3, u=l+c.logu(.01,100), u0=c.coin()?0.:c.coin()?-0.:c.nor();
        auto chk=[&](auto sc, const char* nm) { double d, x=unscale(sc,s,&d); std::string key=std::string("scaling:")+nm; if(!std::isfinite(x)) return; c.close(scale(sc,x),s,key+":roundtrip",1e-8,1e-8); double xp=unscale(sc,s+e), xm=unscale(sc,s-e); c.close((xp-xm)/2/e,d,key+":derivative",2e-4,1e-6*(fabs(x)+fabs(d)*1e-3)); c.ok((xp-xm)*(unscale(sc,.9)-unscale(sc,.1))>=0,key+":monotone"); };
        chk(ScalingLin(l,u),"lin"); chk(ScalingCub(l,u),"cub"); chk(ScalingQui(l,u),"qui"); chk(ScalingInf(),"inf"); chk(ScalingSemiInf(u0),"semiinf"); if(s<.45||s>.55) chk(ScalingDoubleInf(c.coin()?0:c.logu(1e-3,10)),"doubleinf");
        for(auto p: {0.,1.}) { c.ok(unscale(ScalingLin(l,u),p)==(p?u:l) && fabs(unscale(ScalingCub(l,u),p)-(p?u:l))<1e-14*(fabs(l)+u-l) && fabs(unscale(ScalingQui(l,u),p)-(p?u:l))<1e-14*(fabs(l)+u-l),"scaling:ends"); c.ok(std::isinf(unscale(ScalingInf(),p)),"scaling:inf-ends"); }
        double r=c.logu(1e-30,1e30), q=c.logu(.2,5); Fn f([=](double x){return tanh(q*log(x/r));},0,0,0,INFINITY); double x=findRoot(f,ScalingSemiInf(),1e-12); c.close(x,r,"scaling:root-semiinf",1e-7); Fn fm([=](double x){return tanh(q*log(-x/r));},0,0,-INFINITY,0); c.close(findRoot(fm,ScalingSemiInf(-0.),1e-12),-r,"scaling:root-neg",1e-7); Fn fi([=](double x){return atan(x-l);},0,0,-INFINITY,INFINITY); c.close(findRoot(fi,ScalingInf(),1e-12),l,"scaling:root-inf",1e-7,1e-7);
    });
    for(long it=0; it<c.n(2000); it++) {
        int k=c.irand(0,4); double a=c.nor()*c.logu(1e-2,1e2), L=c.logu(1e-2,1e2), m=a+L*(c.coin(.15)?(c.coin()?0:1):c.uni(.01,.99)), A=c.logu(1e-5,1e5), off=c.coin()?0:c.nor()*A, tol=c.logu(1e-7,1e-2), init=c.coin()?NAN:a+L*c.uni(0,1);
        vh::run(c,"min:"+std::to_string(k),Str()<<k<<" a="<<a<<" L="<<L<<" m="<<m<<" tol="<<tol<<" init="<<init,[&]{
            auto g=[=](double u){return k==0?u*u:k==1?fabs(u):k==2?-exp(-u*u*200)+.5*u*u:k==3?u*u*u*u:u*u-(u<-.5?.3*(u+.5)*(u+.5):0);}; Fn f([&](double x){return off+A*g((x-m)/L);},0,0,a,a+L); bool rev=c.coin(.2); double x=rev?findMin(f,a+L,a,init,tol):findMin(f,a,a+L,init,tol);
            c.ok(!f.bad && x>=a && x<=a+L,"min:inside"); double fx=f.f(x), res=k==3?1e-2:1e-7; if(f.n>=64) c.event("minimisation iteration limit reached"); c.ok(f.n>=64 || fabs(x-m)<=L*(1.0001*tol+res*(1+sqrt(fabs(off)/A))) || (k==2&&g((x-m)/L)>=-.2),"min:location:"+std::to_string(k),Str()<<x<<" err/L="<<(x-m)/L<<" n="<<f.n<<" off/A="<<off/A); c.ok(fx<=std::min(f.f(a),f.f(a+L)) && (std::isnan(init)||fx<=f.f(init)+1e-15*A),"min:not-above-start");
            Fn fn([&](double x){return x>m?NAN:x;},0,0,a,a+L); if(m<a+L) c.ok(std::isnan(findMin(fn,a,a+L,NAN,tol)),"min:nan"); bool t=false; try{findMin(f,a,a+L,a-L,tol);}catch(std::exception&){t=true;} c.ok(t,"min:bad-init");
        });
    }
    for(long it=0; it<c.n(3000); it++) { // local estimates
        double x0=c.coin(.2)?0:c.nor()*c.logu(1e-4,1e4), L=c.logu(1e-2,1e2), r=x0+(c.coin(.2)?0:L*c.nor()*.01), A=(c.coin()?1:-1)*c.logu(1e-3,1e3), q=c.nor(); int nd=c.irand(0,1);
        vh::run(c,"neigh",Str()<<x0<<" r="<<r<<" L="<<L<<" q="<<q<<" nd="<<nd,[&]{
            auto f=[=](double x){double u=(x-r)/L; return A*(u+.3*q*u*u);}; Fn F(f,[=](double x){double u=(x-r)/L; return A/L*(1+.6*q*u);},nd,-1e300,1e300); PointNeighborhood n(F,x0); double noise=fabs(x0)/L; if(noise>20||noise<.2||r==x0) throw vh::Skip();
            c.close(n.f0,f(x0),"neigh:value",0); c.close(n.fder,F.d(x0),"neigh:der",1e-4+1e-9*noise,0); double dp=n.dxToPositive(), dn=n.dxToNegative(); c.ok(f(x0+dp)>0,"neigh:positive",Str()<<dp<<" f="<<f(x0+dp)); c.ok(f(x0+dn)<0,"neigh:negative",Str()<<dn<<" f="<<f(x0+dn)); c.ok(fabs(dp)<.5*L&&fabs(dn)<.5*L,"neigh:close"); c.close(x0+n.dxToNearestRoot(),r,"neigh:root",0,L*(2e-3+1e-8*noise));
        });
    }
}
static void poly(Ctx& c) {
    for(long it=0; it<c.n(20000); it++) {
        int deg=c.irand(2,4); double sc=c.logu(1e-4,1e4), A=(c.coin()?1:-1)*c.logu(1e-6,1e6); std::vector<std::complex<double>> z; bool rep=false;
        int n=deg; while(n>0) { if(n>=2 && c.coin(.4)) { double re=c.nor(), im=c.logu(.05,3); z.push_back({re,im}); z.push_back({re,-im}); n-=2; } else { double x=c.coin(.05)?0:c.nor()*c.logu(.1,3); if(z.size() && c.coin(.1)) { x=z.back().real(); if(z.back().imag()==0) rep=true; else x=c.nor(); } z.push_back({x,0}); n--; } }
        V re; for(auto& q: z) if(q.imag()==0) re.push_back(q.real()*sc); std::sort(re.begin(),re.end()); double sep=1e300; for(size_t i=0;i+1<re.size();i++) sep=std::min(sep,(re[i+1]-re[i])/sc); for(auto& q: z) if(q.imag()) sep=std::min(sep,fabs(q.imag()));
        std::vector<std::complex<LD>> co(1,A); for(auto& q: z) { co.push_back(0); std::complex<LD> qq(LD(q.real())*sc,LD(q.imag())*sc); for(size_t i=co.size()-1;i>0;i--) co[i]-=qq*co[i-1]; } double a[5]; for(int i=0;i<=deg;i++) a[i]=co[i].real();
        vh::run(c,"poly:"+std::to_string(deg),Str()<<js(V(a,a+deg+1))<<" roots "<<js(re),[&]{
            double out[5]={-7777,-7777,-7777,-7777,-7777}; int m=deg==2?solveQuadratic(a[0],a[1],a[2],out):deg==3?solveCubic(a[0],a[1],a[2],a[3],out):solveQuartic(a[0],a[1],a[2],a[3],a[4],out); for(int i=m;i<5;i++) c.ok(i<deg||out[i]==-7777,"poly:bounds"); V o(out,out+m); std::sort(o.begin(),o.end());
            double tol=deg==2?1e-13:deg==3?1e-11:1e-8, cond=1/std::min(1.,sep); tol*=std::pow(cond,2); 
            for(double x: o) { LD f=0,S=0; for(int i=0;i<=deg;i++) { f=f*x+a[i]; S=S*fabsl(x)+fabs(a[i]); } S=std::max(S,(LD)fabs(A)*powl(sc,deg)); c.ok(fabsl(f)<=(deg==4?1e-8:1e-11)*S,"poly:residual:"+std::to_string(deg),Str()<<x<<" residual "<<double(f/S)); }
            if(sep>1e-3) { if(c.ok(o.size()==re.size(),"poly:number:"+std::to_string(deg),Str()<<o.size()<<" instead of "<<re.size())) for(size_t i=0;i<o.size();i++) c.close(o[i],re[i],"poly:root:"+std::to_string(deg),tol,tol*sc); } else if(rep) c.event("repeated roots");
        });
    }
    vh::run(c,"poly-degenerate","",[&]{ double r[4];
        for(int i=0;i<200;i++) { double b=c.nor(), a=c.nor(), d=c.nor(); c.ok(solveQuadratic(0,b,a,r)==1 && fabs(r[0]+a/b)<1e-14*fabs(a/b),"poly:linear"); c.ok(solveQuadratic(0,0,a,r)==0,"poly:none"); c.ok(solveQuadratic(d*d+.01,0,1,r)==0,"poly:imaginary"); int n=solveCubic(0,1,-a-b,a*b,r); c.ok(n==2 && fabs(std::min(r[0],r[1])-std::min(a,b))<1e-11 && fabs(std::max(r[0],r[1])-std::max(a,b))<1e-11,"poly:cubic-as-quadratic"); c.ok(solveCubic(1,0,0,-d*d*d,r)==1 && fabs(r[0]-d)<1e-12,"poly:cuberoot"); n=solveQuartic(0,1,0,0,-d*d*d,r); c.ok(n==1 && fabs(r[0]-d)<1e-12,"poly:quartic-as-cubic"); n=solveQuartic(1,0,0,0,-d*d*d*d,r); c.ok(n==2 && fabs(fabs(r[0])-fabs(d))<1e-9 && fabs(r[0]+r[1])<1e-9,"poly:quartic-symmetric"); } });
}
static void quad(Ctx& c) {
    for(long it=0; it<c.n(1500); it++) {
        double a=c.nor()*3, L=c.logu(1e-3,10)*(c.coin(.2)?-1:1), b=a+L, tol=c.logu(1e-10,1e-3), A=(c.coin()?1:-1)*c.logu(1e-10,1e10); int k=c.irand(0,6); double w=c.uni(.5,8), p=c.uni(-.85,3), h=c.logu(1e-3,.3), mid=c.uni(0,1);
        auto g=[=](double u)->double{ switch(k) { case 0: return cos(w*u+1)+2; case 1: return std::pow(u,p); case 2: return exp(-w*u); case 3: return 1/(1+(u-mid)*(u-mid)/h/h); case 4: return log(u); case 5: return u>mid?1:0; default: return 1/sqrt(u*(1-u)); } };
        LD ref=k==0?2+(sinl(w+1)-sinl(1))/w:k==1?1/(LD(p)+1):k==2?(1-expl(-w))/w:k==3?h*(atanl((1-mid)/h)+atanl(mid/h)):k==4?-1:k==5?1-mid:M_PIl;
        vh::run(c,"quad:"+std::to_string(k),Str()<<k<<" a="<<a<<" L="<<L<<" tol="<<tol<<" p="<<p<<" h="<<h<<" mid="<<mid,[&]{
            bool bad=false; double ou=1e-12+4e-16*fabs(a/L); auto f=[&](double x){ double u=(x-a)/L; if(!(u>=-ou&&u<=1+ou)) bad=true; if((k==1||k==4||k==6)&&(u<=0||u>=1)) return 0.; return A*g(u); }; Fn F(f,0,0,-1e300,1e300); double er; int ne; LD R=ref*A*L; double sing=k==1&&p<-.3?1e-3*std::pow(1e-14*fabs(a/L)+1e-16,0):0; double off=3e-16*(fabs(a)+fabs(L))/fabs(L); sing=(k==1&&p<0?3*std::pow(off,p+1)*20:k==6?20*sqrt(off):k==4?40*off:10*off)*1.;
            if(sing<.3*tol||sing<1e-9) { double v=integrateAdaptive(F,a,b,tol,&er,&ne); c.close(v,(double)R,"quad:adaptive:"+std::to_string(k),std::max(3*tol,1e-13)+sing,0); c.ok(ne>0&&!bad,"quad:inside"); c.ok(er>=0||std::isnan(er),"quad:error-sign"); }
            if(k==0||k==2) { F.n=0; double v=integrate(F,a,b,tol,&er,&ne); c.close(v,(double)R,"quad:gk",std::max(3*tol,1e-12)); c.ok(ne==F.n || ne>0,"quad:numeval"); c.ok(fabs(er)<=2*tol*fabs(v)+1e-12*fabs(v),"quad:error-estimate",Str()<<er); }
            ScalingCub sc(std::min(a,b),std::max(a,b)); ScaledIntegrand<ScalingCub> SI(sc,F); if(L>0&&(k==0||k==2)) { double v=integrateAdaptive(SI,0,1,tol); c.close(v,(double)R,"quad:scaled",std::max(3*tol,1e-12)); double m=a+L*c.uni(); double v1=integrateAdaptive(SI,0,scale(sc,m),tol), v2=integrateAdaptive(SI,scale(sc,m),1,tol); c.close(v1+v2,(double)R,"quad:scaled-parts",std::max(5*tol,1e-12)); }
            // Gauss-Legendre: exact for polynomials of degree 2N-1, table consistent with the direct routine
            int N=c.irand(1,40); int d=c.irand(0,2*N-1); auto q=[&](double x){return std::pow((x-a)/L,d);}; Fn P(q,0,0,-1e300,1e300); double v=integrateGL(P,a,b,N); c.close(v,L/(d+1),"quad:gl-exact",1e-12+10*off*d); V X(N),W(N); prepareIntegrationTableGL(a,b,N,&X[0],&W[0]); LD s=0,sw=0; for(int i=0;i<N;i++) { s+=LD(W[i])*q(X[i]); sw+=W[i]; c.ok(W[i]*L>0 && (X[i]-a)/L>0 && (X[i]-a)/L<1 && (i==0||(X[i]-X[i-1])*L>0),"quad:gl-nodes"); } c.close((double)s,L/(d+1),"quad:gl-table",1e-12+10*off*d); c.close((double)sw,L,"quad:gl-weights",1e-12);
            FN M(1,2,[&](const double*x,double*r){r[0]=q(x[0]);r[1]=-3*q(x[0]);}); double r2[3]={0,0,-7}; integrateGL(M,a,b,N,r2); c.ok(r2[2]==-7,"quad:gl-bounds"); c.close(r2[0],L/(d+1),"quad:gl-vector",1e-12+10*off*d); c.close(r2[1],-3*r2[0],"quad:gl-vector2",1e-13); int nbad=c.coin()?0:41; bool t=false; try{integrateGL(P,a,b,nbad);}catch(std::exception&){t=true;} c.ok(t,"quad:gl-order");
        });
    }
    for(long it=0; it<c.n(60); it++) {
        int n=c.irand(1,4), m=c.irand(1,3); V lo(n),hi(n); double vol=1; for(int i=0;i<n;i++) { lo[i]=c.nor(); hi[i]=lo[i]+c.logu(.1,5); vol*=hi[i]-lo[i]; } V w(n); for(int i=0;i<n;i++) w[i]=c.uni(-2,2); double tol=c.logu(1e-6,1e-2);
        vh::run(c,"cubature",Str()<<n<<" "<<m<<" tol="<<tol<<" w="<<js(w),[&]{ bool in=true; FN F(n,m,[&](const double* x,double* r){ double s=0,g=1; for(int i=0;i<n;i++) { double u=(x[i]-lo[i])/(hi[i]-lo[i]); in=in&&u>=-1e-14&&u<=1+1e-14; s+=w[i]*u; g*=1+u*u; } r[0]=exp(s); if(m>1) r[1]=g; if(m>2) r[2]=5.; });
            V res(m+1,-7), er(m+1,-7); int ne=0; integrateNdim(F,&lo[0],&hi[0],tol,1000000,&res[0],&er[0],&ne); c.ok(res[m]==-7&&er[m]==-7,"cubature:bounds"); c.ok(in,"cubature:inside"); double r0=vol; for(int i=0;i<n;i++) r0*=fabs(w[i])<1e-9?1:expm1(w[i])/w[i]; c.close(res[0],r0,"cubature:exp",3*tol); if(m>1) c.close(res[1],vol*std::pow(4./3,n),"cubature:product",3*tol); if(m>2) c.close(res[2],5*vol,"cubature:const",1e-10); for(int i=0;i<m;i++) c.ok(er[i]>=0&&er[i]<=tol*fabs(res[i])*1.01+1e-13*fabs(res[i]),"cubature:error",Str()<<er[i]/res[i]);
            c.ok(ne>=F.n*0 && ne>0,"cubature:count"); F.n=0; integrateNdim(F,&lo[0],&hi[0],1e-15,2000,&res[0],&er[0],&ne); c.ok(F.n<=2000*3,"cubature:limit",Str()<<F.n); });
    }
    for(long it=0; it<c.n(3000); it++) vh::run(c,"util",std::to_string(it),[&]{
        // angles
        double x=c.nor()*c.logu(1e-20,1e4), y=c.nor()*c.logu(1e-3,1e3), w=wrapAngle(x); c.ok(w>=0&&w<2*M_PI,"util:wrap-range",Str()<<x); c.close(cos(w),cos(x),"util:wrap-cos",0,1e-15*(10+fabs(x))); c.close(sin(w),sin(x),"util:wrap-sin",0,1e-15*(10+fabs(x))); double u=unwrapAngle(x,y); c.ok(fabs(u-y)<=M_PI*(1+1e-12)+1e-15*(fabs(x)+fabs(y)),"util:unwrap-range"); double kk=(x-u)/(2*M_PI); c.close(kk,round(kk),"util:unwrap-multiple",0,1e-12*(1+fabs(kk))); for(int k=-20;k<=20;k++) { double ww=wrapAngle(k*2*M_PI); c.ok(std::min(ww,2*M_PI-ww)<1e-12,"util:wrap-2pi"); };
        double s,cc; math::sincos(x,s,cc); c.close(s,sin(x),"util:sin",1e-12,1e-12+1e-15*fabs(x)); c.close(cc,cos(x),"util:cos",1e-12,1e-12+1e-15*fabs(x));
        // powers
        double b=c.nor()*2; int n=c.irand(-12,12); c.close(math::pow(b,n),std::pow(b,n),"util:pow-int",1e-13); double ab=c.logu(1e-5,1e5), pw=c.coin(.3)?c.irand(-6,6)*.5:c.nor()*3; c.close(math::pow(ab,pw),std::pow(ab,pw),"util:pow",1e-13);
        // bins
        int N=c.irand(1,12); V g(N); g[0]=c.nor(); for(int i=1;i<N;i++) g[i]=g[i-1]+(c.coin()?1:c.logu(1e-6,1e3)); for(int j=0;j<6;j++) { double p=c.coin(.4)?g[c.irand(0,N-1)]:c.uni(g[0]-1,g[N-1]+1); if(c.coin(.1)) p=c.coin()?INFINITY:-INFINITY; ptrdiff_t k=binSearch(p,&g[0],N); ptrdiff_t ref=p<g[0]?-1:p>g[N-1]?N-1:std::min<ptrdiff_t>(N-2,std::upper_bound(g.begin(),g.end(),p)-g.begin()-1); if(N==1&&p==g[0]) ref=k; c.ok(k==ref,"util:binsearch",Str()<<k<<" instead of "<<ref); } c.ok(binSearch((double)NAN,&g[0],N)==-1||binSearch((double)NAN,&g[0],N)==N,"util:binsearch-nan");
        { int gi[5]; gi[0]=c.irand(-5,5); for(int i=1;i<5;i++) gi[i]=gi[i-1]+c.irand(1,9); int p=c.irand(gi[0]-3,gi[4]+3); ptrdiff_t ref=p<gi[0]?-1:p>gi[4]?4:std::min<ptrdiff_t>(3,std::upper_bound(gi,gi+5,p)-gi-1); c.ok(binSearch(p,gi,5)==ref,"util:binsearch-int"); }
        // comparison
        double e=c.logu(1e-12,1e-2), v=c.nor()*c.logu(1e-5,1e5); c.ok(fcmp(v,v*(1+.1*e),e)==0,"util:fcmp-equal"); c.ok(fcmp(v,v+fabs(v)*10*e,e)==-1 && fcmp(v+fabs(v)*10*e,v,e)==1,"util:fcmp-order"); c.ok(fcmp(0,.5*e,e)==0&&fcmp(0,2*e,e)==-1&&fcmp(2*e,0,e)==1&&fcmp(-2*e,0,e)==-1,"util:fcmp-zero");
        // interpolation helpers
        { double x1=c.nor(),x2=x1+c.logu(.01,10),q[4]={c.nor(),c.nor(),c.nor(),c.nor()},t=c.uni(x1,x2); auto P=[&](double z){return q[0]+z*(q[1]+z*(q[2]+z*q[3]));}; auto D=[&](double z){return q[1]+z*(2*q[2]+z*3*q[3]);}; double S=fabs(q[0])+fabs(q[1]*x2)+fabs(q[2]*x2*x2)+fabs(q[3]*x2*x2*x2)+1; c.close(hermiteInterp(t,x1,x2,P(x1),P(x2),D(x1),D(x2)),P(t),"util:hermite",0,1e-12*S*10); c.close(linearInterp(t,x1,x2,2+x1,2+x2),2+t,"util:linear",1e-13,1e-13);
          double x0=c.nor(),h1=c.logu(.3,3),h2=c.logu(.3,3),w5[6]; for(double& z: w5) z=c.nor(); auto F=[&](double z,int o){ double r=0; for(int i=5;i>=o;i--) { double k=w5[i]; for(int m=0;m<o;m++) k*=i-m; r=r*z+k; } return r; }; double d2,d3,d4,d5; hermiteDerivs(x0-h1,x0,x0+h2,F(-h1,0),F(0,0),F(h2,0),F(-h1,1),F(0,1),F(h2,1),d2,d3,d4,d5); double T=1e-10/std::pow(std::min(h1,h2),5)*std::pow(3,5); c.close(d2,F(0,2),"util:hermderiv2",0,T); c.close(d3,F(0,3),"util:hermderiv3",0,10*T); c.close(d4,F(0,4),"util:hermderiv4",0,100*T); c.close(d5,F(0,5),"util:hermderiv5",0,1000*T); }
        { Averager a; int m=c.irand(1,30); V z(m); LD su=0,sq=0; double o=c.nor()*1e4; for(double& q: z) { q=o+c.nor(); a.add(q); su+=q; } su/=m; for(double q: z) sq+=(q-su)*(q-su); c.close(a.mean(),(double)su,"util:mean",1e-14); c.close(a.disp(),m>1?(double)(sq/(m-1)):0,"util:disp",1e-8,1e-12); c.ok((int)a.count()==m,"util:count"); }
        // function combinations
        { double p=c.uni(.5,3); Monomial M(c.irand(0,5)); Gaussian G(p); double t=c.nor(),v1,a1,b1,v2,a2,b2,v,a,bb; M.evalDeriv(t,&v1,&a1,&b1); G.evalDeriv(t,&v2,&a2,&b2); FncProduct FP(M,G); FP.evalDeriv(t,&v,&a,&bb); c.close(v,v1*v2,"util:product",1e-14,1e-300); c.close(a,v1*a2+a1*v2,"util:product-d",1e-12,1e-14); c.close(bb,v1*b2+2*a1*a2+b1*v2,"util:product-d2",1e-12,1e-14); c.close(v2,exp(-.5*t*t/p/p)/p/sqrt(2*M_PI),"util:gaussian",1e-14); c.close(a2,-t/p/p*v2,"util:gaussian-d",1e-13); c.close(b2,(t*t/p/p-1)/p/p*v2,"util:gaussian-d2",1e-12,1e-15); FncShifted FS(G,.3,.7); double y1; FS.evalDeriv(t+.3,&y1,0,0); c.close(y1,v2-.7,"util:shifted",1e-13,1e-14);
          LogLogScaledFnc LL(G); double ll,l1,l2,tt=fabs(t)+.1; LL.evalDeriv(log(tt),&ll,&l1,&l2); c.close(ll,-.5*tt*tt/p/p-log(p*sqrt(2*M_PI)),"util:loglog",1e-12,1e-12); c.close(l1,-tt*tt/p/p,"util:loglog-d",1e-11); c.close(l2,-2*tt*tt/p/p,"util:loglog-d2",1e-9); }
    });
}
static Matrix<double> rmat(Ctx& c, int m, int n, double cond=0) { Matrix<double> A(m,n,0.); for(int i=0;i<m;i++) for(int j=0;j<n;j++) A(i,j)=c.nor(); if(cond>0) for(int i=0;i<m;i++) { double s=c.logu(1/cond,cond); for(int j=0;j<n;j++) A(i,j)*=s; } return A; }
static double mx(const IMatrix<double>& A) { double r=0; for(size_t i=0;i<A.rows();i++) for(size_t j=0;j<A.cols();j++) r=std::max(r,fabs(A.at(i,j))); return r; }
static V mv(const IMatrix<double>& A, const V& x, bool t=false) { V r(t?A.cols():A.rows()); for(size_t i=0;i<A.rows();i++) for(size_t j=0;j<A.cols();j++) if(t) r[j]+=A.at(i,j)*x[i]; else r[i]+=A.at(i,j)*x[j]; return r; }
static Matrix<double> mm(const IMatrix<double>& A, const IMatrix<double>& B, bool ta=false, bool tb=false) { size_t m=ta?A.cols():A.rows(), k=ta?A.rows():A.cols(), n=tb?B.rows():B.cols(); Matrix<double> R(m,n,0.); for(size_t i=0;i<m;i++) for(size_t j=0;j<n;j++) { LD s=0; for(size_t l=0;l<k;l++) s+=LD(ta?A.at(l,i):A.at(i,l))*(tb?B.at(j,l):B.at(l,j)); R(i,j)=s; } return R; }
static void eqm(Ctx& c, const IMatrix<double>& A, const IMatrix<double>& B, const std::string& key, double tol) { if(!c.ok(A.rows()==B.rows()&&A.cols()==B.cols(),key+":shape")) return; for(size_t i=0;i<A.rows();i++) for(size_t j=0;j<A.cols();j++) c.close(A.at(i,j),B.at(i,j),key,0,tol); }
static void eqv(Ctx& c, const V& a, const V& b, const std::string& key, double tol) { if(!c.ok(a.size()==b.size(),key+":size")) return; for(size_t i=0;i<a.size();i++) c.close(a[i],b[i],key,0,tol); }
static void linalg(Ctx& c) {
    for(long it=0; it<c.n(800); it++) vh::run(c,"linalg",std::to_string(it),[&]{
        int n=c.irand(1,15), m=n+c.irand(0,10); Matrix<double> A=rmat(c,n,n,c.coin()?100:0), B=rmat(c,m,n); V x(n); for(double& v: x) v=c.nor(); V b=mv(A,x); double nA=mx(A), N=n;
        SVDecomp S(A); V sv=S.S(); double kap=sv[0]/std::max(sv[n-1],1e-300); if(kap>1e9) throw vh::Skip(); double tol=1e-13*N*N*kap; V xl=LUDecomp(A).solve(b), xq=QRDecomp(A).solve(b), xs=S.solve(b); eqv(c,xl,x,"linalg:lu",tol*3); eqv(c,xq,x,"linalg:qr",tol*3); eqv(c,xs,x,"linalg:svd",tol*3);
        { std::vector<Triplet> t; for(int i=0;i<n;i++) for(int j=0;j<n;j++) t.push_back(Triplet(i,j,A(i,j))); SparseMatrix<double> sp(n,n,t); eqv(c,LUDecomp(sp).solve(b),x,"linalg:sparse-lu",tol*3*N); LUDecomp l1(A), l2(l1), l3; l3=l2; eqv(c,l3.solve(b),xl,"linalg:lu-copy",0); }
        { SVDecomp T(B); Matrix<double> U=T.U(), W=T.V(); V s=T.S(); for(int i=0;i+1<n;i++) c.ok(s[i]>=s[i+1]&&s[i+1]>=0,"linalg:sv-order"); eqm(c,mm(U,U,true),[&]{Matrix<double> I(n,n,0.);for(int i=0;i<n;i++)I(i,i)=1;return I;}(),"linalg:svd-U",1e-12); eqm(c,mm(W,W,true),[&]{Matrix<double> I(n,n,0.);for(int i=0;i<n;i++)I(i,i)=1;return I;}(),"linalg:svd-V",1e-12); Matrix<double> US(m,n,0.); for(int i=0;i<m;i++) for(int j=0;j<n;j++) US(i,j)=U(i,j)*s[j]; eqm(c,mm(US,W,false,true),B,"linalg:svd-product",1e-12*N); }
        { Matrix<double> Q,R; QRDecomp D(B); D.QR(Q,R); eqm(c,mm(Q,R),B,"linalg:qr-product",1e-12*N); eqm(c,mm(Q,Q,true),[&]{Matrix<double> I(m,m,0.);for(int i=0;i<m;i++)I(i,i)=1;return I;}(),"linalg:qr-orthogonal",1e-12*N); for(size_t i=0;i<R.rows();i++) for(size_t j=0;j<R.cols()&&j<i;j++) c.ok(R(i,j)==0||fabs(R(i,j))<1e-13,"linalg:qr-triangular"); }
        { Matrix<double> P=mm(B,B,true); for(int i=0;i<n;i++) P(i,i)+=.1; CholeskyDecomp C(P); Matrix<double> L=C.L(); for(int i=0;i<n;i++) for(int j=i+1;j<n;j++) c.ok(L(i,j)==0,"linalg:chol-triangular"); eqm(c,mm(L,L,false,true),P,"linalg:chol-product",1e-12*N*mx(P)); V y=mv(P,x), z=C.solve(y); eqv(c,mv(P,z),y,"linalg:chol-solve",1e-11*N*mx(P)); P(0,0)=-1; bool t=false; try{CholeskyDecomp D(P);}catch(std::exception&){t=true;} c.ok(t,"linalg:chol-indefinite"); }
        // least squares through SVD/QR on overdetermined systems: the residual is orthogonal to the columns
        { V y(m), w(m); for(int i=0;i<m;i++) { y[i]=c.nor(); w[i]=c.logu(.1,10); } V r; double rms; bool ww=c.coin(); linearMultiFit(B,y,ww?&w:NULL,r,&rms); V q=mv(B,r), g(m); double ss=0,sw=0; for(int i=0;i<m;i++) { double W=ww?w[i]:1; g[i]=W*(y[i]-q[i]); ss+=W*(y[i]-q[i])*(y[i]-q[i]); sw+=W; } SVDecomp T(B); if(T.S()[n-1]>1e-3) { V o=mv(B,g,true); for(double v: o) c.close(v,0,"fit:multi-normal",0,1e-9*m*10); c.ok(rms>=0 && (n<m||rms<1e-6),"fit:multi-rms"); if(n<m) c.close(rms*rms/(ss),1./m,"fit:multi-rms-value",1e-6); V z=T.solve(y), o2=mv(B,[&]{V d=mv(B,z);for(int i=0;i<m;i++)d[i]-=y[i];return d;}(),true); for(double v: o2) c.close(v,0,"linalg:svd-lsq",0,1e-9*m); } }
        { int M=c.irand(3,20); V X(M),Y(M),w(M); double o=c.nor()*10; for(int i=0;i<M;i++) { X[i]=o+c.nor(); Y[i]=c.nor(); w[i]=c.logu(.1,10); } bool ww=c.coin(); double sl,ic,rms; linearFit(X,Y,ww?&w:NULL,sl,ic,&rms); LD g0=0,g1=0,S=0,sw=0; for(int i=0;i<M;i++) { LD W=ww?w[i]:1, r=Y[i]-ic-LD(sl)*X[i]; g0+=W*r; g1+=W*r*(X[i]-o); S+=W*r*r; sw+=W; } c.close((double)g0,0,"fit:linear-0",0,1e-9*M*10); c.close((double)g1,0,"fit:linear-1",0,1e-9*M*10); c.close(rms*rms,(double)(S/M),"fit:linear-rms",1e-6,1e-10); double z=linearFitZero(X,Y,ww?&w:NULL,&rms); g1=S=0; for(int i=0;i<M;i++) { LD W=ww?w[i]:1,r=Y[i]-LD(z)*X[i]; g1+=W*r*X[i]; S+=W*r*r; } c.close((double)g1,0,"fit:zero",0,1e-9*M*100); c.close(rms*rms,(double)(S/M),"fit:zero-rms",1e-6,1e-10); }
        // banded and sparse storage
        { int w=c.irand(0,std::min(n-1,4)); BandMatrix<double> K(n,w); Matrix<double> D(n,n,0.); for(int i=0;i<n;i++) for(int j=std::max(0,i-w);j<=std::min(n-1,i+w);j++) { double v=c.nor()+(i==j?5*w+1:0); K(i,j)=v; D(i,j)=v; } eqm(c,Matrix<double>(K),D,"linalg:band-dense",0); eqm(c,SparseMatrix<double>(K),D,"linalg:band-sparse",0); V y=mv(D,x); eqv(c,solveBand(K,y),x,"linalg:band-solve",1e-10); V z(n); for(double& v: z) v=c.nor(); V z2=z; blas_dgemv(CblasNoTrans,2.,K,x,3.,z2); for(int i=0;i<n;i++) c.close(z2[i],2*y[i]+3*z[i],"linalg:band-gemv",1e-12,1e-12*N*10); V z3=z, yt=mv(D,x,true); blas_dgemv(CblasTrans,2.,K,x,3.,z3); for(int i=0;i<n;i++) c.close(z3[i],2*yt[i]+3*z[i],"linalg:band-gemv-t",1e-12,1e-12*N*10); c.ok(K.bandwidth()==(size_t)w&&K.rows()==(size_t)n,"linalg:band-size"); LD tot=0; for(size_t k=0;k<K.size();k++) { size_t r,s; double v=K.elem(k,r,s); c.ok(v==D(r,s),"linalg:band-elem"); tot+=v; } LD t2=0; for(int i=0;i<n;i++) for(int j=0;j<n;j++) t2+=D(i,j); c.close((double)tot,(double)t2,"linalg:band-all",1e-12,1e-12); BandMatrix<double> K2=K; blas_daxpy(.5,K,K2); c.close(K2.at(0,0),1.5*K.at(0,0),"linalg:band-axpy",1e-14); blas_dmul(2.,K2); c.close(K2.at(n-1,n-1),3*K.at(n-1,n-1),"linalg:band-mul",1e-14); if(w+1<n) c.ok(K.at(0,n-1)==0,"linalg:band-outside");
          for(int i=0;i<n;i++) K(i,i)=0; if(w==0) { bool t=false; try{ V q=solveBand(K,y); t=!std::isfinite(q[0]); }catch(std::exception&){t=true;} c.ok(t,"linalg:band-singular"); } }
        { std::vector<Triplet> t; Matrix<double> D(m,n,0.); int K=c.irand(0,2*m); for(int k=0;k<K;k++) { int i=c.irand(0,m-1), j=c.irand(0,n-1); if(D(i,j)!=0) continue; double v=c.nor(); t.push_back(Triplet(i,j,v)); D(i,j)=v; } SparseMatrix<double> sp(m,n,t), cp(sp); SparseMatrix<double> as; as=cp; eqm(c,sp,D,"linalg:sparse-at",0); eqm(c,Matrix<double>(as),D,"linalg:sparse-dense",0); c.ok(sp.size()==t.size()&&sp.values().size()==t.size(),"linalg:sparse-size"); for(size_t k=0;k<sp.size();k++) { size_t r,s; double v=sp.elem(k,r,s); c.ok(D(r,s)==v,"linalg:sparse-elem"); } V y(m); for(double& v: y) v=c.nor(); V g(m); blas_dgemv(CblasNoTrans,1.,sp,x,0.,g); eqv(c,g,mv(D,x),"linalg:sparse-gemv",1e-12); V h(n); blas_dgemv(CblasTrans,1.,sp,y,0.,h); eqv(c,h,mv(D,y,true),"linalg:sparse-gemv-t",1e-12*m); TransposedMatrix<double> T(sp); c.ok(T.rows()==(size_t)n && T.at(n-1,m-1)==D(m-1,n-1),"linalg:transposed"); SparseMatrix<double> R2(m,m), s2(sp), other=SparseMatrix<double>(m,n,t); blas_dgemm(CblasNoTrans,CblasTrans,2.,s2,other,0.,R2); Matrix<double> ref=mm(D,D,false,true); blas_dmul(2.,ref); eqm(c,R2,ref,"linalg:sparse-gemm",1e-12*n); }
        { Matrix<double> Y=rmat(c,n,m), R=rmat(c,m,m), R0=R; int ta=c.irand(0,1), tb=c.irand(0,1); Matrix<double> L_=ta?rmat(c,n,m):rmat(c,m,n), Rr=tb?rmat(c,m,n):Y; double al=c.nor(), be=c.coin()?0:c.nor(); blas_dgemm(ta?CblasTrans:CblasNoTrans,tb?CblasTrans:CblasNoTrans,al,L_,Rr,be,R); Matrix<double> ref=mm(L_,Rr,ta,tb); for(int i=0;i<m;i++) for(int j=0;j<m;j++) c.close(R(i,j),al*ref(i,j)+be*R0(i,j),"linalg:gemm",1e-12,1e-12*N*10); V y(m); for(double& v: y) v=c.nor(); V z=y; blas_dgemv(CblasNoTrans,al,B,x,be,z); V q=mv(B,x); for(int i=0;i<m;i++) c.close(z[i],al*q[i]+be*y[i],"linalg:gemv",1e-12,1e-12*N*10); V zt=x; blas_dgemv(CblasTrans,al,B,y,be,zt); V qt=mv(B,y,true); for(int i=0;i<n;i++) c.close(zt[i],al*qt[i]+be*x[i],"linalg:gemv-t",1e-12,1e-11*m); c.close(blas_ddot(x,x),blas_dnrm2(x),"linalg:dot",1e-13); V w=x; blas_daxpy(al,x,w); for(int i=0;i<n;i++) c.close(w[i],x[i]*(1+al),"linalg:axpy",1e-13,1e-14); blas_dmul(al,w); for(int i=0;i<n;i++) c.close(w[i],x[i]*(1+al)*al,"linalg:mul",1e-13,1e-14);
          int up=c.irand(0,1), un=c.irand(0,1), tr=c.irand(0,1); Matrix<double> T(n,n,0.), F=rmat(c,n,n); for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(up?j>=i:j<=i) T(i,j)=i==j?(un?1:F(i,i)+(F(i,i)>0?2:-2)):F(i,j)*.3; for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(!(up?j>=i:j<=i)||(un&&i==j)) ; else F(i,j)=T(i,j); V v=x; blas_dtrmv(up?CblasUpper:CblasLower,tr?CblasTrans:CblasNoTrans,un?CblasUnit:CblasNonUnit,F,v); eqv(c,v,mv(T,x,tr),"linalg:trmv",1e-12*N); Matrix<double> X=rmat(c,n,3), Z=X; bool left=true; blas_dtrsm(left?CblasLeft:CblasRight,up?CblasUpper:CblasLower,tr?CblasTrans:CblasNoTrans,un?CblasUnit:CblasNonUnit,al,F,Z); Matrix<double> ZZ=mm(T,Z,tr); for(int i=0;i<n;i++) for(int j=0;j<3;j++) c.close(ZZ(i,j),al*X(i,j),"linalg:trsm",0,1e-10*std::max(1.,mx(Z))*N); }
        bool t=false; try{ A.at(n,0); }catch(std::exception&){t=true;} c.ok(t,"linalg:range");t=t; c.ok(t,"linalg:lu-size"); (void)nA;
    });
    // nonlinear: least squares, systems, minimisation
    for(long it=0; it<c.n(300); it++) vh::run(c,"nonlin",std::to_string(it),[&]{
        double p0=c.uni(.5,3), p1=c.uni(.3,2), o=c.nor(); int M=c.irand(5,30); V X(M),Y(M); for(int i=0;i<M;i++) { X[i]=c.uni(0,3); Y[i]=p0*exp(-p1*X[i])+o; } FD F(3,M,[&](const double*p,double*r,double*d){ for(int i=0;i<M;i++) { double e=exp(-p[1]*X[i]); r[i]=p[0]*e+p[2]-Y[i]; if(d) { d[i*3]=e; d[i*3+1]=-p[0]*X[i]*e; d[i*3+2]=1; } } }); double in[3]={p0*c.uni(.7,1.3),p1*c.uni(.8,1.2),o+.1*c.nor()}, out[4]={0,0,0,-7}; V Xs=X; std::sort(Xs.begin(),Xs.end()); int n=nonlinearMultiFit(F,in,1e-10,200,out); c.ok(out[3]==-7,"nonlin:bounds"); if(Xs[M-1]-Xs[0]>1.5) for(int i=0;i<M;i++) c.close(out[0]*exp(-out[1]*X[i])+out[2],Y[i],"nonlin:fit",0,1e-5);
        int N=c.irand(1,5); V z(N); for(double& v: z) v=c.nor(); Matrix<double> A=rmat(c,N,N); for(int i=0;i<N;i++) A(i,i)+=4*N; FD G(N,N,[&](const double*x,double*r,double*d){ for(int i=0;i<N;i++) { if(r) r[i]=0; for(int j=0;j<N;j++) { double u=x[j]-z[j]; r[i]+=A(i,j)*(u+.2*u*u*u); if(d) d[i*N+j]=A(i,j)*(1+.6*u*u); } } }); V x0(N),xr(N+1,-7.); for(int i=0;i<N;i++) x0[i]=z[i]+c.nor(); findRootNdimDeriv(G,&x0[0],1e-10,200,&xr[0]); c.ok(xr[N]==-7,"nonlin:bounds2"); for(int i=0;i<N;i++) c.close(xr[i],z[i],"nonlin:root",0,1e-7);
        FN H(N,1,[&](const double*x,double*r){ double s=0; for(int i=0;i<N;i++) { double t=x[i]-z[i]; for(int j=0;j<i;j++) t+=.3*(x[j]-z[j]); s+=(1+i)*t*t; } r[0]=s+1; }); V st(N,.5), xm(N+1,-7.); int ni=findMinNdim(H,&x0[0],&st[0],1e-6,2000,&xm[0]); c.ok(xm[N]==-7,"nonlin:bounds3"); double v0,v1; H.eval(&x0[0],&v0); H.eval(&xm[0],&v1); c.ok(v1<=v0,"nonlin:min-decrease"); c.close(v1,1,"nonlin:min",1e-6); c.ok(ni<=2000,"nonlin:iterations");
        FD I(N,1,[&](const double*x,double*r,double*d){ if(r) H.eval(x,r); if(d) for(int k=0;k<N;k++) { d[k]=0; for(int i=k;i<N;i++) { double t=x[i]-z[i]; for(int j=0;j<i;j++) t+=.3*(x[j]-z[j]); d[k]+=2*(1+i)*t*(i==k?1:.3); } } }); findMinNdimDeriv(I,&x0[0],.1,1e-7,500,&xm[0]); H.eval(&xm[0],&v1); c.close(v1,1,"nonlin:min-deriv",1e-8);
    });
    // linear programming: feasibility, optimality via a known dual certificate; infeasible problems are reported
    long nlp=c.n(400), lpfail=0;
    for(long it=0; it<nlp; it++) vh::run(c,"linopt",std::to_string(it),[&]{ try {
        int nc=c.irand(1,6), nv=nc+c.irand(0,12); Matrix<double> A=rmat(c,nc,nv); V x(nv), y(nc), L(nv), lo(nv), hi(nv); bool bl=c.coin(), bh=c.coin(); for(int j=0;j<nv;j++) { lo[j]=bl?c.nor():0; hi[j]=bh?lo[j]+c.logu(.1,5):INFINITY; } for(double& v: y) v=c.nor(); V Ay=mv(A,y,true); int basic=0; for(int j=0;j<nv;j++) { int s=basic<nc&&c.coin()?0:bh?c.irand(1,2):1; if(s==0) { basic++; x[j]=bh?c.uni(lo[j],hi[j]):lo[j]+c.logu(.1,5); L[j]=Ay[j]; } else if(s==1) { x[j]=lo[j]; L[j]=Ay[j]+c.logu(.01,2); } else { x[j]=hi[j]; L[j]=Ay[j]-c.logu(.01,2); } }
        V b=mv(A,x); V E; V r=linearOptimizationSolve(A,b,L,bl?lo:E,bh?hi:E); if(!c.ok(r.size()==(size_t)nv,"linopt:size")) return; double S=10+mx(A); V rb=mv(A,r); for(int i=0;i<nc;i++) c.close(rb[i],b[i],"linopt:constraints",0,1e-6*S); double f=0,f0=0; for(int j=0;j<nv;j++) { c.ok(r[j]>=(bl?lo[j]:0)-1e-7*S && (!bh||r[j]<=hi[j]+1e-7*S),"linopt:bounds"); f+=L[j]*r[j]; f0+=L[j]*x[j]; } c.close(f,f0,"linopt:optimal",1e-6,1e-6*S);
        std::vector<Triplet> t; for(int i=0;i<nc;i++) for(int j=0;j<nv;j++) t.push_back(Triplet(i,j,A(i,j))); V rs=linearOptimizationSolve(SparseMatrix<double>(nc,nv,t),b,L,bl?lo:E,bh?hi:E); double fs=0; for(int j=0;j<nv;j++) fs+=L[j]*rs[j]; c.close(fs,f,"linopt:sparse",1e-7,1e-7*S);
        // approximate version: equals the exact optimum when penalties exceed the dual multipliers; violated constraints are charged otherwise
        V pen(nc); for(int i=0;i<nc;i++) pen[i]=fabs(y[i])*1.5+1; V ra=linearOptimizationSolveApprox(A,b,L,pen,bl?lo:E,bh?hi:E); double fa=0; V rba=mv(A,ra); for(int j=0;j<nv;j++) fa+=L[j]*ra[j]; for(int i=0;i<nc;i++) c.close(rba[i],b[i],"linopt:approx-exact",0,1e-5*S); c.close(fa,f0,"linopt:approx-optimal",1e-5,1e-5*S); V inf(nc,INFINITY); V ri=linearOptimizationSolveApprox(A,b,L,inf,bl?lo:E,bh?hi:E); double fi=0; for(int j=0;j<nv;j++) fi+=L[j]*ri[j]; c.close(fi,f0,"linopt:approx-infinite",1e-5,1e-5*S);
        { Matrix<double> P(1,nv,0.); for(int j=0;j<nv;j++) P(0,j)=c.logu(.1,1); V bb(1,-1.); bool th=false; try{ linearOptimizationSolve(P,bb); }catch(std::exception&){th=true;} c.ok(th,"linopt:infeasible"); V r0=linearOptimizationSolveApprox(P,bb,V(),V(1,1.)); for(double v: r0) c.close(v,0,"linopt:approx-infeasible",0,1e-6); th=false; try{ linearOptimizationSolve(A,V(nc+1),L); }catch(std::exception&){th=true;} c.ok(th,"linopt:size-check"); th=false; try{ linearOptimizationSolve(A,b,V(nv+1)); }catch(std::exception&){th=true;} c.ok(th,"linopt:size-check2"); V neg(1,-1.); std::vector<double> Ln(nv,-1.); Matrix<double> Z(1,nv,0.); Z(0,0)=1; th=nv<2; try{ if(nv>1) { V q=linearOptimizationSolve(Z,V(1,1.),Ln); } }catch(std::exception&){th=true;} c.ok(th,"linopt:unbounded"); }
        } catch(std::runtime_error& e) { if(std::string(e.what()).find("infeasible")==std::string::npos) throw; lpfail++; c.event("LP solver gave up on a feasible problem"); }
    });
    vh::run(c,"linopt-failures","",[&]{ c.ok(lpfail<=3+0.03*nlp,"linopt:failures",Str()<<lpfail<<" of "<<nlp); });
}
static void special(Ctx& c) {
    using namespace boost::math; typedef boost::math::policies::policy<boost::math::policies::overflow_error<boost::math::policies::ignore_error>,boost::math::policies::domain_error<boost::math::policies::ignore_error>,boost::math::policies::pole_error<boost::math::policies::ignore_error>> P; P p;
    for(long it=0; it<c.n(4000); it++) { double x=c.nor()*c.logu(1e-6,30), ax=fabs(x), q=c.uni(-.999,.999), u=c.uni(.001,20), k=c.coin(.1)?0:c.uni(0,.9999), ph=c.nor()*c.logu(.01,4); int n=c.irand(0,12); 
        vh::run(c,"special",Str()<<"x="<<x<<" q="<<q<<" u="<<u<<" k="<<k<<" ph="<<ph<<" n="<<n,[&]{
            c.close(math::erf(x),(double)erfl(x),"sf:erf",1e-10,1e-15); c.close(erfl(erfinv(q)),q,"sf:erfinv",1e-9,1e-13); c.close(math::gamma(u),(double)tgammal(u),"sf:gamma",1e-12); c.close(math::lngamma(u),(double)lgammal(u),"sf:lngamma",1e-12,1e-13); double y=c.logu(1e-3,50); c.close(gammainc(u,y),(double)boost::math::tgamma((LD)u,(LD)y,p),"sf:gammainc",1e-9,1e-280); { double w=-c.uni(.05,2.95); if(fabs(w-round(w))>.02) { LD m=w, g; int s=0; std::function<LD(LD)> G=[&](LD a)->LD{ return a>0?boost::math::tgamma(a,(LD)y,p):(G(a+1)-powl(y,a)*expl(-y))/a; }; g=G(m); (void)s; if(y<5) c.close(gammainc(w,y),(double)g,"sf:gammainc-negative",1e-2); } }
            c.close(math::digamma(u),(double)boost::math::digamma((LD)u),"sf:digamma",1e-11,1e-13); int nn=n+1; c.close(math::digamma(nn),(double)boost::math::digamma((LD)nn),"sf:digamma-int",1e-12); LD f=1; for(int i=2;i<=n;i++) f*=i; c.close(math::factorial(n),(double)f,"sf:factorial",1e-14); c.close(lnfactorial(n),(double)logl(f),"sf:lnfactorial",1e-13,1e-15); LD d=1; for(int i=n;i>1;i-=2) d*=i; c.close(dfactorial(n),(double)d,"sf:dfactorial",1e-14);
            c.close(ellintK(k),(double)boost::math::ellint_1((LD)k),"sf:ellintK",1e-12); c.close(math::ellintE(k),(double)boost::math::ellint_2((LD)k),"sf:ellintE",1e-12); c.close(ellintF(ph,k),(double)boost::math::ellint_1((LD)k,(LD)ph),"sf:ellintF",1e-10); c.close(math::ellintE(ph,k),(double)boost::math::ellint_2((LD)k,(LD)ph),"sf:ellintE2",1e-10); double nu=c.uni(-.95,3); double pp=c.uni(-1.5,1.5); c.close(ellintP(pp,k,nu),(double)boost::math::ellint_3((LD)k,(LD)-nu,(LD)pp),"sf:ellintP",1e-9);
            double z=c.logu(1e-3,50); c.close(besselJ(n,z),(double)boost::math::cyl_bessel_j(n,(LD)z),"sf:besselJ",1e-9,1e-12); c.close(besselY(n,z),(double)boost::math::cyl_neumann(n,(LD)z),"sf:besselY",1e-9,1e-12); c.close(besselI(n,z),(double)boost::math::cyl_bessel_i(n,(LD)z),"sf:besselI",1e-9,1e-290); c.close(besselK(n,z),(double)boost::math::cyl_bessel_k(n,(LD)z),"sf:besselK",1e-9,1e-290);
            double lw=c.logu(1e-8,1e8), lx=-exp(-1)*(1-c.logu(1e-10,1)), W=lambertW(lw); c.close(W*exp(W),lw,"sf:lambertW",1e-11); W=lambertW(lx); c.close(W*exp(W),lx,"sf:lambertW0",1e-9,1e-14); c.ok(W>=-1,"sf:lambert-branch0"); double W1=lambertW(lx,true); c.close(W1*exp(W1),lx,"sf:lambertW1",1e-9,1e-14); c.ok(W1<=-1,"sf:lambert-branch1"); c.ok(std::isnan(lambertW(-exp(-1)-c.logu(1e-6,1))),"sf:lambert-domain"); 
            double e=c.coin(.1)?(c.coin()?0:1):1-c.logu(1e-6,1), M=c.nor()*c.logu(1e-6,30), E=solveKepler(e,M), Mw=M-2*M_PI*floor(M/(2*M_PI)); double res=E-e*sin(E)-M; res-=2*M_PI*round(res/2/M_PI); c.close(res,0,"sf:kepler",0,1e-14*(10+fabs(M))); (void)Mw;
            double qq=c.coin(.3)?c.nor()*1e-9:c.uni(-1.5,1.5), xx=c.nor(); if(1+qq*xx>.01) c.close(qexp(xx,qq),(double)expl(log1pl((LD)qq*xx)/qq),"sf:qexp",1e-8); c.close(qexp(xx,0),exp(xx),"sf:qexp0",1e-14);
            { double a=c.uni(.1,3), b=c.uni(.1,3), cc=a+b+c.uni(-1,2), t=c.coin()?c.uni(-.95,.95):-c.logu(.5,100); if(fabs(cc-round(cc))<1e-3||cc<.1||fabs(a-b-round(a-b))<.02||fabs(cc-a-b-round(cc-a-b))<.02) return; double h=hypergeom2F1(a,b,cc,t); // Euler integral or series
              LD sr=0; if(fabs(t)<.9) { LD term=1; for(int i=0;i<2000;i++) { sr+=term; term*=(LD(a)+i)*(LD(b)+i)/(LD(cc)+i)/(i+1)*t; } c.close(h,(double)sr,"sf:2F1",1e-8); } else if(t<-1) { LD zz=t/(LD(t)-1),term=1; if(zz<.97) { for(int i=0;i<20000;i++) { sr+=term; term*=(LD(a)+i)*(LD(cc)-b+i)/(LD(cc)+i)/(i+1)*zz; } c.close(h,(double)(sr*powl(1-LD(t),-LD(a))),"sf:2F1-neg",1e-7); } } }
            { int m=c.irand(0,8); double t=1+c.logu(1e-3,20), dq, Q=legendreQ(m-.5,t,&dq); // integral representation of the toroidal function
              LD I=0,D=0; int NN=4000; for(int i=0;i<NN;i++) { LD s=-4.5L+9.0L*(i+.5L)/NN; LD uu=expl(s*1.5L); (void)uu; } // Q_{m-1/2}(x) = int_0^pi cos(m t)/sqrt(2(x-cos t)) dt
              int NT=20000; for(int i=0;i<NT;i++) { LD th=M_PIl*(i+.5L)/NT, w=2*(t-cosl(th)); I+=cosl(m*th)/sqrtl(w); D-=cosl(m*th)/(w*sqrtl(w)); } I*=M_PIl/NT; D*=M_PIl/NT; if(it%40==0 && I>1e-9) { c.close(Q,(double)I,"sf:legendreQ",1e-5); c.close(dq,(double)D,"sf:legendreQ-d",3e-5); } }
        }); }
    vh::run(c,"special-domain","",[&]{ c.ok(std::isnan(erfinv(1.5))&&std::isnan(erfinv(-1.5)),"sf:erfinv-domain"); c.ok(erfinv(0.)==0,"sf:erfinv0"); c.ok(!std::isfinite(ellintK(1.))||ellintK(1.)>1e6,"sf:ellintK1"); c.ok(std::isnan(ellintK(1.1))&&std::isnan(math::ellintE(1.1)),"sf:ellint-domain"); c.ok(!std::isfinite(besselY(0,0.))&&!std::isfinite(besselK(0,0.)),"sf:bessel-singular"); c.ok(!std::isfinite(math::gamma(-2)),"sf:gamma-pole"); c.ok(besselJ(0,0)==1&&besselI(0,0)==1&&besselJ(1,0)==0,"sf:bessel0"); });
}
struct Lin: IOdeSystem { int n; V A; V w; Lin(int k): n(k), A(k*k), w(k) {} void eval(double t,const double x[],double d[]) const { for(int i=0;i<n;i++) { d[i]=w[i]*cos(t); for(int j=0;j<n;j++) d[i]+=A[i*n+j]*x[j]; } } unsigned size() const { return n; } };
struct Osc: IOde2System { int n; V k, g; Osc(int m): n(m), k(m), g(m) {} void eval(double t,double a[],double b[]) const { (void)t; for(int i=0;i<n*n;i++) a[i]=b[i]=0; for(int i=0;i<n;i++) { a[i*n+i]=-k[i]; b[i*n+i]=-2*g[i]; } } unsigned size() const { return 2*n; } };
struct Kep: IOdeSystemHermite { void eval(double,const double x[],double d[]) const { for(int i=0;i<3;i++) d[i]=x[i+3]; double r2=x[0]*x[0]+x[1]*x[1]+x[2]*x[2],r3=r2*sqrt(r2); for(int i=0;i<3;i++) d[i+3]=-x[i]/r3; }
    void eval(double,const double x[],double a[],double b[]) const { double r2=x[0]*x[0]+x[1]*x[1]+x[2]*x[2],r3=r2*sqrt(r2),rv=x[0]*x[3]+x[1]*x[4]+x[2]*x[5]; for(int i=0;i<3;i++) { a[i]=-x[i]/r3; b[i]=-x[i+3]/r3+3*rv*x[i]/r3/r2; } } unsigned size() const { return 6; } };
static void ode(Ctx& c) {
    for(long it=0; it<c.n(300); it++) vh::run(c,"ode",std::to_string(it),[&]{
        // block-diagonal linear system with exact solution, arbitrary time origin, both directions
        int nb=c.irand(1,3), n=2*nb; Lin s(n); V g(nb),o(nb); for(int i=0;i<nb;i++) { g[i]=c.uni(-.3,.3); o[i]=c.logu(.3,5); s.A[(2*i)*n+2*i]=s.A[(2*i+1)*n+2*i+1]=g[i]; s.A[(2*i)*n+2*i+1]=-o[i]; s.A[(2*i+1)*n+2*i]=o[i]; } double t0=c.coin()?0:c.nor()*10, T=c.logu(.5,20)*(c.coin(.3)?-1:1), acc=c.logu(1e-12,1e-5); V x0(n); for(double& v: x0) v=c.nor();
        auto ex=[&](double t){ V r(n); for(int i=0;i<nb;i++) { double e=exp(g[i]*(t-t0)), cs=cos(o[i]*(t-t0)), sn=sin(o[i]*(t-t0)); r[2*i]=e*(x0[2*i]*cs-x0[2*i+1]*sn); r[2*i+1]=e*(x0[2*i]*sn+x0[2*i+1]*cs); } return r; };
        OdeSolverDOP853 S(s,acc); S.init(&x0[0],t0); c.ok(S.getTime()==t0,"ode:init-time"); int st=0; double sc=0,grow=1; for(double v: x0) sc=std::max(sc,fabs(v)); for(double v: g) grow=std::max(grow,exp(fabs(v*T))); double om=*std::max_element(o.begin(),o.end()); double tp=t0; while((T>0?S.getTime()<t0+T:S.getTime()>t0+T) && st<100000) { double dt=S.doStep(T>0?+0.:-0.); st++; if(!c.ok(dt*T>0,"ode:direction")) break; c.ok(S.getTime()==tp+dt||fabs(S.getTime()-tp-dt)<1e-13*(fabs(tp)+fabs(dt)),"ode:time"); for(int q=0;q<3;q++) { double t=tp+dt*(q==0?c.uni():q-1); V r=ex(t); double e=0; for(int i=0;i<n;i++) e=std::max(e,fabs(S.getSol(t,i)-r[i])); double tl=(acc*300*(1+fabs(t-t0)*om)+1e-12)*sc*grow; c.ok(e<=tl,q==0?"ode:dense":"ode:solution",Str()<<"error "<<e<<" tol "<<tl<<" acc="<<acc); } tp=S.getTime(); } c.event("ode steps",st);
        bool th=false; try{ S.getSol(tp,n); }catch(std::exception&){th=true;} c.ok(th,"ode:index"); double fx=c.uni(.001,.01); S.init(&x0[0],t0); double d=S.doStep(fx); c.ok(d>0&&d<=fx*(1+1e-13),"ode:fixed-step"); { V r=ex(t0+d); for(int i=0;i<n;i++) c.close(S.getSol(t0+d,i),r[i],"ode:fixed-solution",0,1e-6*sc); }
        // Kepler problem with the Hermite scheme
        { Kep k; double e=c.uni(0,.6); double y[6]={1-e,0,0,0,sqrt((1+e)/(1-e)),0}; double ac=c.logu(1e-9,1e-4); OdeSolverHermite H(k,ac); H.init(y,t0); double tq=t0; int m=0; while(H.getTime()<t0+6 && m<100000) { double dt=H.doStep(); m++; if(!c.ok(dt>0,"ode:hermite-step")) break; double t=tq+dt*(c.coin()?1:c.uni()); double E=solveKepler(e,t-t0), x=cos(E)-e, yy=sqrt(1-e*e)*sin(E); double er=hypot(H.getSol(t,0)-x,H.getSol(t,1)-yy); c.ok(er<5e-2*std::pow(ac/1e-4,.4)+1e-6,"ode:hermite",Str()<<er<<" acc="<<ac<<" e="<<e); tq=H.getTime(); } }
        // second-order linear systems
        auto two=[&](auto* S2, int N, int ord, Osc& q, int nv, const char* nm) { V y0(2*N*nv); for(double& v: y0) v=c.nor(); double h=c.logu(.02,.3); S2->init(&y0[0],t0); double t=t0; for(int st2=0;st2<20;st2++) { S2->doStep(h); for(int w=0;w<2;w++) { double tt=t+h*(w?1:c.uni()); for(int v=0;v<nv;v++) for(int i=0;i<N;i++) { double G=q.g[i], W2=q.k[i]-G*G, W=sqrt(fabs(W2)), D=tt-t0, a=y0[v*2*N+i], b=(y0[v*2*N+N+i]+G*a)/W, cs=W2>0?cos(W*D):cosh(W*D), sn=W2>0?sin(W*D):sinh(W*D), ee=exp(-G*D), x=ee*(a*cs+b*sn), dx=-G*x+ee*W*(W2>0?-a*sn+b*cs:a*sn+b*cs); double S=(fabs(a)+fabs(b)+fabs(x))*(1+W)*exp(fabs(G)*D+(W2>0?0:W*D)); double er=std::max(fabs(S2->getSol(tt,v*2*N+i)-x),fabs(S2->getSol(tt,v*2*N+N+i)-dx)); double tol=S*(w?1e-5:1e-3)*(w?std::pow(h*(1+W+fabs(G))/1.5,ord-1):pow(h*(1+W+fabs(G))/1.5,4))*100+1e-12*S; c.ok(er<=tol,std::string("ode2:")+nm+(w?":step":":dense"),Str()<<er<<" tol "<<tol<<" h="<<h<<" W="<<W); } } t+=h; } };
        { int N=1+it%3, nv=c.irand(1,3); Osc q(N); for(int i=0;i<N;i++) { q.k[i]=c.uni(-1,4); q.g[i]=c.uni(-.3,.3); } if(N==1) { Ode2SolverGL3<1> a(q,nv); two(&a,1,6,q,nv,"gl3"); Ode2SolverGL4<1> b(q,nv); two(&b,1,8,q,nv,"gl4"); } else if(N==2) { Ode2SolverGL3<2> a(q,nv); two(&a,2,6,q,nv,"gl3"); Ode2SolverGL4<2> b(q,nv); two(&b,2,8,q,nv,"gl4"); } else { Ode2SolverGL3<3> a(q,nv); two(&a,3,6,q,nv,"gl3"); Ode2SolverGL4<3> b(q,nv); two(&b,3,8,q,nv,"gl4"); } }
    });
}
static void sph(Ctx& c) {
    for(long it=0; it<c.n(500); it++) vh::run(c,"sphharm",std::to_string(it),[&]{
        int lmax=c.irand(0,20), m=c.irand(0,lmax); double th=c.coin(.2)?c.logu(1e-9,1e-2):c.uni(0,M_PI); if(c.coin(.1)) th=M_PI-th; double tau=cos(th)/(1+sin(th)); if(th<1e-2) tau=1-2*tan(th/2)/(1+tan(th/2)); int N=lmax-m+1; V P(N+1,-7.),D(N+1,-7.),E(N+1,-7.),P0(N+1,-7.); sphHarmArray(lmax,m,tau,&P[0],&D[0],&E[0]); sphHarmArray(lmax,m,tau,&P0[0]); c.ok(P[N]==-7&&D[N]==-7&&E[N]==-7,"sph:bounds");
        double sth=(1-tau*tau)/(1+tau*tau), cth=2*tau/(1+tau*tau); double ths=atan2(sth,cth);
        auto Y=[&](int l,LD t)->LD{ LD x=cosl(t),s=sinl(t); LD pmm=1; for(int i=1;i<=m;i++) pmm*=-(2*i-1)*s; LD a=pmm,b=x*(2*m+1)*pmm; if(l==m) b=a; else for(int i=m+2;i<=l;i++) { LD q=(x*(2*i-1)*b-(i+m-1)*a)/(i-m); a=b; b=q; } LD nrm=(2*l+1)/(4*M_PIl); for(int i=l-m+1;i<=l+m;i++) nrm/=i; return b*sqrtl(nrm); };
        for(int l=m;l<=lmax;l++) { LD y=Y(l,ths), h=1e-3L, d=(8*(Y(l,ths+h)-Y(l,ths-h))-(Y(l,ths+2*h)-Y(l,ths-2*h)))/(12*h), e=(16*(Y(l,ths+h)+Y(l,ths-h))-(Y(l,ths+2*h)+Y(l,ths-2*h))-30*y)/(12*h*h); double S=sqrt(2*l+1); c.close(P[l-m],(double)y,"sph:value",1e-10,1e-12*S); c.close(P0[l-m],P[l-m],"sph:value-only",1e-14,1e-15); c.close(D[l-m],(double)d,"sph:deriv",1e-6,1e-8*S*(1+l*l)); c.close(E[l-m],(double)e,"sph:deriv2",1e-5,1e-4*(ths<1e-2||ths>3.13)+3e-15*S*(1+l*l*l*l)/(1e-16+std::pow(sin(ths),2))+1e-7*S*(1+l*l*l*l)); }
        { int mm=c.irand(1,24); double ph=c.nor()*3; V o(2*mm+1,-7.); trigMultiAngle(ph,mm,true,&o[0]); c.ok(o[2*mm]==-7,"sph:trig-bounds"); for(int i=1;i<=mm;i++) { c.close(o[i-1],cos(i*ph),"sph:cos",0,1e-13*i); c.close(o[mm+i-1],sin(i*ph),"sph:sin",0,1e-13*i); } V q(mm+1,-7.); trigMultiAngle(ph,mm,false,&q[0]); c.ok(q[mm]==-7,"sph:trig-bounds2"); for(int i=0;i<mm;i++) c.close(q[i],o[i],"sph:cos-only",1e-13,1e-13); }
        { int mx_=c.irand(0,12); bool us=c.coin(); FourierTransformForward F(mx_,us); V a(2*mx_+1); for(double& v: a) v=c.nor(); if(!us) for(int i=0;i<mx_;i++) a[i]=0; int st=c.irand(1,3); V f(F.size()*st,1e300); for(unsigned i=0;i<F.size();i++) { double s=0,p=F.phi(i); for(int k=-mx_;k<=mx_;k++) s+=a[k+mx_]*(k<0?sin(-k*p):cos(k*p)); f[i*st]=s; } V o(F.size()+1,-7.); F.transform(&f[0],&o[0],st); c.ok(o[F.size()]==-7,"fourier:bounds"); for(int k=us?-mx_:0;k<=mx_;k++) c.close(o[us?k+mx_:k],a[k+mx_]*(k==0?2*M_PI:M_PI),"fourier:coefs",1e-11,1e-11); }
        { static const int SY[]={coord::ST_NONE,coord::ST_REFLECTION,coord::ST_BISYMMETRIC,coord::ST_TRIAXIAL,coord::ST_AXISYMMETRIC,coord::ST_SPHERICAL,coord::ST_XREFLECTION,coord::ST_YREFLECTION,coord::ST_ZREFLECTION,coord::ST_ZROTATION}; int sy=SY[c.irand(0,9)], L=c.irand(0,10), M=c.irand(0,L); if(sy==coord::ST_SPHERICAL) L=M=0; if(sy==coord::ST_AXISYMMETRIC||sy==coord::ST_ZROTATION) M=0; SphHarmIndices ind(L,M,(coord::SymmetryType)sy); V co(ind.size()); int cnt=0; for(int q=ind.mmin();q<=ind.mmax;q++) for(int l=ind.lmin(q);l<=ind.lmax;l+=ind.step) { co[ind.index(l,q)]=c.nor(); cnt++; c.ok(SphHarmIndices::index_l(ind.index(l,q))==l && SphHarmIndices::index_m(ind.index(l,q))==q,"sph:index"); }
          // the function built from the allowed harmonics has the declared symmetry
          auto f=[&](double t,double p){ LD s=0; for(int q=-L;q<=L;q++) for(int l=std::abs(q);l<=L;l++) { double k=co[ind.index(l,q)]; if(k==0) continue; V w(l-std::abs(q)+1); sphHarmArray(l,std::abs(q),cos(t)/(1+sin(t)),&w[0]); s+=k*w.back()*(q==0?1:(q>0?cos(q*p):sin(-q*p))*M_SQRT2); } return (double)(s*2*sqrt(M_PI)); };
          double t=c.uni(.1,3), p=c.uni(0,6), v=f(t,p), inv=sphHarmTransformInverse(ind,&co[0],cos(t)/(1+sin(t)),p); c.close(inv,v,"sph:inverse",1e-10,1e-10*(1+cnt)); if(coord::isXReflSymmetric(ind.symmetry())) c.close(f(t,M_PI-p),v,"sph:x-symmetry",1e-9,1e-9*cnt); if(coord::isYReflSymmetric(ind.symmetry())) c.close(f(t,-p),v,"sph:y-symmetry",1e-9,1e-9*cnt); if(coord::isZReflSymmetric(ind.symmetry())) c.close(f(M_PI-t,p),v,"sph:z-symmetry",1e-9,1e-9*cnt); if(coord::isReflSymmetric(ind.symmetry())) c.close(f(M_PI-t,p+M_PI),v,"sph:reflection",1e-9,1e-9*cnt); if(coord::isZRotSymmetric(ind.symmetry())) c.close(f(t,p+1),v,"sph:rotation",1e-9,1e-9*cnt);
          // lossless transform of a band-limited function
          SphHarmTransformForward tr(ind); V val(tr.size()),out(ind.size()+1,-7.); for(unsigned i=0;i<tr.size();i++) { double ct=tr.costheta(i), ph=tr.phi(i); val[i]=f(acos(ct),ph); } tr.transform(&val[0],&out[0]); c.ok(out[ind.size()]==-7,"sph:transform-bounds"); for(unsigned i=0;i<ind.size();i++) c.close(out[i],co[i],"sph:lossless",1e-9,1e-9*(1+cnt));
          SphHarmIndices g=getIndicesFromCoefs(co); bool all=true; for(int q=-L;q<=L;q++) for(int l=std::abs(q);l<=L;l++) if(co[ind.index(l,q)]!=0) { bool used=q>=g.mmin() && q<=g.mmax && l>=g.lmin(q) && (l-g.lmin(q))%g.step==0; all=all&&used; } c.ok(all,"sph:from-coefs"); std::vector<int> az=getIndicesAzimuthal(M,(coord::SymmetryType)sy); std::set<int> sa(az.begin(),az.end()); for(int q=ind.mmin();q<=ind.mmax;q++) if(ind.lmin(q)<=ind.lmax) c.ok(sa.count(q),"sph:azimuthal",Str()<<q); c.ok(sa.size()==az.size(),"sph:azimuthal-unique"); }
    });
    for(long it=0; it<c.n(300); it++) vh::run(c,"polygon",std::to_string(it),[&]{
        // star-shaped polygons, possibly non-convex and clockwise
        int n=c.irand(3,9); V an(n); for(double& a: an) a=c.uni(0,2*M_PI); std::sort(an.begin(),an.end()); double gap=an[0]+2*M_PI-an[n-1]; for(int i=1;i<n;i++) gap=std::max(gap,an[i]-an[i-1]); if(gap>3) throw vh::Skip(); double x0=c.nor(),y0=c.nor(); Polygon P(n); for(int i=0;i<n;i++) { double r=c.uni(.2,2); P[i]=Point2d(x0+r*cos(an[i]),y0+r*sin(an[i])); } LD A=0,Sx=0,Sy=0; for(int i=0;i<n;i++) { Point2d a=P[i],b=P[(i+1)%n]; LD w=(LD)a.x*b.y-(LD)b.x*a.y; A+=w/2; Sx+=w*(a.x+b.x)/6; Sy+=w*(a.y+b.y)/6; } c.close(polygonArea(P),(double)A,"poly2d:area",1e-12); Polygon Q(P.rbegin(),P.rend()); c.close(polygonArea(Q),-(double)A,"poly2d:area-reversed",1e-12);
        auto in=[&](double x,double y){ bool r=false; for(int i=0,j=n-1;i<n;j=i++) if((P[i].y>y)!=(P[j].y>y) && x<(P[j].x-P[i].x)*(y-P[i].y)/(P[j].y-P[i].y)+P[i].x) r=!r; return r; }; int ins=0; for(int k=0;k<30;k++) { double x=x0+c.uni(-2,2), y=y0+c.uni(-2,2); bool r=in(x,y); ins+=r; c.ok(isPointInsidePolygon(x,y,P)==r,"poly2d:inside",Str()<<x<<","<<y); } c.event("points inside",ins);
        Rectangle R(x0-c.uni(.1,1.5),y0-c.uni(.1,1.5),x0+c.uni(.1,1.5),y0+c.uni(.1,1.5)); auto half=[&](Polygon q,int ax,double v,int sg){ Polygon o; for(size_t i=0;i<q.size();i++) { Point2d a=q[i],b=q[(i+1)%q.size()]; double da=sg*((ax?a.y:a.x)-v), db=sg*((ax?b.y:b.x)-v); if(da>=0) o.push_back(a); if(da*db<0) { double t=da/(da-db); o.push_back(Point2d(a.x+t*(b.x-a.x),a.y+t*(b.y-a.y))); } } return o; }; Polygon ref=half(half(half(half(P,0,R.lower.x,1),0,R.upper.x,-1),1,R.lower.y,1),1,R.upper.y,-1); auto area=[&](const Polygon& q){ double s=0; for(size_t i=0;i<q.size();i++) { Point2d a=q[i],b=q[(i+1)%q.size()]; s+=.5*((a.x-x0)*(b.y-y0)-(b.x-x0)*(a.y-y0)); } return s; }; Polygon cl=clipPolygonByRectangle(P,R); c.close(area(cl),area(ref),"poly2d:clip-area",1e-10,1e-12); for(auto& v: cl) c.ok(v.x>=R.lower.x-1e-12&&v.x<=R.upper.x+1e-12&&v.y>=R.lower.y-1e-12&&v.y<=R.upper.y+1e-12,"poly2d:clip-inside"); Rectangle far(x0+5,y0+5,x0+6,y0+6); c.close(area(clipPolygonByRectangle(P,far)),0,"poly2d:clip-empty",0,1e-12);
        // integrals of B-splines: partition of unity gives the area, and linear combinations reproduce first moments
        V gx,gy; for(int i=0;i<c.irand(5,9);i++) {} int nx=c.irand(3,9),ny=c.irand(3,9); for(int i=0;i<nx;i++) gx.push_back(x0-2.1+4.2*i/(nx-1)); for(int i=0;i<ny;i++) gy.push_back(y0-2.1+4.2*(i+(i>0&&i<ny-1?c.uni(-.3,.3):0))/(ny-1));
        auto test=[&](auto& bx, auto& by, int deg) { int NX=bx.numValues(),NY=by.numValues(); V o(NX*NY+1,0.); o.back()=-7; bool ob=computeBsplineIntegralsOverPolygon(P,bx,by,&o[0]); c.ok(o.back()==-7,"poly2d:bspline-bounds"); c.ok(!ob,"poly2d:bspline-inside"); LD s=0,sx=0,sy=0; for(int i=0;i<NX*NY;i++) { s+=o[i]; c.ok(o[i]>=-1e-12,"poly2d:bspline-positive"); } c.close((double)s,(double)A,"poly2d:bspline-area",1e-9); if(deg>=1) { auto gre=[&](const V& g,int k){ double r=0; for(int j=k-deg+1;j<=k;j++) r+=g[std::min<int>(std::max(j,0),g.size()-1)]; return r/deg; }; for(int iy=0;iy<NY;iy++) for(int ix=0;ix<NX;ix++) { sx+=o[iy*NX+ix]*(gre(gx,ix)-x0); sy+=o[iy*NX+ix]*(gre(gy,iy)-y0); } c.close((double)sx,(double)(Sx-A*x0),"poly2d:bspline-mx",1e-8,1e-9); c.close((double)sy,(double)(Sy-A*y0),"poly2d:bspline-my",1e-8,1e-9); } V o2(NX*NY,0.); computeBsplineIntegralsOverPolygon(Q,bx,by,&o2[0]); for(int i=0;i<NX*NY;i++) c.close(o2[i],o[i],"poly2d:bspline-orientation",1e-9,1e-12); Polygon big; for(auto& v: P) big.push_back(Point2d(v.x+1.5,v.y)); V o3(NX*NY,0.); double mxx=-1e300; for(auto& v: big) mxx=std::max(mxx,v.x); bool ob3=computeBsplineIntegralsOverPolygon(big,bx,by,&o3[0]); c.ok(ob3==(mxx>gx.back()),"poly2d:out-of-bounds"); LD s3=0; for(double v: o3) s3+=v; Polygon cb=half(big,0,gx.back(),-1); c.close((double)s3,area(cb),"poly2d:bspline-clipped",1e-8,1e-9); };
        switch(it%4) { case 0: { BsplineInterpolator1d<0> a(gx),b(gy); test(a,b,0); break; } case 1: { BsplineInterpolator1d<1> a(gx),b(gy); test(a,b,1); break; } case 2: { BsplineInterpolator1d<2> a(gx),b(gy); test(a,b,2); break; } default: { BsplineInterpolator1d<3> a(gx),b(gy); test(a,b,3); } }
    });
}
int main(int argc, char** argv) {
    Ctx c(argc,argv); if(c.has("roots")) roots(c); if(c.has("poly")) poly(c); if(c.has("quad")) quad(c); if(c.has("linalg")) linalg(c); if(c.has("special")) special(c); if(c.has("ode")) ode(c); if(c.has("sph")) sph(c); c.done(); return 0;
}
