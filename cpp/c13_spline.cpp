// C13: splines and other approximants. Oracles: piecewise-polynomial structure recovered from samples, defining continuity and
// boundary conditions, independent Cox-de Boor basis, Gauss-Legendre quadrature, dense scans, tensor composition.
#include "math_spline.h"
#include "math_core.h"
#include "math_linalg.h"
#include "math_gausshermite.h"
#include "vh.h"
#include <algorithm>
#include <functional>
#include <memory>
using vh::Ctx; using vh::Str; typedef std::vector<double> V; typedef long double LD;
static const LD GX[8]={0.0950125098376374402L,0.2816035507792589132L,0.4580167776572273863L,0.6178762444026437484L,0.7554044083550030339L,0.8656312023878317439L,0.9445750230732325761L,0.9894009349916499326L};
static const LD GW[8]={0.1894506104550684963L,0.1826034150449235889L,0.1691565193950025382L,0.1495959888165767321L,0.1246289712555338720L,0.0951585116824927848L,0.0622535239386478929L,0.0271524594117540949L};
template<class F> static LD gl(F f, LD a, LD b) { LD s=0; for(int i=0;i<8;i++) s+=GW[i]*(f(.5L*(a+b)+.5L*(b-a)*GX[i])+f(.5L*(a+b)-.5L*(b-a)*GX[i])); return s*(b-a)/2; }
// integrate over [a,b] split at the nodes; zero outside of the grid
template<class F> static LD glgrid(F f, const V& x, LD a, LD b, int sub=1) {
    if(a>b) return -glgrid(f,x,b,a,sub); LD s=0; a=std::max<LD>(a,x.front()); b=std::min<LD>(b,x.back());
    for(size_t i=0;i+1<x.size();i++) { LD l=std::max<LD>(a,x[i]), r=std::min<LD>(b,x[i+1]); if(l<r) for(int k=0;k<sub;k++) s+=gl(f,l+(r-l)*k/sub,l+(r-l)*(k+1)/sub); } return s;
}
static V rgrid(Ctx& c, int n, double span=0) {
    V x(n); double sc=c.logu(1e-3,1e3), off=c.coin(.3)?0:c.nor()*sc*3; int kind=c.irand(0,3); double q=c.uni(1.05,1.6), h=1; x[0]=0;
    if(n*log(q)>7) q=exp(7./n);
    for(int i=1;i<n;i++) { x[i]=x[i-1]+(kind==0?1:kind==1?c.uni(.2,1.5):kind==2?h:c.logu(.05,2)); h*=q; }
    for(int i=0;i<n;i++) x[i]=off+sc*x[i]/x[n-1]*(span>0?span:1); return x;
}
static std::string js(const V& v) { Str s; s<<"["; for(size_t i=0;i<v.size();i++) s<<(i?",":"")<<v[i]; s<<"]"; return s; }
static double amax(const V& v) { double m=0; for(double a: v) m=std::max(m,fabs(a)); return m; }
static V rvals(Ctx& c, const V& x) {
    int n=x.size(), k=c.irand(0,5); V f(n); double amp=c.logu(1e-3,1e3), ph=c.uni(0,6), w=c.uni(1,8)/(x.back()-x[0]), s=c.nor();
    for(int i=0;i<n;i++) { double u=(x[i]-x[0])*w; f[i]=amp*(k==0?sin(u+ph):k==1?c.nor():k==2?exp(-u)+.1*s:k==3?(u>2?1:0)+.01*s:k==4?(i?f[i-1]/amp+c.logu(1e-3,1):0):(c.coin()?0:c.nor())); } return f;
}
struct Sm: math::IFunctionNoDeriv { std::function<double(double)> f; Sm(std::function<double(double)> g): f(g) {} double value(double x) const { return f(x); } };
// all generic contracts of a 1d interpolator made of polynomials of degree deg with cont continuous derivatives
static void generic(Ctx& c, const std::string& key, const math::BaseInterpolator1d& s, const V& x, int deg, int cont, bool extrap, bool weird=false) {
    int n=x.size(); double S=0, hmin=1e300, L=x.back()-x[0]; for(int i=0;i+1<n;i++) hmin=std::min(hmin,x[i+1]-x[i]);
    for(int i=0;i+1<n;i++) for(int k=1;k<8;k++) S=std::max(S,fabs(s.value(x[i]+(x[i+1]-x[i])*k/8)));
    if(S==0) throw vh::Skip(); double xm=std::max(fabs(x[0]),fabs(x.back())), cond=1e-11+3e-16*xm/hmin*20;
    if(!c.ok(std::isfinite(S), key+":finite")) return;
    c.ok(s.xmin()==x[0] && s.xmax()==x.back() && s.xvalues()==x && !s.empty() && s.numDerivs()==3, key+":accessors");
    // piecewise polynomial of the stated degree; derivatives are derivatives of the value
    for(int i=0;i+1<n;i++) {
        double a=x[i], b=x[i+1], h=b-a; std::vector<LD> px, py; for(int k=0;k<=deg;k++) { px.push_back(a+(b-a)*(0.5L-0.5L*cosl(M_PIl*(2*k+1)/(2*deg+2)))); px.back()=(double)px.back(); py.push_back(s.value(px.back())); }
        auto poly=[&](LD t) { LD r=0; for(int j=0;j<=deg;j++) { LD w=py[j]; for(int m=0;m<=deg;m++) if(m!=j) w*=(t-px[m])/(px[j]-px[m]); r+=w; } return r; };
        double Sl=0; for(LD v: py) Sl=std::max(Sl,(double)fabsl(v)); Sl=std::max(Sl,S*1e-3);
        for(int k=0;k<3;k++) { double t=a+h*c.uni(.01,.99); c.close(s.value(t), poly(t), key+":polynomial", 0, Sl*1e-9+Sl*3e-15*xm/h); }
        double t0=a+h*c.uni(.02,.4), t1=a+h*c.uni(.6,.98), v0,d0,e0,g0,v1,d1,e1,g1; s.evalDeriv(t0,&v0,&d0,&e0,&g0); s.evalDeriv(t1,&v1,&d1,&e1,&g1);
        { double v2,d2,e2; s.evalDeriv(t0,&v2,&d2,&e2); c.ok(v2==v0&&d2==d0&&e2==e0, key+":overload"); c.ok(s.value(t0)==v0, key+":value-call"); double dd; s.evalDeriv(t0,NULL,&dd,NULL,NULL); c.ok(dd==d0, key+":null-args"); }
        auto der=[&](int o) { return [&s,o](LD t) { double d[4]; s.evalDeriv((double)t,d,d+1,d+2,d+3); return (LD)d[o]; }; };
        double D1=std::max(fabs(d0),fabs(d1)), D2=std::max(fabs(e0),fabs(e1)), D3=std::max(fabs(g0),fabs(g1)), r=3e-15*xm/h;
        c.close(v1-v0, gl(der(1),t0,t1), key+":derivative", 0, 1e-10*(Sl+D1*h)+r*(Sl+D1*h));
        c.close(d1-d0, gl(der(2),t0,t1), key+":derivative2", 0, (1e-9+3*r)*(Sl/h+D1+D2*h));
        c.close(e1-e0, gl(der(3),t0,t1), key+":derivative3", 0, (1e-8+10*r)*(Sl/h/h+D1/h+D2+D3*h));
        if(i>0 && i<n-1) { // continuity at the left node
            double A[5],B[5]; auto lim=[&](double p, double q, double* o) { // exact one-sided limits at p from segment (p,q)
                LD y[4][8]; LD tt[6]; for(int k=0;k<=deg;k++) { tt[k]=(double)(p+(q-p)*(0.5L-0.49L*cosl(M_PIl*k/std::max(deg,1)))); if(deg==0) tt[k]=.5*(p+q); double d[4]; s.evalDeriv(tt[k],d,d+1,d+2,d+3); for(int m=0;m<4;m++) y[m][k]=d[m]; }
                for(int m=0;m<4;m++) { LD rr=0; for(int j=0;j<=deg;j++) { LD w=y[m][j]; for(int l=0;l<=deg;l++) if(l!=j) w*=(p-tt[l])/(tt[j]-tt[l]); rr+=w; } o[m]=rr; }
                LD rr=0; for(int j=0;j<=deg;j++) { LD dj=0; for(int l=0;l<=deg;l++) if(l!=j) { LD w=1/(tt[j]-tt[l]); for(int m=0;m<=deg;m++) if(m!=j&&m!=l) w*=(p-tt[m])/(tt[j]-tt[m]); dj+=w; } rr+=dj*y[3][j]; } o[4]=rr; };
            lim(a,x[i-1],A); lim(a,b,B); double hm=std::min(b-a,a-x[i-1]), tol[5]; double s0=std::max(S,fabs(A[1])*hm); for(int k=0;k<5;k++) tol[k]=(1e-9*pow(8,k)+30*r*pow(5,k))*s0/pow(hm,k)+1e-9*(fabs(A[k])+fabs(B[k]));
            for(int k=0;k<=cont&&k<5;k++) c.close(A[k],B[k], key+":continuity"+std::to_string(k), 0, tol[k], Str()<<"node "<<i);
        }
    }
    // outside the grid
    for(int k=0;k<2;k++) { double e=k?x.back():x[0], t=e+(k?1:-1)*L*c.logu(1e-6,1e2), v,d,d2,d3,ve,de; s.evalDeriv(t,&v,&d,&d2,&d3);
        if(extrap) { s.evalDeriv(e,&ve,&de,NULL); double sl=fabs(ve)+fabs(de*(t-e)); c.close(v, ve+de*(t-e), key+":extrapolation", 1e-11, 1e-11*sl); c.close(d, de, key+":extrapolation-slope", 1e-11); c.ok(d2==0, key+":extrapolation-der2"); }
        else c.ok(std::isnan(v), key+":outside-nan", Str()<<t<<": "<<v); }
    // integrals
    auto val=[&](LD t) { return (LD)s.value((double)t); };
    for(int k=0;k<6;k++) {
        double a=x[0]+L*c.uni(-.3,1.3), b=x[0]+L*c.uni(-.3,1.3); if(k==0) a=x[0]-L, b=x.back()+L; if(k==1) a=x[c.irand(0,n-1)], b=x[c.irand(0,n-1)]; if(k==2) { int i=c.irand(0,n-2); a=x[i]+(x[i+1]-x[i])*c.uni(); b=x[i]+(x[i+1]-x[i])*c.uni(); }
        int m=c.irand(0,3); double P=pow(std::max(fabs(std::min(std::max(a,x[0]),x.back())),fabs(std::min(std::max(b,x[0]),x.back()))),m), sc=S*std::min(fabs(a-b),L)*P;
        double I=s.integrate(a,b,m); c.close(I, glgrid([&](LD t) { return val(t)*powl(t,m); },x,a,b), key+":integral", 1e-10, sc*(1e-11+cond*5), Str()<<a<<","<<b<<", n="<<m<<" x="<<js(x));
        c.close(s.integrate(b,a,m), -I, key+":integral-sign", 1e-11, sc*1e-11);
        double sg=L*c.logu(.05,2); math::Gaussian G(sg); auto gau=[&](LD t) { return expl(-.5L*t*t/sg/sg)/sqrtl(2*M_PIl)/sg; };
        double loss=pow((xm+3*L+sg)/hmin,deg)*(1+sg/hmin)*3e-16; // cancellation in the monomial expansion of the integrand
        if(loss<1e-7) { // the function interface multiplies the kernel moments about the origin: meaningful only for grids close to it
            double g=s.integrate(a,b,G); LD ref=glgrid([&](LD t) { return val(t)*gau(t); },x,a,b,8); (void)weird;
            c.close(g, ref, key+":integral-fnc", 1e-8, S*(1e-8+30*loss), Str()<<a<<","<<b<<" sigma="<<sg);
            double xx=x[0]+L*c.uni(-.5,1.5), cv=s.convolve(xx,G); ref=glgrid([&](LD t) { return val(t)*gau(xx-t); },x,x[0],x.back(),8);
            c.close(cv, ref, key+":convolution", 1e-8, S*(1e-8+30*loss), Str()<<xx<<" sigma="<<sg<<" x="<<js(x)); }
    }
    if(n<2 || deg==0) return;
    // extrema and roots against a dense scan
    for(int k=0;k<4;k++) {
        double a=NAN, b=NAN; if(k>0) { a=x[0]+L*c.uni(-.2,.6), b=a+L*c.uni(.1,.8); } if(k==3) { a=x[c.irand(0,n-1)]; } double A=std::isnan(a)?x[0]:std::max(a,x[0]), B=std::isnan(b)?x.back():std::min(b,x.back()); if(!(B>A)) continue;
        V ex=s.extrema(a,b); c.ok(ex.size()>=1 && ex.front()==A && (ex.back()==B || fabs(s.value(ex.back())-s.value(B))<1e-9*S), key+":extrema-ends", Str()<<js(ex)<<" in "<<A<<","<<B); c.ok(std::is_sorted(ex.begin(),ex.end()), key+":extrema-sorted"); c.event("extrema",ex.size());
        for(size_t i=0;i+1<ex.size();i++) { double v0=s.value(ex[i]), v1=s.value(ex[i+1]), lo=std::min(v0,v1), hi=std::max(v0,v1); bool mon=true; double p=v0; for(int q=1;q<=40;q++) { double v=s.value(q==40?ex[i+1]:ex[i]+(ex[i+1]-ex[i])*q/40.); if((v1>=v0 ? v-p : p-v) < -S*1e-9) mon=false; p=v; if(!c.ok(v<=hi+S*1e-8&&v>=lo-S*1e-8, key+":extrema-missed", Str()<<"between "<<ex[i]<<" and "<<ex[i+1]<<" x="<<js(x))) break; } c.ok(mon, key+":extrema-monotone-between", Str()<<ex[i]<<","<<ex[i+1]); }
        double y=k==0&&c.coin()?0:s.value(A+(B-A)*c.uni()); V ro=s.roots(y,a,b); bool in=true; for(double t: ro) { in&=t>=A&&t<=B; double v,d,e; s.evalDeriv(t,&v,&d,&e); c.close(v,y,key+":root-value",0,S*1e-9+fabs(d)*4e-15*xm+S*1e-10*xm/hmin*1e-3, Str()<<"x="<<t); } c.ok(in, key+":root-inside"); c.ok(std::is_sorted(ro.begin(),ro.end()), key+":roots-sorted"); c.event("roots",ro.size());
        // every certain sign change is reported
        const int M=400; double pt=A, pv=s.value(A)-y; for(int q=1;q<=M;q++) { double t=A+(B-A)*q/M, v=s.value(t)-y; if(fabs(pv)>S*1e-7 && fabs(v)>S*1e-7 && (pv>0)!=(v>0)) { bool f=false; for(double r: ro) f|=r>=pt&&r<=t; c.ok(f, key+":root-missed", Str()<<"between "<<pt<<" and "<<t<<" y="<<y<<" x="<<js(x)); } pt=t; pv=v; }
    }
}
static void nodes(Ctx& c, const std::string& key, const math::IFunction& s, const V& x, const V& f) { double S=amax(f); for(size_t i=0;i<x.size();i++) c.close(s(x[i]), f[i], key+":node", 1e-13, S*1e-13); }
static void one(Ctx& c) {
    for(int t=0;t<c.n(120);t++) {
        int n=c.coin(.15)?2:c.coin(.15)?3:c.irand(2,20); V x=rgrid(c,n), f=rvals(c,x), fd(n), fdd(n); double L=x.back()-x[0], S=amax(f)>0?amax(f):1; for(int i=0;i<n;i++) fd[i]=c.nor()*S/L*5, fdd[i]=c.nor()*S/L/L*20;
        double dl=c.coin()?c.nor()*S/L*5:NAN, dr=c.coin()?c.nor()*S/L*5:NAN; std::string par=Str()<<"{\"x\":"<<js(x)<<",\"f\":"<<js(f)<<"}"; std::string pd=Str()<<(std::isnan(dl)?"n":"c")<<(std::isnan(dr)?"n":"c");
        vh::run(c,"linear",par,[&]{ math::LinearInterpolator s(x,f); nodes(c,"linear",s,x,f); generic(c,"linear",s,x,1,0,true); });
        vh::run(c,"cubic",par,[&]{ math::CubicSpline s(x,f,false,dl,dr); nodes(c,"cubic",s,x,f); generic(c,"cubic",s,x,3,2,true); for(int k=0;k<2;k++) { double v,d,d2; s.evalDeriv(k?x[n-1]:x[0],&v,&d,&d2); double b=k?dr:dl, h=k?x[n-1]-x[n-2]:x[1]-x[0], q=std::max(S,fabs(d)*h)/h; if(std::isnan(b)) c.close(d2,0,"cubic:natural",0,1e-10*q/h*10); else c.close(d,b,"cubic:clamped",1e-12); } });
        vh::run(c,"hermite",par,[&]{ math::CubicSpline s(x,f,fd); nodes(c,"hermite",s,x,f); for(int i=0;i<n;i++) { double d; s.evalDeriv(x[i],NULL,&d,NULL); c.close(d,fd[i],"hermite:node-derivative",1e-12); } generic(c,"hermite",s,x,3,1,true); });
        vh::run(c,"quintic",par,[&]{ math::QuinticSpline s(x,f,dl,dr); nodes(c,"quintic",s,x,f); generic(c,"quintic",s,x,5,4,true); for(int k=0;k<2;k++) { double v,d,d2; s.evalDeriv(k?x[n-1]:x[0],&v,&d,&d2); double b=k?dr:dl, h=k?x[n-1]-x[n-2]:x[1]-x[0], q=std::max(S,fabs(d)*h)/h; if(std::isnan(b)) c.close(d2,0,"quintic:natural",0,1e-9*q/h*10); else c.close(d,b,"quintic:clamped",1e-11); } });
        vh::run(c,"quintic-std",par,[&]{ math::QuinticSpline s(x,f,fd); nodes(c,"quintic-std",s,x,f); for(int i=0;i<n;i++) { double d; s.evalDeriv(x[i],NULL,&d,NULL); c.close(d,fd[i],"quintic-std:node-derivative",1e-12); } generic(c,"quintic-std",s,x,5,3,true); });
        vh::run(c,"quintic-hermite",par,[&]{ math::QuinticSpline s(x,f,fd,fdd); nodes(c,"quintic-hermite",s,x,f); for(int i=0;i<n;i++) { double d,e; s.evalDeriv(x[i],NULL,&d,&e); c.close(d,fd[i],"quintic-hermite:node-derivative",1e-12); c.close(e,fdd[i],"quintic-hermite:node-derivative2",1e-12); } generic(c,"quintic-hermite",s,x,5,2,true); });
        // polynomials are reproduced exactly
        vh::run(c,"reproduce",par,[&]{
            double co[6]; for(int k=0;k<6;k++) co[k]=c.nor(); auto P=[&](int deg, double xx, int o) { LD u=(xx-x[0])/L, r=0; for(int k=o;k<=deg;k++) { LD q=co[k]*powl(u,k-o); for(int j=0;j<o;j++) q*=k-j; r+=q; } return (double)(r/powl(L,o)); };
            auto fill=[&](int deg,int o) { V r(n); for(int i=0;i<n;i++) r[i]=P(deg,x[i],o); return r; };
            math::LinearInterpolator l(x,fill(1,0)); math::CubicSpline cn(x,fill(1,0)), cc(x,fill(3,0),false,P(3,x[0],1),P(3,x[n-1],1)), ch(x,fill(3,0),fill(3,1)); math::QuinticSpline qn(x,fill(1,0)), qc(x,fill(3,0),P(3,x[0],1),P(3,x[n-1],1)), qs(x,fill(3,0),fill(3,1)), qh(x,fill(5,0),fill(5,1),fill(5,2)); 
            for(int k=0;k<6;k++) { double xx=x[0]+L*c.uni(); c.close(l(xx),P(1,xx,0),"reproduce:linear",0,1e-11); c.close(cn(xx),P(1,xx,0),"reproduce:cubic-natural",0,1e-10); c.close(cc(xx),P(3,xx,0),"reproduce:cubic-clamped",0,1e-10); c.close(ch(xx),P(3,xx,0),"reproduce:hermite",0,1e-10); c.close(qn(xx),P(1,xx,0),"reproduce:quintic-natural",0,1e-9); c.close(qc(xx),P(3,xx,0),"reproduce:quintic-clamped",0,1e-8); c.close(qs(xx),P(3,xx,0),"reproduce:quintic-standard",0,1e-8); c.close(qh(xx),P(5,xx,0),"reproduce:quintic-hermite",0,1e-10); }
        });
        // monotone regularisation
        vh::run(c,"regularized",par,[&]{
            V g=f; if(c.coin(.4)) std::sort(g.begin(),g.end()); math::CubicSpline s(x,g,true); nodes(c,"regularized",s,x,g); generic(c,"regularized",s,x,3,1,true,true);
            for(int i=0;i+1<n;i++) { bool up=g[i+1]>=g[i]; auto same=[&](int j) { return j<0||j+1>=n|| (g[j+1]-g[j])*(g[i+1]-g[i])>0; };
                // segments not adjacent to an extremum of the data preserve monotonicity; nowhere overshoot there
                if(g[i+1]!=g[i] && same(i-1) && same(i+1)) { double p=g[i]; bool mon=true; for(int k=1;k<=50;k++) { double v=s.value(x[i]+(x[i+1]-x[i])*k/50.); if((up?v-p:p-v)< -1e-10*S) mon=false; p=v; } c.ok(mon,"regularized:monotone", Str()<<"segment "<<i); c.event("monotone-segments"); }
                if(g[i+1]==g[i] && i>0 && i+2<n && (g[i]==g[i-1]||g[i+2]==g[i+1])) {} }
            V neg(g); for(double& v: neg) v=-v; math::CubicSpline sn(x,neg,true); double xx=x[0]+L*c.uni(); c.close(sn(xx),-s(xx),"regularized:odd",1e-12,1e-13*S);
            V lin(n); for(int i=0;i<n;i++) lin[i]=2*(x[i]-x[0])/L+1; math::CubicSpline sl(x,lin,true); c.close(sl(xx),2*(xx-x[0])/L+1,"regularized:linear",1e-10); });
        // linearity and translation: shifting and scaling the grid
        vh::run(c,"covariance",par,[&]{ double a=c.logu(.01,100), b=c.nor()*L; V y(n),fa(n); for(int i=0;i<n;i++) y[i]=(x[i]-x[0])*a+b, fa[i]=-3*f[i]; bool inc=true; for(int i=0;i+1<n;i++) inc&=y[i+1]>y[i]; if(!inc) throw vh::Skip(); math::CubicSpline s(x,f), r(y,fa); math::QuinticSpline q(x,f), w(y,fa); for(int k=0;k<3;k++) { double u=L*c.uni(); double g=1e-9; c.close(r(u*a+b),-3*s(x[0]+u),"covariance:cubic",g,g*S*3); c.close(w(u*a+b),-3*q(x[0]+u),"covariance:quintic",g,g*100*S*3); } });
    }
    c.begin("errors","{}");
    { V x={0,1,1,2}, f={1,2,3,4}, g={0,1,2}, nn={0,1,NAN,2}, ok={0,1,2,3}; auto thr=[&](std::function<void()> q, const char* k) { bool t=false; try { q(); } catch(std::exception&) { t=true; } c.ok(t,k); };
      thr([&]{ math::CubicSpline s(x,f); },"errors:cubic-grid"); thr([&]{ math::CubicSpline s(ok,g); },"errors:cubic-size"); thr([&]{ math::CubicSpline s(ok,nn); },"errors:cubic-nan"); thr([&]{ math::LinearInterpolator s(x,f); },"errors:linear-grid"); thr([&]{ math::LinearInterpolator s(ok,g); },"errors:linear-size"); thr([&]{ math::QuinticSpline s(x,f); },"errors:quintic-grid"); thr([&]{ math::QuinticSpline s(ok,g); },"errors:quintic-size"); thr([&]{ math::QuinticSpline s(ok,nn,f); },"errors:quintic-nan"); thr([&]{ math::QuinticSpline s(ok,f,g); },"errors:quintic-dsize"); thr([&]{ math::LogLogSpline s(ok,f); },"errors:loglog-zero"); thr([&]{ math::BsplineInterpolator1d<3> s(x); },"errors:bspline-grid"); thr([&]{ math::BsplineWrapper<3> s(ok,f); },"errors:bspline-size"); thr([&]{ math::BsplineInterpolator1d<2> s(ok); s.interpolate(1.,f); },"errors:bspline-ampl");
      math::CubicSpline e; c.ok(e.empty()&&std::isnan(e.value(1.)),"errors:empty"); math::LinearInterpolator le; c.ok(std::isnan(le.value(0.)),"errors:empty"); math::QuinticSpline qe; c.ok(std::isnan(qe.value(0.)),"errors:empty"); }
    c.end();
}
static void loglog(Ctx& c) {
    for(int t=0;t<c.n(300);t++) {
        int n=c.irand(2,20); V x(n), f(n), fd(n); double l=c.logu(1e-4,1e2), a=c.uni(-4,3), A=c.logu(1e-6,1e6); for(int i=0;i<n;i++) { x[i]=l; l*=c.uni(1.1,3); }
        std::string par=Str()<<"{\"x\":"<<js(x)<<",\"a\":"<<a<<"}";
        vh::run(c,"loglog",par,[&]{
            for(int i=0;i<n;i++) f[i]=A*pow(x[i],a), fd[i]=a*f[i]/x[i]; math::LogLogSpline p(x,f), q(x,f,fd), r(x,f,fd[0],fd[n-1]);
            for(int k=0;k<8;k++) { double xx=c.logu(x[0]/100,x[n-1]*100), ref=A*pow(xx,a), v,d,e; const math::LogLogSpline* o[3]={&p,&q,&r}; for(int j=0;j<3;j++) { o[j]->evalDeriv(xx,&v,&d,&e); c.close(v,ref,"loglog:power-law",1e-9); c.close(d,ref*a/xx,"loglog:power-law-der",1e-8,1e-9*ref/xx); c.close(e,ref*a*(a-1)/xx/xx,"loglog:power-law-der2",1e-7,1e-8*ref/xx/xx); } }
            // smooth positive function: equals exp(spline(log)) of the corresponding spline
            double b=c.uni(.2,3), x0=x[n/2]; auto F=[&](double u) { return A*pow(u,a)*pow(1+u/x0,-b); }; V lx(n),lf(n); for(int i=0;i<n;i++) f[i]=F(x[i]), lx[i]=log(x[i]), lf[i]=log(f[i]); math::LogLogSpline s(x,f); math::CubicSpline cs(lx,lf,true); nodes(c,"loglog",s,x,f);
            for(int k=0;k<8;k++) { double xx=c.logu(x[0]/10,x[n-1]*10), v,d,e; s.evalDeriv(xx,&v,&d,&e); c.close(v,exp(cs(log(xx))),"loglog:equals-exp-spline-log",1e-10); c.ok(v>0,"loglog:positive"); double h=xx*1e-4; double vp,dp,vm,dm; s.evalDeriv(xx+h,&vp,&dp,NULL); s.evalDeriv(xx-h,&vm,&dm,NULL); bool edge=false; for(double q2: x) edge|=fabs(xx-q2)<3*h; c.close(d,(vp-vm)/(2*h),"loglog:derivative",1e-5,1e-6*v/xx); if(!edge) c.close(e,(dp-dm)/(2*h),"loglog:derivative2",1e-4,1e-4*v/xx/xx); }
            // with derivatives: the derivatives at nodes are the supplied ones
            for(int i=0;i<n;i++) fd[i]=f[i]/x[i]*(a-b*x[i]/(x[i]+x0)); math::LogLogSpline sd(x,f,fd); for(int i=0;i<n;i++) { double v,d; sd.evalDeriv(x[i],&v,&d,NULL); c.close(v,f[i],"loglog:quintic-node",1e-12); c.close(d,fd[i],"loglog:quintic-node-derivative",1e-10,1e-13*f[i]/x[i]); }
            // zero and negative values
            V g=f; bool neg=c.coin(); for(int i=0;i<n;i++) if(c.coin(.3)) g[i]=neg&&c.coin()?-g[i]:0; math::LogLogSpline z(x,g); nodes(c,"loglog-zeros",z,x,g); bool anyneg=false; for(double v: g) anyneg|=v<0; for(int k=0;k<20;k++) { double xx=c.logu(x[0],x[n-1]), v,d,e; z.evalDeriv(xx,&v,&d,&e); c.ok(std::isfinite(v)&&std::isfinite(d),"loglog-zeros:finite"); if(!anyneg) c.ok(v>=0,"loglog-zeros:nonnegative"); }
        });
    }
}
// independent clamped B-spline basis (recursive definition)
static LD cox(const V& x, int N, int j, LD t, int p) {
    int n=x.size(); auto kn=[&](int i) { return (LD)x[std::min(std::max(i-N,0),n-1)]; }; // knot vector with N repetitions at both ends
    if(p==0) { LD a=kn(j), b=kn(j+1); return (t>=a&&t<b) || (t==b && b==x.back() && a<b) ? 1:0; }
    LD r=0, a=kn(j+p)-kn(j), b=kn(j+p+1)-kn(j+1); if(a>0) r+=(t-kn(j))/a*cox(x,N,j,t,p-1); if(b>0) r+=(kn(j+p+1)-t)/b*cox(x,N,j+1,t,p-1); return r;
}
template<int N> static void bsplN(Ctx& c) {
    int n=c.irand(2,14); V x=rgrid(c,n), A(n+N-1); if(n==1) return; for(double& a: A) a=c.nor(); double L=x.back()-x[0], hmin=1e300, xm=std::max(fabs(x[0]),fabs(x.back())); for(int i=0;i+1<n;i++) hmin=std::min(hmin,x[i+1]-x[i]);
    std::string key=Str()<<"bspline"<<N; const int M=n+N-1; if(M<1) return;
    vh::run(c,key,Str()<<"{\"x\":"<<js(x)<<",\"A\":"<<js(A)<<"}",[&]{
        math::BsplineInterpolator1d<N> b(x); math::BsplineWrapper<N> w(x,A); double R=1e-12+xm/hmin*5e-15; c.ok((int)b.numValues()==M && b.numVars()==1,key+":size");
        for(int k=0;k<30;k++) { double t=k<n?x[k]:x[0]+L*c.uni(), s=0; V B(M+1,7e77); b.eval(&t,B.data()); c.ok(B[M]==7e77,key+":overrun"); double ref=0; for(int j=0;j<M;j++) { LD q=cox(x,N,j,t,N); c.close(B[j],q,key+":basis",R,R); c.ok(B[j]>=-1e-14,key+":nonnegative"); s+=B[j]; ref+=A[j]*q; } c.close(s,1,key+":partition-of-unity",R); c.close(b.interpolate(t,A),ref,key+":interpolate",R,R*amax(A)); c.close(w(t),ref,key+":wrapper",R,R*amax(A));
            double nz[N+1]; int i0=b.nonzeroComponents(t,0,nz); c.ok(i0>=0&&i0+N<M,key+":index"); for(int j=0;j<=N;j++) c.close(nz[j],B[i0+j],key+":nonzero",0,1e-14); V acc(M,1.); b.addPoint(&t,-2.5,acc.data()); for(int j=0;j<M;j++) c.close(acc[j],1-2.5*B[j],key+":addPoint",1e-13,1e-13);
            for(int o=1;o<=N;o++) { double v[4]; double dv[4]={0,0,0,0}; w.evalDeriv(t,v,v+1,v+2,v+3); (void)dv; c.close(b.interpolate(t,A,o),v[o],key+":derivative-agree",1e-11,1e-11*amax(A)*pow(1/hmin,o)); } }
        for(int k=0;k<2;k++) { double t=k?x.back()+L*c.uni(.01,1):x[0]-L*c.uni(.01,1); V B(M,5); b.eval(&t,B.data()); for(int j=0;j<M;j++) c.ok(B[j]==0,key+":outside-zero"); c.ok(b.interpolate(t,A)==0,key+":outside-interpolate"); }
        generic(c,key,w,x,N,N-1,false); 
        for(int k=0;k<4;k++) { double p=x[0]+L*c.uni(-.2,1.2), q=x[0]+L*c.uni(-.2,1.2); int m=c.irand(0,3); c.close(b.integrate(p,q,A,m),w.integrate(p,q,m),key+":integrate-agree",1e-11,1e-11*L*amax(A)*pow(xm,m)); }
        // derivative and antiderivative as splines of the neighbouring degree
        { V D=N>0?b.deriv(A):V(); V I; 
          if(N>0) { math::BsplineWrapper<(N>0?N-1:0)> d(x,D); for(int k=0;k<5;k++) { double t=x[0]+L*c.uni(); double v,e; w.evalDeriv(t,&v,&e,NULL); c.close(d(t),e,key+":deriv",1e-10,1e-10*amax(A)/hmin); } }
          if(N<3) { I=b.antideriv(A); c.ok((int)I.size()==M+1&&I[0]==0,key+":antideriv-size"); math::BsplineWrapper<(N<3?N+1:3)> g(x,I); for(int k=0;k<5;k++) { double t=x[0]+L*c.uni(); c.close(g(t),w.integrate(x[0],t),key+":antideriv",1e-10,1e-11*amax(A)*L); } V back=math::BsplineInterpolator1d<(N<3?N+1:3)>(x).deriv(I); for(int j=0;j<M;j++) c.close(back[j],A[j],key+":deriv-of-antideriv",1e-9,1e-9*amax(A)*L/hmin*1e-3+1e-10*amax(A)*L/hmin); } }
        if(N==1) { math::LinearInterpolator l(x,A); for(int k=0;k<5;k++) { double t=x[0]+L*c.uni(); c.close(l(t),w(t),key+":linear-equivalent",R,R*amax(A)); } }
        if(N>=2) { math::CubicSpline s(x,A); for(int k=0;k<8;k++) { double t=x[0]+L*c.uni(), v,d,e,v1,d1,e1; s.evalDeriv(t,&v,&d,&e); w.evalDeriv(t,&v1,&d1,&e1); c.close(v,v1,key+":cubic-equivalent",R*10,1e-10*amax(A)); c.close(d,d1,key+":cubic-equivalent-der",1e-9,1e-9*amax(A)/hmin); c.close(e,e1,key+":cubic-equivalent-der2",1e-8,1e-8*amax(A)/hmin/hmin); } }
        // finite elements
        math::FiniteElement1d<N> fe(b); const V& p=fe.integrPoints(); bool in=true; for(double t: p) in&=t>x[0]&&t<x.back(); c.ok(in&&p.size()==(size_t)(n-1)*(N+1),key+":integr-points"); int pd=N+1; double pc[5]; for(int k=0;k<5;k++) pc[k]=c.nor(); auto P=[&](LD t) { LD r=0,u=(t-x[0])/L; for(int k=pd;k>=0;k--) r=r*u+pc[k]; return r; }; // polynomial of degree N+1: product with the basis is integrated exactly
        V fv; for(double t: p) fv.push_back(P(t)); auto basis=[&](int j,int o,LD t) { V e(M,0.); e[j]=1; return (LD)b.interpolate((double)t,e,o); };
        for(int o=0;o<=N;o++) { V v=fe.computeProjVector(fv,o); c.ok((int)v.size()==M,key+":projvector-size"); for(int j=0;j<M;j++) { LD r=glgrid([&](LD t) { return P(t)*basis(j,o,t); },x,x[0],x.back()); c.close(v[j],r,key+":projvector",1e-9,1e-10*L*pow(hmin,-o)); } }
        { int o1=c.irand(0,N), o2=c.irand(0,N); bool cf=c.coin(); math::BandMatrix<double> m=fe.computeProjMatrix(cf?V():V(fv.size(),1.7),o1,o2); math::Matrix<double> dm(m); c.ok((int)dm.rows()==M&&(int)dm.cols()==M,key+":projmatrix-size"); for(int i=0;i<M;i++) for(int j=0;j<M;j++) { LD r=glgrid([&](LD t) { return (cf?1.L:1.7L)*basis(i,o1,t)*basis(j,o2,t); },x,x[0],x.back()); c.close(dm(i,j),r,key+":projmatrix",1e-9,1e-10*L*pow(hmin,-o1-o2)); } }
        if(xm<10*L) { double sg=L*c.logu(.05,2); math::Gaussian G(sg); double t=x[0]+L*c.uni(-.2,1.2); int o=c.irand(0,N); auto gau=[&](LD u) { return expl(-.5L*u*u/sg/sg)/sqrtl(2*M_PIl)/sg; }; double q=pow(hmin,-o); V a1(M,.5), a2(M,0.); fe.template addPointConv<true>(t,2.,G,o,a1.data()); fe.template addPointConv<false>(t,1.,G,o,a2.data()); for(int j=0;j<M;j++) { LD r=glgrid([&](LD u) { return basis(j,o,u)*gau(t-u); },x,x[0],x.back(),8); double tl=3e-8*q*(1+xm/L*xm/L)*L/hmin; c.close(a1[j],.5+2*r,key+":addPointConv",1e-7,tl); c.close(a2[j],r,key+":addPointConv-reversed",1e-7,tl); }
            double hmax=0; for(int i=0;i+1<n;i++) hmax=std::max(hmax,x[i+1]-x[i]); if(n<7 && sg>hmax && N>0) { math::Matrix<double> K=fe.computeConvMatrix(G,0,o); for(int i=0;i<M;i++) for(int j=0;j<M;j++) { LD r=glgrid([&](LD u) { return basis(i,0,u)*glgrid([&](LD v) { return basis(j,o,v)*gau(u-v); },x,x[0],x.back(),2); },x,x[0],x.back(),2); c.close(K(i,j),r,key+":convMatrix",2e-2,2e-3*L*q); } } }
        if(N>0 && n>2) { Sm F([&](double t) { V g(A); return b.interpolate(t,g); }); V am=fe.computeAmplitudes(F); for(int j=0;j<M;j++) c.close(am[j],A[j],key+":amplitudes-recovered",1e-6,1e-7*amax(A)*L/hmin); }
    });
}
static void bspline(Ctx& c) { for(int t=0;t<c.n(60);t++) { bsplN<0>(c); bsplN<1>(c); bsplN<2>(c); bsplN<3>(c); } }
static V mgrid(Ctx& c, int n) { V x(n); double o=c.nor()*3; for(int i=0;i<n;i++) { x[i]=o; o+=c.logu(.1,1.5); } return x; }
static void multi(Ctx& c) {
    for(int t=0;t<c.n(80);t++) {
        int nx=c.irand(2,8), ny=c.irand(2,8), nz=c.irand(2,6); V x=mgrid(c,nx), y=mgrid(c,ny), z=mgrid(c,nz); math::Matrix<double> f(nx,ny), fx(nx,ny), fy(nx,ny), fxy(nx,ny); double amp=c.logu(1e-3,1e3); bool sep=c.coin();
        for(int i=0;i<nx;i++) for(int j=0;j<ny;j++) f(i,j)=amp*(sep?sin(x[i]+.3*x[i]*y[j])+.2*y[j]:c.nor()), fx(i,j)=amp*c.nor(), fy(i,j)=amp*c.nor(), fxy(i,j)=amp*c.nor();
        std::string par=Str()<<"{\"x\":"<<js(x)<<",\"y\":"<<js(y)<<",\"amp\":"<<amp<<"}"; double b[4]; for(int k=0;k<4;k++) b[k]=c.coin()?NAN:c.nor()*amp;
        auto pt=[&](double& px,double& py) { px=x[0]+(x[nx-1]-x[0])*c.uni(.001,.999); py=y[0]+(y[ny-1]-y[0])*c.uni(.001,.999); };
        auto common=[&](const math::BaseInterpolator2d& s,const std::string& key,int deg) { // nodes, derivatives, outside
            c.ok(s.xmin()==x[0]&&s.xmax()==x[nx-1]&&s.ymin()==y[0]&&s.ymax()==y[ny-1]&&!s.empty(),key+":accessors");
            for(int i=0;i<nx;i++) for(int j=0;j<ny;j++) c.close(s.value(x[i],y[j]),f(i,j),key+":node",1e-11,1e-11*amp);
            for(int k=0;k<6;k++) { double px,py; pt(px,py); int i=std::upper_bound(x.begin(),x.end(),px)-x.begin()-1, j=std::upper_bound(y.begin(),y.end(),py)-y.begin()-1; double v,dx,dy,dxx,dxy,dyy; s.evalDeriv(px,py,&v,&dx,&dy,&dxx,&dxy,&dyy); c.close(s.value(px,py),v,key+":value",1e-14,1e-15*amp); double only; s.evalDeriv(px,py,NULL,NULL,&only); c.close(only,dy,key+":null-args",1e-13);
                // integrals of derivatives within the cell
                double qx=x[i]+(x[i+1]-x[i])*c.uni(), qy=y[j]+(y[j+1]-y[j])*c.uni(), v2,e[6]; s.evalDeriv(qx,py,&v2,e,e+1); double M=amp*20; if(deg>3) M*=20;
                c.close(v2-v,gl([&](LD u) { double q; s.evalDeriv(u,py,NULL,&q); return (LD)q; },px,qx),key+":der-x",1e-9,1e-11*M); if(deg>1) c.close(e[1]-dy,gl([&](LD u) { double q; s.evalDeriv(u,py,NULL,NULL,NULL,NULL,&q,NULL); return (LD)q; },px,qx),key+":der-xy",1e-9,1e-9*M); c.close(e[0]-dx,gl([&](LD u) { double q; s.evalDeriv(u,py,NULL,NULL,NULL,&q,NULL,NULL); return (LD)q; },px,qx),key+":der-xx",1e-9,1e-9*M);
                s.evalDeriv(px,qy,&v2,e,e+1); c.close(v2-v,gl([&](LD u) { double q; s.evalDeriv(px,u,NULL,NULL,&q); return (LD)q; },py,qy),key+":der-y",1e-9,1e-11*M); c.close(e[1]-dy,gl([&](LD u) { double q; s.evalDeriv(px,u,NULL,NULL,NULL,NULL,NULL,&q); return (LD)q; },py,qy),key+":der-yy",1e-9,1e-9*M); if(deg>1) c.close(e[0]-dx,gl([&](LD u) { double q; s.evalDeriv(px,u,NULL,NULL,NULL,NULL,&q,NULL); return (LD)q; },py,qy),key+":der-yx",1e-9,1e-9*M); }
            // continuity across cell borders
            for(int k=0;k<4;k++) { double px,py; pt(px,py); if(nx>2) { double e=x[c.irand(1,nx-2)], a[6],d[6]; s.evalDeriv(e*(1-1e-15)-1e-15,py,a,a+1,a+2,a+3,a+4,a+5); s.evalDeriv(e,py,d,d+1,d+2,d+3,d+4,d+5); int nd=deg==1?1:deg==3?6:6; const int id[6]={0,2,1,4,5,3}; for(int q=0;q<nd;q++) c.close(a[id[q]],d[id[q]],key+":continuity",1e-7,amp*1e-7*(deg>3?10:1)); }
                if(ny>2) { double e=y[c.irand(1,ny-2)], a[6],d[6]; s.evalDeriv(px,e*(1-1e-15)-1e-15,a,a+1,a+2,a+3,a+4,a+5); s.evalDeriv(px,e,d,d+1,d+2,d+3,d+4,d+5); int nd=deg==1?1:6; const int id[6]={0,1,2,4,3,5}; for(int q=0;q<nd;q++) c.close(a[id[q]],d[id[q]],key+":continuity",1e-7,amp*1e-7*(deg>3?10:1)); } }
            double o[4][2]={{x[0]-.1,y[0]},{x[nx-1]+.1,y[0]},{x[0],y[0]-.01},{x[0],y[ny-1]+.5}}; for(int k=0;k<4;k++) { double v,d; s.evalDeriv(o[k][0],o[k][1],&v,&d); c.ok(std::isnan(v)&&std::isnan(d),key+":outside"); }
        };
        vh::run(c,"linear2d",par,[&]{ math::LinearInterpolator2d s(x,y,f); common(s,"linear2d",1); for(int k=0;k<6;k++) { double px,py; pt(px,py); V col(nx); for(int i=0;i<nx;i++) { V r(ny); for(int j=0;j<ny;j++) r[j]=f(i,j); col[i]=math::LinearInterpolator(y,r)(py); } c.close(s.value(px,py),math::LinearInterpolator(x,col)(px),"linear2d:tensor",1e-11,1e-12*amp); } });
        vh::run(c,"cubic2d",par,[&]{ math::CubicSpline2d s(x,y,f,false,b[0],b[1],b[2],b[3]); common(s,"cubic2d",3); bool cl=!std::isnan(b[0]); (void)cl; for(int k=0;k<6;k++) { double px,py; pt(px,py); // composition of one-dimensional splines: first along y for each row; edge values of d/dy of d/dx conditions are constants
                V col(nx); for(int i=0;i<nx;i++) { V r(ny); for(int j=0;j<ny;j++) r[j]=f(i,j); col[i]=math::CubicSpline(y,r,false,b[2],b[3])(py); } c.close(s.value(px,py),math::CubicSpline(x,col,false,b[0],b[1])(px),"cubic2d:tensor",1e-9,1e-10*amp); } });
        vh::run(c,"quintic2d",par,[&]{ math::QuinticSpline2d s(x,y,f,fx,fy), r(x,y,f,fx,fy,fxy); common(s,"quintic2d",5); common(r,"quintic2d-mixed",5); for(int i=0;i<nx;i++) for(int j=0;j<ny;j++) { double v,dx,dy,dxx,dxy,dyy; s.evalDeriv(x[i],y[j],&v,&dx,&dy); c.close(dx,fx(i,j),"quintic2d:node-dx",1e-9,1e-10*amp); c.close(dy,fy(i,j),"quintic2d:node-dy",1e-9,1e-10*amp); r.evalDeriv(x[i],y[j],&v,&dx,&dy,&dxx,&dxy,&dyy); c.close(dx,fx(i,j),"quintic2d-mixed:node-dx",1e-9,1e-10*amp); c.close(dy,fy(i,j),"quintic2d-mixed:node-dy",1e-9,1e-10*amp); c.close(dxy,fxy(i,j),"quintic2d-mixed:node-dxy",1e-9,1e-10*amp); }
            // along grid lines it is the one-dimensional quintic spline
            int i=c.irand(0,nx-1), j=c.irand(0,ny-1); V a(ny),d(ny),e(nx),g(nx); for(int q=0;q<ny;q++) a[q]=f(i,q), d[q]=fy(i,q); for(int q=0;q<nx;q++) e[q]=f(q,j), g[q]=fx(q,j); math::QuinticSpline sy(y,a,d), sx(x,e,g); for(int k=0;k<4;k++) { double px,py; pt(px,py); c.close(s.value(x[i],py),sy(py),"quintic2d:gridline-y",1e-9,1e-10*amp); c.close(s.value(px,y[j]),sx(px),"quintic2d:gridline-x",1e-9,1e-10*amp); c.close(r.value(x[i],py),sy(py),"quintic2d-mixed:gridline-y",1e-9,1e-10*amp); c.close(r.value(px,y[j]),sx(px),"quintic2d-mixed:gridline-x",1e-9,1e-10*amp); }
            // polynomial of third degree in each variable
            double p[4][4]; for(auto& q: p) for(double& w: q) w=c.nor(); double X=x[nx-1]-x[0], Y=y[ny-1]-y[0]; auto P=[&](double u,double v,int ox,int oy) { u=(u-x[0])/X; v=(v-y[0])/Y; double r2=0; for(int m=ox;m<4;m++) for(int l=oy;l<4;l++) r2+=p[m][l]*pow(u,m-ox)*(ox?m:1)*pow(v,l-oy)*(oy?l:1); return r2/(ox?X:1)/(oy?Y:1); }; math::Matrix<double> a0(nx,ny),a1(nx,ny),a2(nx,ny),a3(nx,ny); for(int m=0;m<nx;m++) for(int l=0;l<ny;l++) a0(m,l)=P(x[m],y[l],0,0), a1(m,l)=P(x[m],y[l],1,0), a2(m,l)=P(x[m],y[l],0,1), a3(m,l)=P(x[m],y[l],1,1); math::QuinticSpline2d rr(x,y,a0,a1,a2,a3); math::QuinticSpline2d r0(x,y,a0,a1,a2); for(int k=0;k<5;k++) { double px,py; pt(px,py); c.close(rr.value(px,py),P(px,py,0,0),"quintic2d-mixed:reproduce",1e-8,1e-8); (void)r0; } });
        // three dimensions
        V g((size_t)nx*ny*nz); for(double& v: g) v=amp*c.nor(); auto G=[&](int i,int j,int k) { return g[(i*ny+j)*nz+k]; };
        vh::run(c,"3d",par,[&]{ math::LinearInterpolator3d l(x,y,z,g); math::CubicSpline3d s(x,y,z,g); for(int i=0;i<nx;i++) for(int j=0;j<ny;j++) for(int k=0;k<nz;k++) { c.close(l.value(x[i],y[j],z[k]),G(i,j,k),"linear3d:node",1e-12,1e-12*amp); c.close(s.value(x[i],y[j],z[k]),G(i,j,k),"cubic3d:node",1e-11,1e-11*amp); }
            for(int q=0;q<6;q++) { double px,py,pz=z[0]+(z[nz-1]-z[0])*c.uni(); pt(px,py); V cl(nx),cc(nx); for(int i=0;i<nx;i++) { V rl(ny),rc(ny); for(int j=0;j<ny;j++) { V w(nz); for(int k=0;k<nz;k++) w[k]=G(i,j,k); rl[j]=math::LinearInterpolator(z,w)(pz); rc[j]=math::CubicSpline(z,w)(pz); } cl[i]=math::LinearInterpolator(y,rl)(py); cc[i]=math::CubicSpline(y,rc)(py); } c.close(l.value(px,py,pz),math::LinearInterpolator(x,cl)(px),"linear3d:tensor",1e-10,1e-12*amp); c.close(s.value(px,py,pz),math::CubicSpline(x,cc)(px),"cubic3d:tensor",1e-9,1e-9*amp); double p[3]={px,py,pz},v; s.eval(p,&v); c.close(v,s.value(px,py,pz),"cubic3d:eval",1e-15); l.eval(p,&v); c.close(v,l.value(px,py,pz),"linear3d:eval",1e-15); }
            c.ok(std::isnan(l.value(x[0]-.1,y[0],z[0]))&&std::isnan(s.value(x[0],y[0],z[nz-1]+.1))&&std::isnan(s.value(x[0],y[ny-1]+.1,z[0])),"3d:outside"); });
        vh::run(c,"bspline3d",par,[&]{ math::BsplineInterpolator3d<1> b1(x,y,z); math::BsplineInterpolator3d<3> b3(x,y,z); const int M=(nx+2)*(ny+2)*(nz+2); c.ok((int)b3.numValues()==M&&(int)b1.numValues()==nx*ny*nz,"bspline3d:size"); V A(M); for(double& v: A) v=c.nor(); math::CubicSpline3d cs(x,y,z,A); math::LinearInterpolator3d li(x,y,z,g);
            for(int q=0;q<6;q++) { double p[3]; pt(p[0],p[1]); p[2]=z[0]+(z[nz-1]-z[0])*c.uni(); LD r=0,s=0; std::vector<LD> bx,by,bz; for(int i=0;i<nx+2;i++) bx.push_back(cox(x,3,i,p[0],3)); for(int i=0;i<ny+2;i++) by.push_back(cox(y,3,i,p[1],3)); for(int i=0;i<nz+2;i++) bz.push_back(cox(z,3,i,p[2],3)); V e(M); b3.eval(p,e.data()); unsigned int li3[3]; double nzv[64]; b3.nonzeroComponents(p,li3,nzv); (void)s;
                for(int i=0;i<nx+2;i++) for(int j=0;j<ny+2;j++) for(int k=0;k<nz+2;k++) { unsigned id=b3.indComp(i,j,k), dec[3]; LD w=bx[i]*by[j]*bz[k]; r+=w*A[id]; c.close(e[id],w,"bspline3d:basis",1e-11,1e-13); if(c.coin(.05)) { c.close(b3.valueOfComponent(p,id),w,"bspline3d:component",1e-11,1e-13); b3.decomposeIndComp(id,dec); c.ok((int)dec[0]==i&&(int)dec[1]==j&&(int)dec[2]==k,"bspline3d:decompose"); double lo[3],hi[3]; b3.nonzeroDomain(id,lo,hi); if(w>1e-9) c.ok(p[0]>=lo[0]&&p[0]<=hi[0]&&p[1]>=lo[1]&&p[1]<=hi[1]&&p[2]>=lo[2]&&p[2]<=hi[2],"bspline3d:domain"); else if(w==0) c.ok(!(p[0]>lo[0]&&p[0]<hi[0]&&p[1]>lo[1]&&p[1]<hi[1]&&p[2]>lo[2]&&p[2]<hi[2]),"bspline3d:domain-tight"); } }
                c.close(b3.interpolate(p,A),r,"bspline3d:interpolate",1e-10,1e-12); c.close(cs.value(p[0],p[1],p[2]),r,"bspline3d:cubic-equivalent",1e-8,1e-9); c.close(b1.interpolate(p,g),li.value(p[0],p[1],p[2]),"bspline3d:linear-equivalent",1e-10,1e-12*amp); }
            struct F3: math::IFunctionNdim { double a[8]; void eval(const double v[],double* o) const { *o=a[0]+a[1]*v[0]+a[2]*v[1]*v[2]+a[3]*v[2]+a[4]*v[0]*v[1]*v[2]; } unsigned int numVars() const { return 3; } unsigned int numValues() const { return 1; } } F; for(double& v: F.a) v=c.nor(); V a3=math::createBsplineInterpolator3dArray<3>(F,x,y,z), a1=math::createBsplineInterpolator3dArray<1>(F,x,y,z); for(int q=0;q<4;q++) { double p[3],v; pt(p[0],p[1]); p[2]=z[0]+(z[nz-1]-z[0])*c.uni(); F.eval(p,&v); c.close(b3.interpolate(p,a3),v,"bspline3d:create-cubic",1e-8,1e-7); c.close(b1.interpolate(p,a1),v,"bspline3d:create-linear",1e-9,1e-9); }
            if(t%8==0) { math::SparseMatrix<double> R=b3.computeRoughnessPenaltyMatrix(); c.ok((int)R.rows()==M,"bspline3d:roughness-size"); math::Matrix<double> D(R); double sym=0,mx=0,lin=0,psd=0; V ra(M); for(int i=0;i<M;i++) for(int j=0;j<M;j++) { sym=std::max(sym,fabs(D(i,j)-D(j,i))); mx=std::max(mx,fabs(D(i,j))); psd+=A[i]*D(i,j)*A[j]; } for(int i=0;i<M;i++) { double q=0; for(int j=0;j<M;j++) q+=D(i,j); lin=std::max(lin,fabs(q)); } c.ok(sym<=1e-10*mx,"bspline3d:roughness-symmetric"); c.ok(lin<=1e-8*mx*M,"bspline3d:roughness-of-constant"); c.ok(psd>=-1e-9*mx,"bspline3d:roughness-positive"); } });
    }
}
static void grids(Ctx& c) {
    for(int t=0;t<c.n(400);t++) {
        int n=c.irand(2,60); double a=c.logu(1e-6,1e3), b=a*c.logu(1.01,1e6);
        vh::run(c,"grids",Str()<<"{\"n\":"<<n<<",\"a\":"<<a<<",\"b\":"<<b<<"}",[&]{
            V u=math::createUniformGrid(n,a,b), e=math::createExpGrid(n,a,b); c.ok((int)u.size()==n&&(int)e.size()==n,"grids:size"); c.ok(u[0]==a&&u[n-1]==b,"grids:uniform-ends"); c.ok(e[0]==a&&e[n-1]==b,"grids:exp-ends"); for(int i=0;i<n;i++) { c.close(u[i],a+(b-a)*i/(n-1),"grids:uniform",1e-12); c.close(e[i],a*pow(b/a,i/(n-1.)),"grids:exp",1e-11); } V um=math::createUniformGrid(n,-b,a); c.close(um[0],-b,"grids:uniform-neg",0); c.ok(um[n-1]==a,"grids:uniform-neg-end");
            if(n>2) { bool z=c.coin(); int m=z?n-1:n; double bb=std::max(b,a*n*1.0000001); V g=math::createNonuniformGrid(n,a,bb,z); c.ok((int)g.size()==n && fabs(g.back()-bb)<1e-14*bb && (z?g[0]==0:fabs(g[0]-a)<1e-12*a),"grids:nonuniform-ends"); if(z) c.close(g[1],a,"grids:nonuniform-first",1e-9); bool inc=true; for(int i=0;i+1<n;i++) inc&=g[i+1]>g[i]; c.ok(inc,"grids:nonuniform-increasing"); (void)m; double r0=NAN; V s(g); if(!z) s.insert(s.begin(),0.); for(size_t i=1;i+1<s.size();i++) { double r=(s[i+1]-s[i])/(s[i]-s[i-1]); if(i==1) r0=r; else c.close(r,r0,"grids:nonuniform-geometric",i+2==s.size()?1e-3:1e-6); c.ok(r>=1-1e-4,"grids:nonuniform-growing"); }
              if(z) { V mi=math::mirrorGrid(g); c.ok(mi.size()==2*g.size()-1,"grids:mirror-size"); for(size_t i=0;i<g.size();i++) c.ok(mi[g.size()-1+i]==g[i]&&mi[g.size()-1-i]==-g[i],"grids:mirror"); } else { bool thr=false; try { math::mirrorGrid(g); } catch(std::exception&) { thr=true; } c.ok(thr,"grids:mirror-invalid"); }
              double w=a, X=std::max(bb,w*n); V sg=math::createSymmetricGrid(n,w,X), su=math::createSymmetricGrid(n,w); c.ok((int)sg.size()==n&&(int)su.size()==n,"grids:symmetric-size"); c.close(sg[n-1],X,"grids:symmetric-end",1e-12); c.close(su[n-1],.5*(n-1)*w,"grids:symmetric-uniform-end",1e-12); for(int i=0;i<n;i++) { c.close(sg[i],-sg[n-1-i],"grids:symmetric",1e-12,1e-14*X); c.close(su[i],w*(i-.5*(n-1)),"grids:symmetric-uniform",1e-11,1e-12*w*n); } double cw=n%2? sg[n/2+1]-sg[n/2]: sg[n/2]-sg[n/2-1]; if(n>3) c.close(cw,w,"grids:symmetric-central",1e-6); bool inc2=true; for(int i=0;i+1<n;i++) inc2&=sg[i+1]>sg[i]; c.ok(inc2,"grids:symmetric-increasing"); }
        });
        if(t%8==0) vh::run(c,"interpgrid",Str()<<"{\"n\":"<<n<<"}",[&]{ double x0=c.uni(-10,10), w=c.logu(.3,5), eps=c.logu(1e-6,1e-3), s1=c.uni(-3,3), s2=c.uni(-3,3); Sm F([&](double x) { double u=(x-x0)/w; return s1*(x-x0)+(s2-s1)*w*(u>30?u:log(1+exp(u))); });
            struct FD: math::IFunction { const Sm& f; double x0,w,s1,s2; FD(const Sm& g,double a,double b2,double d,double e): f(g),x0(a),w(b2),s1(d),s2(e) {} void evalDeriv(double x,double* v,double* d,double* e) const { double u=(x-x0)/w, q=u>300?1:u<-300?0:1/(1+exp(-u)); if(v) *v=f(x); if(d) *d=s1+(s2-s1)*q; if(e) *e=(s2-s1)/w*q*(1-q); } unsigned int numDerivs() const { return 2; } } fd(F,x0,w,s1,s2);
            V g=math::createInterpolationGrid(fd,eps); c.ok(g.size()>=2,"interpgrid:size"); bool inc=true; for(size_t i=0;i+1<g.size();i++) inc&=g[i+1]>g[i]; c.ok(inc,"interpgrid:increasing"); V v; for(double q: g) v.push_back(F(q)); double d0,d1; fd.evalDeriv(g[0],NULL,&d0,NULL); fd.evalDeriv(g.back(),NULL,&d1,NULL); math::CubicSpline s(g,v,false,d0,d1); double err=0; for(int k=0;k<300;k++) { double q=g[0]+(g.back()-g[0])*k/299; err=std::max(err,fabs(s(q)-F(q))); } c.ok(err<20*eps*(1+fabs(s1-s2)),"interpgrid:accuracy",Str()<<err<<" for eps="<<eps<<" nodes="<<g.size()); });
    }
}
int main(int argc,char** argv) { Ctx c(argc,argv); if(c.has("one")) one(c); if(c.has("loglog")) loglog(c); if(c.has("bspline")) bspline(c); if(c.has("multi")) multi(c); if(c.has("grids")) grids(c); c.done(); return 0; }
