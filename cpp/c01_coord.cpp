// C01: coordinate transformations; oracle: extended-precision second-order automatic differentiation
// of the textbook definitions
#include "coord.h"
#include "math_base.h"
#include "vh.h"
#include <algorithm>
using namespace coord; using vh::Jet; using vh::Ctx; using vh::Str;

// ---- a random smooth function of cartesian coordinates
struct TestFn {
    long double c[20], s; bool axi;
    TestFn(Ctx& x, bool _axi, double scale): s(1.0L/scale), axi(_axi) { for(int i=0;i<20;i++) c[i]=x.nor(); }
    Jet operator()(const Jet& X, const Jet& Y, const Jet& Z) const {
        Jet x=X*Jet(s), y=Y*Jet(s), z=Z*Jet(s);
        if(axi) { Jet u=x*x+y*y; return Jet(c[0])*u+Jet(c[1])*z+Jet(c[2])*u*z+Jet(c[3])*u*u+Jet(c[4])*z*z+Jet(c[5])*z*z*z+Jet(c[6])*vh::exp(Jet(0.1)*(u*Jet(c[7])-z*z*Jet(c[8])*Jet(c[8])-u*u)); }
        return Jet(c[0])*x+Jet(c[1])*y+Jet(c[2])*z+Jet(c[3])*x*x+Jet(c[4])*y*y+Jet(c[5])*z*z+Jet(c[6])*x*y+Jet(c[7])*y*z+Jet(c[8])*x*z+
            Jet(c[9])*x*x*y+Jet(c[10])*x*y*z+Jet(c[11])*z*z*y+Jet(c[12])*x*z*z+Jet(c[13])*vh::exp(Jet(0)-(x*x+y*y+z*z)*Jet(0.3)+x*Jet(0.2)-y*z*Jet(0.1));
    }
};
// ---- textbook definitions of coordinate systems: q -> cartesian
template<class CS> void toCarJet(const Jet q[3], double Delta2, Jet x[3]);
template<> void toCarJet<Car>(const Jet q[3], double, Jet x[3]) { x[0]=q[0]; x[1]=q[1]; x[2]=q[2]; }
template<> void toCarJet<Cyl>(const Jet q[3], double, Jet x[3]) { x[0]=q[0]*vh::cos(q[2]); x[1]=q[0]*vh::sin(q[2]); x[2]=q[1]; }   // R,z,phi
template<> void toCarJet<Sph>(const Jet q[3], double, Jet x[3]) { Jet R=q[0]*vh::sin(q[1]); x[0]=R*vh::cos(q[2]); x[1]=R*vh::sin(q[2]); x[2]=q[0]*vh::cos(q[1]); }
template<> void toCarJet<ProlSph>(const Jet q[3], double D2, Jet x[3]) {
    long double sg=q[1].v>=0?1:-1; Jet an=q[1]*Jet(sg);
    Jet R=vh::sqrt((q[0]-Jet(D2))*(Jet(1)-an/Jet(D2))), z=vh::sqrt(q[0]*an/Jet(D2))*Jet(sg);
    x[0]=R*vh::cos(q[2]); x[1]=R*vh::sin(q[2]); x[2]=z;
}
template<> void toCarJet<Axi>(const Jet q[3], double D2, Jet x[3]) {  // rho, nu, phi
    Jet chi = D2>=0? q[0] : vh::sqrt(q[0]*q[0]-Jet(D2)), psi = D2>0? vh::sqrt(q[0]*q[0]+Jet(D2)) : q[0];
    Jet R=chi*vh::sin(q[1]); x[0]=R*vh::cos(q[2]); x[1]=R*vh::sin(q[2]); x[2]=psi*vh::cos(q[1]);
}
template<class CS> struct T;
template<> struct T<Car> { static const char* n(){return "Car";} static void q(const PosCar& p,long double o[3]){o[0]=p.x;o[1]=p.y;o[2]=p.z;} static PosCar mk(const double*q,double){return PosCar(q[0],q[1],q[2]);}
    static void put(const Jet& f, GradCar* g, HessCar* h){ if(g){g->dx=f.g[0];g->dy=f.g[1];g->dz=f.g[2];} if(h){h->dx2=f.h[0][0];h->dy2=f.h[1][1];h->dz2=f.h[2][2];h->dxdy=f.h[0][1];h->dydz=f.h[1][2];h->dxdz=f.h[0][2];} }
    static void get(const GradCar& g,const HessCar& h,double o[9]){o[0]=g.dx;o[1]=g.dy;o[2]=g.dz;o[3]=h.dx2;o[4]=h.dy2;o[5]=h.dz2;o[6]=h.dxdy;o[7]=h.dydz;o[8]=h.dxdz;} };
template<> struct T<Cyl> { static const char* n(){return "Cyl";} static void q(const PosCyl& p,long double o[3]){o[0]=p.R;o[1]=p.z;o[2]=p.phi;} static PosCyl mk(const double*q,double){return PosCyl(q[0],q[1],q[2]);}
    static void put(const Jet& f, GradCyl* g, HessCyl* h){ if(g){g->dR=f.g[0];g->dz=f.g[1];g->dphi=f.g[2];} if(h){h->dR2=f.h[0][0];h->dz2=f.h[1][1];h->dphi2=f.h[2][2];h->dRdz=f.h[0][1];h->dzdphi=f.h[1][2];h->dRdphi=f.h[0][2];} }
    static void get(const GradCyl& g,const HessCyl& h,double o[9]){o[0]=g.dR;o[1]=g.dz;o[2]=g.dphi;o[3]=h.dR2;o[4]=h.dz2;o[5]=h.dphi2;o[6]=h.dRdz;o[7]=h.dzdphi;o[8]=h.dRdphi;} };
template<> struct T<Sph> { static const char* n(){return "Sph";} static void q(const PosSph& p,long double o[3]){o[0]=p.r;o[1]=p.theta;o[2]=p.phi;} static PosSph mk(const double*q,double){return PosSph(q[0],q[1],q[2]);}
    static void put(const Jet& f, GradSph* g, HessSph* h){ if(g){g->dr=f.g[0];g->dtheta=f.g[1];g->dphi=f.g[2];} if(h){h->dr2=f.h[0][0];h->dtheta2=f.h[1][1];h->dphi2=f.h[2][2];h->drdtheta=f.h[0][1];h->dthetadphi=f.h[1][2];h->drdphi=f.h[0][2];} }
    static void get(const GradSph& g,const HessSph& h,double o[9]){o[0]=g.dr;o[1]=g.dtheta;o[2]=g.dphi;o[3]=h.dr2;o[4]=h.dtheta2;o[5]=h.dphi2;o[6]=h.drdtheta;o[7]=h.dthetadphi;o[8]=h.drdphi;} };
template<> struct T<ProlSph> { static const char* n(){return "ProlSph";} static void q(const PosProlSph& p,long double o[3]){o[0]=p.lambda;o[1]=p.nu;o[2]=p.phi;}
    static void put(const Jet& f, GradProlSph* g, HessProlSph* h){ if(g){g->dlambda=f.g[0];g->dnu=f.g[1];g->dphi=f.g[2];} if(h){h->dlambda2=f.h[0][0];h->dnu2=f.h[1][1];h->dlambdadnu=f.h[0][1];} } };
template<> struct T<Axi> { static const char* n(){return "Axi";} static void q(const PosAxi& p,long double o[3]){o[0]=p.rho;o[1]=atan2l(1,p.cotnu);o[2]=p.phi;} static PosAxi mk(const double*q,double D2){return PosAxi(q[0],1/tan(q[1]),q[2],Axi(D2));}
    static void put(const Jet& f, GradAxi* g, HessAxi* h){ if(g){g->drho=f.g[0];g->dnu=f.g[1];g->dphi=f.g[2];} if(h){h->drho2=f.h[0][0];h->dnu2=f.h[1][1];h->dphi2=f.h[2][2];h->drhodnu=f.h[0][1];h->dnudphi=f.h[1][2];h->drhodphi=f.h[0][2];} }
    static void get(const GradAxi& g,const HessAxi& h,double o[9]){o[0]=g.drho;o[1]=g.dnu;o[2]=g.dphi;o[3]=h.drho2;o[4]=h.dnu2;o[5]=h.dphi2;o[6]=h.drhodnu;o[7]=h.dnudphi;o[8]=h.drhodphi;} };

template<class CS> struct Fn: public IScalarFunction<CS> {
    const TestFn& f; double D2;
    Fn(const TestFn& _f, double d): f(_f), D2(d) {}
    void evalScalar(const PosT<CS>& pos, double* val, GradT<CS>* g, HessT<CS>* h, double) const {
        long double q[3]; T<CS>::q(pos, q);
        Jet Q[3]={Jet(q[0],0),Jet(q[1],1),Jet(q[2],2)}, x[3];
        toCarJet<CS>(Q, D2, x);
        Jet r=f(x[0],x[1],x[2]);
        if(val) *val=r.v;
        T<CS>::put(r, g, h);
    }
};
template<class CS> void randq(Ctx& c, double D2, double q[3]);  // generic non-degenerate point
static double angle(Ctx& c) { double a=c.uni(-M_PI,M_PI); if(c.coin(.15)) a=(c.irand(-2,2))*M_PI/2+ (c.coin()?0:c.nor()*1e-3); return a; }
template<> void randq<Car>(Ctx& c, double, double q[3]) { double s=c.logu(1e-2,1e2); for(int i=0;i<3;i++) { q[i]=s*c.nor(); if(c.coin(.1) && i!=0) q[i]=0; } if(fabs(q[0])<1e-2*s) q[0]=1e-2*s*(q[0]<0?-1:1); }
template<> void randq<Cyl>(Ctx& c, double, double q[3]) { double s=c.logu(1e-2,1e2); q[0]=s*c.logu(0.02,2); q[1]=c.coin(.1)?0:s*c.nor(); q[2]=angle(c); }
template<> void randq<Sph>(Ctx& c, double, double q[3]) { q[0]=c.logu(1e-2,1e2); q[1]=c.coin(.1)?M_PI/2:c.uni(0.05,M_PI-0.05); q[2]=angle(c); }
template<> void randq<Axi>(Ctx& c, double D2, double q[3]) { q[0]=sqrt(fabs(D2)+(D2==0))*c.logu(0.05,20); q[1]=c.uni(0.05,M_PI-0.05); q[2]=angle(c); }
// unitless size of derivatives: every gradient component is compared against the norm of the physical gradient
template<class CS> void lame(const double q[3], double D2, double L[3]) {
    Jet Q[3]={Jet(q[0],0),Jet(q[1],1),Jet(q[2],2)}, x[3]; toCarJet<CS>(Q, D2, x);
    for(int i=0;i<3;i++) L[i]=sqrt((double)(x[0].g[i]*x[0].g[i]+x[1].g[i]*x[1].g[i]+x[2].g[i]*x[2].g[i]));
}
template<class Out> void compare(Ctx& c, const std::string& key, const Jet& ref, const double got[9], const double L[3], double tol, double size) {
    // scale of the test function is O(1) over length `size`
    static const int I[9]={0,1,2,0,1,2,0,1,0}, J[9]={-1,-1,-1,0,1,2,1,2,2};
    double G=0, H=0;
    for(int i=0;i<3;i++) { double l=std::max(L[i],1e-300); G=std::max(G,(double)fabsl(ref.g[i])/l); for(int j=0;j<3;j++) H=std::max(H,(double)fabsl(ref.h[i][j])/(l*std::max(L[j],1e-300))); }
    H=std::max(H, G/size);
    static const char* nm[9]={"d1","d2","d3","d11","d22","d33","d12","d23","d13"};
    for(int k=0;k<9;k++) {
        long double r=J[k]<0? ref.g[I[k]] : ref.h[I[k]][J[k]];
        double sc=J[k]<0? G*L[I[k]] : H*L[I[k]]*L[J[k]];
        c.close(got[k], r, key+":"+nm[k], 0, tol*(sc+1e-14*size));
    }
}
template<class Ev, class Out> struct Conv { static void go(const IScalarFunction<Ev>& F, const PosT<Out>& p, double* v, GradT<Out>* g, HessT<Out>* h, double) { evalAndConvert<Ev,Out>(F,p,v,g,h); } };
template<class Out> struct Conv<ProlSph,Out> { static void go(const IScalarFunction<ProlSph>& F, const PosT<Out>& p, double* v, GradT<Out>* g, HessT<Out>* h, double D2) { evalAndConvertTwoStep<ProlSph,Cyl,Out>(F,p,ProlSph(sqrt(D2)),v,g,h,0); } };
template<> struct Conv<ProlSph,Cyl> { static void go(const IScalarFunction<ProlSph>& F, const PosCyl& p, double* v, GradCyl* g, HessCyl* h, double D2) { evalAndConvert<ProlSph,Cyl>(F,p,v,g,h,0,ProlSph(sqrt(D2))); } };
template<> struct Conv<Axi,Cyl> { static void go(const IScalarFunction<Axi>& F, const PosCyl& p, double* v, GradCyl* g, HessCyl* h, double D2) { evalAndConvert<Axi,Cyl>(F,p,v,g,h,0,Axi(D2)); } };

template<class Ev, class Out> void chainRule(Ctx& c, int num, int kind /*0 generic, 1 prolate, 2 axi-output*/) {
    std::string key=Str()<<"chain:"<<T<Ev>::n()<<"->"<<T<Out>::n();
    for(int k=0;k<num;k++) {
        double D2=0, q[3]; bool axi=kind==1;
        if(kind==1) D2=c.logu(1e-2,1e2);
        if(kind==2) { D2=c.coin(.2)?0:c.logu(1e-2,1e2)*(c.coin()?1:-1); }
        randq<Out>(c,D2,q);
        if(kind) { // avoid the vicinity of focal points and the planes where the spheroidal coordinates are singular
            Jet Q[3]={Jet(q[0],0),Jet(q[1],1),Jet(q[2],2)}, x[3]; toCarJet<Out>(Q, D2, x);
            double R=hypot(x[0].v,x[1].v), z=fabs(x[2].v), s=sqrt(R*R+z*z);
            D2=D2==0?0:(D2>0?1:-1)*s*s*c.logu(0.03,30);
            if(T<Out>::n()[0]=='A') { double sq=sqrt(fabs(D2)); if(sq>0) q[0]=sq*c.logu(0.1,10); }
            else if(z<0.05*s || R<0.05*s || (D2>0 && hypot(R,z-sqrt(D2))<0.1*s) || (D2<0 && hypot(R-sqrt(-D2),z)<0.1*s)) continue;
        }
        Str par; par<<"q="<<q[0]<<","<<q[1]<<","<<q[2]<<" D2="<<D2;
        vh::run(c, key, par, [&]{
            Jet Q[3]={Jet(q[0],0),Jet(q[1],1),Jet(q[2],2)}, x[3]; toCarJet<Out>(Q, D2, x);
            double s=sqrt((double)(x[0].v*x[0].v+x[1].v*x[1].v+x[2].v*x[2].v)), R=hypot((double)x[0].v,(double)x[1].v);
            TestFn f(c, axi, s);
            Jet ref=f(x[0],x[1],x[2]);
            Fn<Ev> F(f, D2);
            double L[3]; lame<Out>(q,D2,L);
            double v=0, o[9]; GradT<Out> g, g1; HessT<Out> h, h1;
            PosT<Out> p=T<Out>::mk(q,D2);
            Conv<Ev,Out>::go(F,p,&v,&g,&h,D2);
            T<Out>::get(g,h,o);
            double tol=3e-13*pow(s/R,2)*(kind?30:1);
            c.close(v, ref.v, key+":value", 0, 1e-12*(1+fabs((double)ref.v)));
            compare<Out>(c, key, ref, o, L, tol, s);
            // every subset of outputs agrees with the full one
            double o1[9], v1=0;
            Conv<Ev,Out>::go(F,p,&v1,NULL,NULL,D2); c.close(v1,v,key+":subset-v",1e-13,1e-13);
            Conv<Ev,Out>::go(F,p,NULL,&g1,NULL,D2); T<Out>::get(g1,h,o1); for(int i=0;i<3;i++) c.close(o1[i],o[i],key+":subset-g",1e-12,1e-13*fabs(o[i]));
            Conv<Ev,Out>::go(F,p,NULL,NULL,&h1,D2); T<Out>::get(g,h1,o1); for(int i=3;i<9;i++) c.close(o1[i],o[i],key+":subset-h",1e-12);
        });
    }
}

// ---- reference conversion of (position, velocity) to cartesian, extended precision
static void carOf(const PosVelCar& p, long double o[6]) { o[0]=p.x;o[1]=p.y;o[2]=p.z;o[3]=p.vx;o[4]=p.vy;o[5]=p.vz; }
static void carOf(const PosVelCyl& p, long double o[6]) { long double C=cosl(p.phi),S=sinl(p.phi); o[0]=p.R*C;o[1]=p.R*S;o[2]=p.z;o[3]=p.vR*C-p.vphi*S;o[4]=p.vR*S+p.vphi*C;o[5]=p.vz; }
static void carOf(const PosVelSph& p, long double o[6]) { long double C=cosl(p.phi),S=sinl(p.phi),ct=cosl(p.theta),st=sinl(p.theta);
    o[0]=p.r*st*C;o[1]=p.r*st*S;o[2]=p.r*ct; long double vR=p.vr*st+p.vtheta*ct; o[3]=vR*C-p.vphi*S;o[4]=vR*S+p.vphi*C;o[5]=p.vr*ct-p.vtheta*st; }
static void carOf(const PosVelAxi& p, long double o[6]) {   // orthonormal components along rho, nu, phi
    long double nu=atan2l(1,p.cotnu);
    Jet Q[3]={Jet(p.rho,0),Jet(nu,1),Jet(p.phi,2)}, x[3]; toCarJet<Axi>(Q,p.cs.Delta2,x);
    long double V[3]={p.vrho,p.vnu,p.vphi};
    for(int k=0;k<3;k++) { o[k]=x[k].v; o[3+k]=0; }
    for(int i=0;i<3;i++) { long double n=sqrtl(x[0].g[i]*x[0].g[i]+x[1].g[i]*x[1].g[i]+x[2].g[i]*x[2].g[i]); if(i==2) { o[3]-=V[2]*sinl(p.phi); o[4]+=V[2]*cosl(p.phi); } else for(int k=0;k<3;k++) o[3+k]+=V[i]*x[k].g[i]/n; }
}
template<class A> PosVelT<A> randpv(Ctx& c, int deg);
template<> PosVelCar randpv<Car>(Ctx& c, int deg) {
    double s=c.logu(1e-8,1e8), v=c.logu(1e-4,1e4), a[6]; for(int i=0;i<6;i++) a[i]=c.nor()*(i<3?s:v);
    if(deg&1) a[0]=a[1]=0; if(deg&2) a[2]=0; if(deg&4) a[3]=a[4]=0; if(deg&8) a[5]=0; if(deg&16) { a[0]*=1e-9; a[1]*=1e-9; } if(deg&32) a[1]=0;
    return PosVelCar(a);
}
static void degp(Ctx& c, int deg, double& R, double& z) { double s=c.logu(1e-8,1e8); R=s*fabs(c.nor()); z=s*c.nor(); if(deg&1) R=0; if(deg&2) z=0; if(deg&16) R*=1e-9; if(deg&32) z*=1e-9; }
template<> PosVelCyl randpv<Cyl>(Ctx& c, int deg) { double R,z; degp(c,deg,R,z); double v=c.logu(1e-4,1e4);
    return PosVelCyl(R,z,angle(c), deg&4?0:v*c.nor(), deg&8?0:v*c.nor(), (R==0||deg&4)?0:v*c.nor()); }
template<> PosVelSph randpv<Sph>(Ctx& c, int deg) { double v=c.logu(1e-4,1e4), r=c.logu(1e-8,1e8), th=c.uni(0,M_PI);
    bool ax=false; if(deg&1) { th=c.coin()?0:M_PI; ax=true; } if(deg&2) th=M_PI/2; if(deg&16 && !ax) th=c.coin()?1e-7:M_PI-1e-7;
    return PosVelSph(r,th,angle(c), v*c.nor(), deg&4?0:v*c.nor(), ax?0:v*c.nor()); }
template<class A, class B> void pvCheck(Ctx& c, int num) {
    std::string key=Str()<<"posvel:"<<T<A>::n()<<"->"<<T<B>::n();
    for(int k=0;k<num;k++) {
        int deg=k<64?k: (c.coin(.5)?0:c.irand(0,63));
        PosVelT<A> a=randpv<A>(c,deg);
        long double ca[6]; carOf(a,ca);
        Str par; for(int i=0;i<6;i++) par<<(double)ca[i]<<" ";
        vh::run(c,key,par,[&]{
            double s=sqrt((double)(ca[0]*ca[0]+ca[1]*ca[1]+ca[2]*ca[2])), v=sqrt((double)(ca[3]*ca[3]+ca[4]*ca[4]+ca[5]*ca[5])), R=hypot((double)ca[0],(double)ca[1]);
            PosVelT<B> b=toPosVel<A,B>(a);
            long double cb[6]; carOf(b,cb);
            for(int i=0;i<3;i++) c.close(cb[i],ca[i],key+":pos",0,8e-15*s+1e-300);
            for(int i=3;i<6;i++) c.close(cb[i],ca[i],key+":vel",0,2e-14*v);
            PosVelT<A> a2=toPosVel<B,A>(b);
            long double c2[6]; carOf(a2,c2);
            for(int i=0;i<3;i++) c.close(c2[i],ca[i],key+":roundtrip-pos",0,2e-14*s+1e-300);
            for(int i=3;i<6;i++) c.close(c2[i],ca[i],key+":roundtrip-vel",0,4e-14*v);
            long double lx=ca[1]*ca[5]-ca[2]*ca[4], ly=ca[2]*ca[3]-ca[0]*ca[5], lz=ca[0]*ca[4]-ca[1]*ca[3];
            long double L=sqrtl(lx*lx+ly*ly+lz*lz);
            c.close(Lz(a),lz,key+":Lz-src",0,1e-14*R*v+1e-15*s*v+1e-300); c.close(Lz(b),lz,key+":Lz",0,1e-14*R*v+1e-15*s*v+1e-300);
            c.close(Ltotal(a),L,key+":Ltot-src",0,1e-14*s*v); c.close(Ltotal(b),L,key+":Ltot",0,1e-14*s*v);
            // pure position conversion agrees with that of position+velocity (except when phi is taken from the velocity)
            PosT<B> pb=toPos<A,B>(a);
            long double q1[3],q2[3]; T<B>::q(pb,q1); T<B>::q(b,q2);
            Jet Q1[3]={Jet(q1[0]),Jet(q1[1]),Jet(q1[2])}, x1[3]; toCarJet<B>(Q1,0,x1);
            for(int i=0;i<3;i++) c.close(x1[i].v,ca[i],key+":posonly",0,8e-15*s+1e-300);
            if(R>0) for(int i=0;i<3;i++) c.close(q1[i],q2[i],key+":pos-vs-posvel",1e-15);
        });
    }
}
int main(int argc, char** argv) {
    Ctx c(argc,argv);
    if(c.has("chain")) {
        int N=c.n(1500);
        chainRule<Cyl,Car>(c,N,0); chainRule<Sph,Car>(c,N,0); chainRule<Car,Cyl>(c,N,0); chainRule<Sph,Cyl>(c,N,0); chainRule<Car,Sph>(c,N,0); chainRule<Cyl,Sph>(c,N,0);
        chainRule<ProlSph,Cyl>(c,N,1); chainRule<ProlSph,Car>(c,N,1); chainRule<ProlSph,Sph>(c,N,1);
        chainRule<Axi,Cyl>(c,N,2); chainRule<Cyl,Axi>(c,N,2);
        // spherically symmetric functions, including the origin
        for(int k=0;k<N;k++) {
            double a=c.uni(0.5,3), b=c.nor(), s=c.coin(.1)?0:c.logu(1e-3,1e3), x[3]={s*c.nor(),s*c.nor(),s*c.nor()};
            if(c.coin(.2)) x[0]=x[1]=0;
            vh::run(c,"chainSph",Str()<<a<<" "<<b<<" "<<x[0]<<" "<<x[1]<<" "<<x[2],[&]{
                struct F1: public math::IFunction { double a,b; void evalDeriv(const double r,double*v,double*d,double*d2) const {
                    double u=1+r*r*a; if(v)*v=b/sqrt(u); if(d)*d=-b*a*r/(u*sqrt(u)); if(d2)*d2=-b*a/(u*sqrt(u))+3*b*a*a*r*r/(u*u*sqrt(u)); } unsigned numDerivs() const {return 2;} } f; f.a=a; f.b=b;
                Jet X[3]={Jet(x[0],0),Jet(x[1],1),Jet(x[2],2)};
                Jet ref=Jet(b)/vh::sqrt(Jet(1)+Jet(a)*(X[0]*X[0]+X[1]*X[1]+X[2]*X[2]));
                double v; GradCar g; HessCar h; evalAndConvertSph(f,PosCar(x[0],x[1],x[2]),&v,&g,&h);
                double o[9]; T<Car>::get(g,h,o); double L[3]={1,1,1};
                double r=sqrt(x[0]*x[0]+x[1]*x[1]+x[2]*x[2]);
                c.close(v,ref.v,"chainSph:value",1e-14); compare<Car>(c,"chainSph:Car",ref,o,L,1e-13,std::max(r,1e-3));
                HessCar h2; evalAndConvertSph(f,PosCar(x[0],x[1],x[2]),(double*)NULL,(GradCar*)NULL,&h2); c.close(h2.dxdy,h.dxdy,"chainSph:subset",1e-15); c.close(h2.dz2,h.dz2,"chainSph:subset",1e-15);
                double R=hypot(x[0],x[1]), phi=atan2(x[1],x[0]);
                Jet Q[3]={Jet(R,0),Jet(x[2],1),Jet(phi,2)}; Jet rc=Jet(b)/vh::sqrt(Jet(1)+Jet(a)*(Q[0]*Q[0]+Q[1]*Q[1]));
                GradCyl gc; HessCyl hc; evalAndConvertSph(f,PosCyl(R,x[2],phi),&v,&gc,&hc); double oc[9]; T<Cyl>::get(gc,hc,oc); double Lc[3]={1,1,R};
                compare<Cyl>(c,"chainSph:Cyl",rc,oc,Lc,1e-13,std::max(r,1e-3));
                Jet P[3]={Jet(r,0),Jet(atan2(R,x[2]),1),Jet(phi,2)}; Jet rs=Jet(b)/vh::sqrt(Jet(1)+Jet(a)*P[0]*P[0]);
                GradSph gs; HessSph hs; evalAndConvertSph(f,PosSph(r,atan2(R,x[2]),phi),&v,&gs,&hs); double os[9]; T<Sph>::get(gs,hs,os); double Ls[3]={1,r,R};
                compare<Sph>(c,"chainSph:Sph",rs,os,Ls,1e-13,std::max(r,1e-3));
            });
        }
    }
    if(c.has("posvel")) {
        int N=c.n(3000);
        pvCheck<Car,Cyl>(c,N); pvCheck<Car,Sph>(c,N); pvCheck<Cyl,Car>(c,N); pvCheck<Cyl,Sph>(c,N); pvCheck<Sph,Car>(c,N); pvCheck<Sph,Cyl>(c,N);
        // origin: the result must be finite, at the origin, and with the right speed
        for(int k=0;k<200;k++) vh::run(c,"origin",Str()<<k<<" "<<c.seed,[&]{
            double v[3]={c.nor(),c.nor(),c.nor()}; if(k%3==1) v[0]=v[1]=0; if(k%5==1) v[2]=0; if(k==50) v[0]=v[1]=v[2]=0;
            double V=sqrt(v[0]*v[0]+v[1]*v[1]+v[2]*v[2]);
            PosVelCar p(0,0,0,v[0],v[1],v[2]);
            long double o[6];
            carOf(toPosVelCyl(p),o); for(int i=0;i<3;i++) { c.ok(o[i]==0,"origin:Cyl-pos"); c.close(o[i+3],v[i],"origin:Cyl-vel",0,5e-15*V); }
            carOf(toPosVelSph(p),o); for(int i=0;i<3;i++) { c.ok(o[i]==0,"origin:Sph-pos"); c.close(o[i+3],v[i],"origin:Sph-vel",0,5e-15*V); }
            PosVelCyl pc(0,0,1.,v[0],v[2],0); long double oc[6]; carOf(pc,oc);
            PosVelSph ps=toPosVelSph(pc); carOf(ps,o); for(int i=0;i<6;i++) c.close(o[i],oc[i],"origin:Cyl->Sph",0,5e-15*V);
            PosCyl c0=toPosCyl(PosCar(0,0,0)); PosSph s0=toPosSph(PosCar(0,0,0)); c.ok(c0.R==0&&c0.z==0&&std::isfinite(c0.phi),"origin:pos"); c.ok(s0.r==0&&std::isfinite(s0.theta)&&std::isfinite(s0.phi),"origin:pos");
            PosCar ic=toPosCar(PosSph(INFINITY,M_PI/2,0)); c.ok(ic.x==INFINITY && ic.y==0,"origin:inf"); ic=toPosCar(PosSph(INFINITY,0,0)); c.ok(ic.z==INFINITY && ic.x==0,"origin:inf-axis");
        });
        // infinitely distant and tiny points keep the documented meaning of theta, phi ranges
        for(int k=0;k<N;k++) vh::run(c,"range",Str()<<k<<" "<<c.seed,[&]{
            PosVelCar p=randpv<Car>(c,k%64); PosSph s=toPosSph(p); PosCyl y=toPosCyl(p);
            c.ok(s.r>=0 && s.theta>=0 && s.theta<=M_PI && fabs(s.phi)<=M_PI && y.R>=0 && fabs(y.phi)<=M_PI && y.z==p.z,"range:pos");
            if(p.z!=0) c.ok((s.theta<=M_PI/2)==(p.z>0),"range:hemisphere");
        });
    }
    if(c.has("spheroidal")) {
        int N=c.n(6000);
        for(int k=0;k<N;k++) {
            double s=c.logu(1e-4,1e4), R=s*fabs(c.nor()), z=s*c.nor(), D=s*c.logu(1e-4,1e4);
            int deg=k%40;
            if(deg==1||deg==5) R=0; if(deg==2) z=0; if(deg==3) R*=1e-8; if(deg==4) z*=1e-8; if(deg==5) z=D*c.uni(-.99,.99); if(deg==6) { z=0; R=D*c.logu(1e-3,1e3); }
            double v[3]={c.nor(),c.nor(),R==0?0:c.nor()}, phi=angle(c);
            vh::run(c,"spheroidal",Str()<<R<<" "<<z<<" "<<D<<" "<<deg,[&]{
                ProlSph cs(D); PosCyl pc(R,z,phi);
                PosProlSph pp=toPos<Cyl,ProlSph>(pc,cs);
                long double D2=cs.Delta2;   // the square is rounded once, in the constructor
                c.close(D2,(long double)D*D,"spheroidal:Delta2",1e-15);
                c.ok(pp.lambda>=(double)D2*(1-1e-14) && fabs(pp.nu)<=(double)D2*(1+1e-14) && (z==0 || pp.nu==0 || (pp.nu>0)==(z>0)),"spheroidal:range");
                // defining equations: lambda+|nu| = R^2+z^2+D^2, lambda*|nu| = z^2 D^2
                long double R2=(long double)R*R, z2=(long double)z*z, an=fabsl(pp.nu);
                c.close(pp.lambda+an,R2+z2+D2,"spheroidal:sum",2e-14); c.close(pp.lambda*an,z2*D2,"spheroidal:prod",3e-14,1e-300);
                PosCyl back=toPos<ProlSph,Cyl>(pp); double sc=std::max(sqrt(R*R+z*z),D);
                c.close(back.z,z,"spheroidal:roundtrip-z",1e-13,1e-300); c.close(back.R,R,"spheroidal:roundtrip-R",1e-9,2e-8*sc); c.ok(back.phi==phi,"spheroidal:phi");
                for(int sg=-1;sg<=1;sg++) {
                    Axi ax(sg*D*D); PosAxi pa=toPos<Cyl,Axi>(pc,ax); PosCyl ba=toPos<Axi,Cyl>(pa);
                    double scale=sqrt(R*R+z*z);
                    bool foc=(sg>0 && R<1e-3*D) || (sg<0 && fabs(z)<1e-3*D);   // conditioning near the focal segment/disk
                    double tl=foc?1e-6:3e-13;
                    if(!(R==0&&z==0)) { c.close(ba.R,R,"spheroidal:axi-R",tl,1e-14*scale); c.close(ba.z,z,"spheroidal:axi-z",tl,1e-14*scale); }
                    c.ok(pa.rho>=0 && ba.phi==phi,"spheroidal:axi-range");
                    PosVelCyl pv(R,z,phi,v[0],v[1],v[2]);
                    PosVelAxi va=toPosVel<Cyl,Axi>(pv,ax); double sp=sqrt(v[0]*v[0]+v[1]*v[1]+v[2]*v[2]);
                    c.close(sqrt(va.vrho*va.vrho+va.vnu*va.vnu+va.vphi*va.vphi),sp,"spheroidal:axi-speed",1e-12);
                    c.close(Lz(va),R*v[2],"spheroidal:axi-Lz",tl,1e-13*scale*sp); 
                    PosVelCyl vb=toPosVel<Axi,Cyl>(va);
                    if(!foc) { long double o1[6],o2[6]; carOf(pv,o1); carOf(vb,o2); for(int i=0;i<6;i++) c.close(o2[i],o1[i],"spheroidal:axi-roundtrip",0,(i<3?scale:sp)*1e-9);
                        if(R>1e-3*scale && fabs(z)>1e-3*scale && (sg==0||fabs(scale-D)>.1*D)) { carOf(va,o2); for(int i=0;i<6;i++) c.close(o2[i],o1[i],"spheroidal:axi-components",0,(i<3?scale:sp)*1e-8);
                            // canonical momenta p_q = sum v_k dx_k/dq
                            double pr,pn,pf; va.momenta(pr,pn,pf);
                            long double nu=atan2l(1,va.cotnu); Jet Q[3]={Jet(va.rho,0),Jet(nu,1),Jet(va.phi,2)}, x[3]; toCarJet<Axi>(Q,ax.Delta2,x);
                            double P[3]={pr,pn,pf}; for(int i=0;i<3;i++) { long double e=0,n=0; for(int q=0;q<3;q++) { e+=o1[3+q]*x[q].g[i]; n+=fabsl(x[q].g[i]); } c.close(P[i],e,"spheroidal:momenta",0,1e-8*n*sp); } } }
                }
                if(R>1e-2*D && fabs(z)>1e-2*D && R<1e2*D && fabs(z)<1e2*D) {
                    PosVelCyl pv(R,z,phi,v[0],v[1],v[2]);
                    PosVelProlSph vp=toPosVel<Cyl,ProlSph>(pv,cs);
                    long double qq[3]={vp.lambda,vp.nu,vp.phi}; Jet Q[3]={Jet(qq[0],0),Jet(qq[1],1),Jet(qq[2],2)}, x[3]; toCarJet<ProlSph>(Q,cs.Delta2,x);
                    long double o1[6]; carOf(pv,o1); double sp=sqrt(v[0]*v[0]+v[1]*v[1]+v[2]*v[2]);
                    for(int q=0;q<3;q++) { long double e=x[q].g[0]*vp.lambdadot+x[q].g[1]*vp.nudot+x[q].g[2]*vp.phidot; c.close(e,o1[3+q],"spheroidal:prol-vel",0,1e-8*sp); }
                }
            });
        }
        for(int k=0;k<200;k++) { PosVelSph ps=randpv<Sph>(c,0); vh::run(c,"sphmomenta",Str()<<ps.r<<" "<<ps.theta,[&]{ double a,b,d; ps.momenta(a,b,d); c.close(a,ps.vr,"sphmomenta",1e-14); c.close(b,ps.r*ps.vtheta,"sphmomenta",1e-14); c.close(d,ps.r*sinl(ps.theta)*ps.vphi,"sphmomenta",1e-13); }); }
    }
    if(c.has("rotation")) {
        int N=c.n(4000);
        for(int k=0;k<N;k++) {
            double A[3]={angle(c),angle(c),angle(c)}; if(k%9==0) A[1]=0; if(k%11==0) A[1]=M_PI; if(k%13==0) A[1]=1e-9; if(k%7==0) for(int i=0;i<3;i++) A[i]*=7;
            vh::run(c,"rotation",Str()<<A[0]<<" "<<A[1]<<" "<<A[2],[&]{
                Orientation o(A[0],A[1],A[2]), inv(-A[2],-A[1],-A[0]);
                long double M[9], ca=cosl(A[0]),sa=sinl(A[0]),cb=cosl(A[1]),sb=sinl(A[1]),cc=cosl(A[2]),sc=sinl(A[2]);
                long double Ra[3][3]={{ca,sa,0},{-sa,ca,0},{0,0,1}}, Rb[3][3]={{1,0,0},{0,cb,sb},{0,-sb,cb}}, Rc[3][3]={{cc,sc,0},{-sc,cc,0},{0,0,1}}, t[3][3];
                for(int i=0;i<3;i++) for(int j=0;j<3;j++) { t[i][j]=0; for(int l=0;l<3;l++) t[i][j]+=Rb[i][l]*Ra[l][j]; }
                for(int i=0;i<3;i++) for(int j=0;j<3;j++) { M[i*3+j]=0; for(int l=0;l<3;l++) M[i*3+j]+=Rc[i][l]*t[l][j]; }
                for(int i=0;i<9;i++) { c.close(o.mat[i],M[i],"rotation:matrix",0,2e-13); c.close(inv.mat[i],o.mat[(i%3)*3+i/3],"rotation:inverse",0,2e-13); }
                double a,b,g; o.toEulerAngles(a,b,g); Orientation o2(a,b,g);
                for(int i=0;i<9;i++) c.close(o2.mat[i],o.mat[i],"rotation:euler",0,2e-13); c.ok(b>=0&&b<=M_PI&&fabs(a)<=M_PI&&fabs(g)<=M_PI,"rotation:euler-range");
                c.ok(o.isFaceOn()==(fabs(o.mat[8])==1),"rotation:faceon");
                double x[3]={c.nor(),c.nor(),c.nor()}, v[3]={c.nor(),c.nor(),c.nor()}, r[3], y[3], h[6];
                for(int i=0;i<6;i++) h[i]=c.nor();
                o.toRotated(x,r); o.fromRotated(r,y);
                for(int i=0;i<3;i++) { long double e=M[3*i]*x[0]+M[3*i+1]*x[1]+M[3*i+2]*x[2]; c.close(r[i],e,"rotation:apply",0,2e-13); c.close(y[i],x[i],"rotation:back",0,2e-13); }
                PosCar px(x[0],x[1],x[2]); PosCar pr=o.toRotated(px), pb=o.fromRotated(pr); c.close(pr.x,r[0],"rotation:pos",0,2e-14); c.close(pr.y,r[1],"rotation:pos",0,2e-14); c.close(pr.z,r[2],"rotation:pos",0,2e-14); c.close(pb.x,x[0],"rotation:posback",0,2e-13); c.close(pb.y,x[1],"rotation:posback",0,2e-13); c.close(pb.z,x[2],"rotation:posback",0,2e-13);
                VelCar vx(x[0],x[1],x[2]); VelCar vr=o.toRotated(vx), vb=o.fromRotated(vr); c.close(vr.vx,r[0],"rotation:vel",0,2e-14); c.close(vr.vy,r[1],"rotation:vel",0,2e-14); c.close(vr.vz,r[2],"rotation:vel",0,2e-14); c.close(vb.vx,x[0],"rotation:velback",0,2e-13); c.close(vb.vy,x[1],"rotation:velback",0,2e-13); c.close(vb.vz,x[2],"rotation:velback",0,2e-13);
                PosVelCar xv(x[0],x[1],x[2],v[0],v[1],v[2]); PosVelCar xr=o.toRotated(xv), xb=o.fromRotated(xr); double rv[3]; o.toRotated(v,rv);
                { double xq[6]; xr.unpack_to(xq); for(int i=0;i<3;i++) { c.close(xq[i],r[i],"rotation:posvel",0,2e-14); c.close(xq[3+i],rv[i],"rotation:posvel",0,2e-14); } }
                double xs[6]={x[0],x[1],x[2],v[0],v[1],v[2]}, xo[6]; xb.unpack_to(xo); for(int i=0;i<6;i++) c.close(xo[i],xs[i],"rotation:posvelback",0,2e-13);
                GradCar gx; gx.dx=x[0];gx.dy=x[1];gx.dz=x[2]; GradCar gr=o.toRotated(gx), gb=o.fromRotated(gr); c.close(gr.dx,r[0],"rotation:grad",0,2e-14); c.close(gr.dy,r[1],"rotation:grad",0,2e-14); c.close(gr.dz,r[2],"rotation:grad",0,2e-14); c.close(gb.dx,x[0],"rotation:gradback",0,2e-13); c.close(gb.dy,x[1],"rotation:gradback",0,2e-13); c.close(gb.dz,x[2],"rotation:gradback",0,2e-13);
                // symmetric tensors: R H R^T and back
                long double H[3][3]={{h[0],h[3],h[5]},{h[3],h[1],h[4]},{h[5],h[4],h[2]}}, E[3][3], B[3][3];
                for(int i=0;i<3;i++) for(int j=0;j<3;j++) { E[i][j]=B[i][j]=0; for(int p=0;p<3;p++) for(int q=0;q<3;q++) { E[i][j]+=M[3*i+p]*H[p][q]*M[3*j+q]; B[i][j]+=M[3*p+i]*H[p][q]*M[3*q+j]; } }
                HessCar hx; hx.dx2=h[0];hx.dy2=h[1];hx.dz2=h[2];hx.dxdy=h[3];hx.dydz=h[4];hx.dxdz=h[5];
                for(int d=0;d<2;d++) { HessCar hr=d?o.fromRotated(hx):o.toRotated(hx); long double (*W)[3]=d?B:E; const char* nm=d?"rotation:hess-from":"rotation:hess-to";
                    c.close(hr.dx2,W[0][0],nm,0,2e-13); c.close(hr.dy2,W[1][1],nm,0,2e-13); c.close(hr.dz2,W[2][2],nm,0,2e-13); c.close(hr.dxdy,W[0][1],nm,0,2e-13); c.close(hr.dydz,W[1][2],nm,0,2e-13); c.close(hr.dxdz,W[0][2],nm,0,2e-13); }
                Vel2Car wx; wx.vx2=h[0];wx.vy2=h[1];wx.vz2=h[2];wx.vxvy=h[3];wx.vyvz=h[4];wx.vxvz=h[5];
                for(int d=0;d<2;d++) { Vel2Car hr=d?o.fromRotated(wx):o.toRotated(wx); long double (*W)[3]=d?B:E; const char* nm=d?"rotation:vel2-from":"rotation:vel2-to";
                    c.close(hr.vx2,W[0][0],nm,0,2e-13); c.close(hr.vy2,W[1][1],nm,0,2e-13); c.close(hr.vz2,W[2][2],nm,0,2e-13); c.close(hr.vxvy,W[0][1],nm,0,2e-13); c.close(hr.vyvz,W[1][2],nm,0,2e-13); c.close(hr.vxvz,W[0][2],nm,0,2e-13); }
            });
        }
        // linear combinations used to accumulate results
        for(int k=0;k<500;k++) vh::run(c,"combine",Str()<<k,[&]{
            double a=c.nor(), b=c.nor(), A[9], B[9];
            for(int i=0;i<9;i++) { A[i]=c.nor(); B[i]=c.nor(); }
            #define CMB(CS) { GradT<CS> g1,g2; HessT<CS> h1,h2; Jet ja, jb; int t=0; for(int i=0;i<3;i++) { ja.g[i]=A[i]; jb.g[i]=B[i]; } t=3; for(int i=0;i<3;i++) for(int j=i;j<3;j++) { ja.h[i][j]=ja.h[j][i]=A[t]; jb.h[i][j]=jb.h[j][i]=B[t]; t++; } \
                T<CS>::put(ja,&g1,&h1); T<CS>::put(jb,&g2,&h2); double o1[9],o2[9],o3[9]; T<CS>::get(g1,h1,o1); T<CS>::get(g2,h2,o2); combine(g1,g2,a,b); combine(h1,h2,a,b); T<CS>::get(g1,h1,o3); \
                for(int i=0;i<9;i++) c.close(o3[i],a*o1[i]+b*o2[i],"combine:" #CS,1e-14,1e-14); clear(g1); clear(h1); T<CS>::get(g1,h1,o3); for(int i=0;i<9;i++) c.ok(o3[i]==0,"combine:clear" #CS); }
            CMB(Car) CMB(Cyl) CMB(Sph)
            PosVelCar p(A[0],A[1],A[2],A[3],A[4],A[5]), q(B[0],B[1],B[2],B[3],B[4],B[5]); combine(p,q,a,b); double o[6]; p.unpack_to(o); for(int i=0;i<6;i++) c.close(o[i],a*A[i]+b*B[i],"combine:PosVel",1e-14,1e-14);
        });
        // symmetry classes: the bit algebra of declared symmetries
        int names[]={ST_NONE,ST_XREFLECTION,ST_YREFLECTION,ST_ZREFLECTION,ST_REFLECTION,ST_ZROTATION,ST_ROTATION,ST_TRIAXIAL,ST_BISYMMETRIC,ST_AXISYMMETRIC,ST_SPHERICAL};
        for(int i=0;i<11;i++) vh::run(c,"symmetry",Str()<<i,[&]{
            SymmetryType s=static_cast<SymmetryType>(names[i]);
            if(isSpherical(s)) c.ok(isAxisymmetric(s),"symmetry:sph-axi"); if(isAxisymmetric(s)) c.ok(isTriaxial(s)&&isZRotSymmetric(s),"symmetry:axi-tri");
            if(isTriaxial(s)) c.ok(isXReflSymmetric(s)&&isYReflSymmetric(s)&&isZReflSymmetric(s)&&isReflSymmetric(s),"symmetry:tri-refl");
            if(isTriaxial(s)) c.ok(isBisymmetric(s),"symmetry:tri-bi"); if(isBisymmetric(s)) c.ok(isZReflSymmetric(s)&&isReflSymmetric(s),"symmetry:bi");
        });
    }
    c.done();
}
