// generator of random density/potential models covering every type known to the factory
#pragma once
#include "vh.h"
#include "potential_base.h"
#include "potential_factory.h"
#include "potential_analytic.h"
#include "potential_composite.h"
#include "potential_multipole.h"
#include "potential_cylspline.h"
#include "potential_utils.h"
#include "utils_config.h"
#include "utils.h"
#include <fstream>
#include <unistd.h>
namespace gen {
using namespace potential;
typedef utils::KeyValueMap KV;
// a sum of Plummer spheres at arbitrary positions: an exactly known source without any special symmetry,
// or with a chosen discrete symmetry when the positions are replicated
struct Blob { double x,y,z,m,b; };
class Blobs: public BasePotentialCar {
public:
    std::vector<Blob> bl; coord::SymmetryType sym;
    Blobs(const std::vector<Blob>& b, coord::SymmetryType s): bl(b), sym(s) {}
    virtual coord::SymmetryType symmetry() const { return sym; }
    virtual std::string name() const { return "Blobs"; }
    virtual double totalMass() const { double m=0; for(size_t i=0;i<bl.size();i++) m+=bl[i].m; return m; }
private:
    virtual void evalCar(const coord::PosCar& p, double* pot, coord::GradCar* g, coord::HessCar* h, double) const {
        if(pot) *pot=0; if(g) coord::clear(*g); if(h) coord::clear(*h);
        for(size_t i=0;i<bl.size();i++) {
            double x=p.x-bl[i].x, y=p.y-bl[i].y, z=p.z-bl[i].z, s2=x*x+y*y+z*z+bl[i].b*bl[i].b, s=sqrt(s2), m=bl[i].m/s, m3=m/s2, m5=3*m3/s2;
            if(pot) *pot-=m;
            if(g) { g->dx+=m3*x; g->dy+=m3*y; g->dz+=m3*z; }
            if(h) { h->dx2+=m3-m5*x*x; h->dy2+=m3-m5*y*y; h->dz2+=m3-m5*z*z; h->dxdy-=m5*x*y; h->dydz-=m5*y*z; h->dxdz-=m5*x*z; }
        }
    }
    virtual double densityCar(const coord::PosCar& p, double) const {
        double d=0;
        for(size_t i=0;i<bl.size();i++) {
            double x=p.x-bl[i].x, y=p.y-bl[i].y, z=p.z-bl[i].z, s2=x*x+y*y+z*z+bl[i].b*bl[i].b;
            d+=3/(4*M_PI)*bl[i].m*bl[i].b*bl[i].b/(s2*s2*sqrt(s2));
        }
        return d;
    }
    virtual double densityCyl(const coord::PosCyl& p, double t) const { return densityCar(toPosCar(p),t); }
    virtual double densitySph(const coord::PosSph& p, double t) const { return densityCar(toPosCar(p),t); }
};
inline const char* symName(int s) {
    switch(s) { case coord::ST_NONE: return "None"; case coord::ST_REFLECTION: return "Reflection"; case coord::ST_BISYMMETRIC: return "Bisymmetric";
        case coord::ST_TRIAXIAL: return "Triaxial"; case coord::ST_AXISYMMETRIC: return "Axisymmetric"; case coord::ST_SPHERICAL: return "Spherical";
        default: { static char b[4][20]; static int k=0; k=(k+1)%4; snprintf(b[k],20,"%d",s); return b[k]; } }
}
// random blobs replicated to possess the symmetry s (discrete ones only, or spherical)
inline shared_ptr<Blobs> makeBlobs(vh::Ctx& c, int s, double L, double off=1.0, int nb=3) {
    std::vector<Blob> b;
    if(s==coord::ST_SPHERICAL) { for(int i=0;i<nb;i++) { Blob q={0,0,0,c.uni(0.3,1),L*c.uni(0.3,2)}; b.push_back(q); } }
    else if(s==coord::ST_AXISYMMETRIC) { for(int i=0;i<nb;i++) { double z=L*off*c.uni(0,0.6); Blob q={0,0,z,c.uni(0.3,1),L*c.uni(0.5,2)}; b.push_back(q); q.z=-z; b.push_back(q); } }
    else for(int i=0;i<nb;i++) {
        Blob q={L*off*c.uni(-.6,.6),L*off*c.uni(-.6,.6),L*off*c.uni(-.6,.6),c.uni(0.3,1),L*c.uni(0.6,1.5)};
        std::vector<Blob> r(1,q);
        for(int bit=0;bit<5;bit++) {
            int flags[5]={coord::ST_XREFLECTION,coord::ST_YREFLECTION,coord::ST_ZREFLECTION,coord::ST_REFLECTION,0};
            if(!flags[bit] || (s&flags[bit])!=flags[bit]) continue;
            size_t n=r.size();
            for(size_t k=0;k<n;k++) { Blob t=r[k]; if(bit==0||bit==3) t.x=-t.x; if(bit==1||bit==3) t.y=-t.y; if(bit==2||bit==3) t.z=-t.z;
                bool dup=false; for(size_t j=0;j<r.size();j++) if(r[j].x==t.x&&r[j].y==t.y&&r[j].z==t.z) dup=true; if(!dup) r.push_back(t); }
        }
        for(size_t k=0;k<r.size();k++) { r[k].m/=r.size(); b.push_back(r[k]); }
    }
    return shared_ptr<Blobs>(new Blobs(b, static_cast<coord::SymmetryType>(s)));
}
struct Case {
    std::string desc;
    PtrPotential pot;
    double L;                       // characteristic length
    bool cusp;                      // singular forces or force derivatives at the origin
    bool infmass;                   // mass not finite
    bool timedep;
    double rin, rout;               // if nonzero, radii of grid boundaries of an expansion
    double rlo, rhi;                // range of radii in which the model is meant to be used
    bool cyl;                       // cylindrical grid (rin, rout are per-axis)
    bool axis;                      // disk models: non-smooth at z=0
    bool interp;                    // harmonic amplitudes are interpolated: near the axis, the 2nd derivatives of m!=0 terms are consistent only to interpolation error
    double loose;                   // documented relative accuracy of the model if it is approximate
    double lmin;                    // smallest characteristic length of all components
    Case(): lmin(1), interp(false), loose(0), L(1), cusp(false), infmass(false), timedep(false), rin(0), rout(0), rlo(1e-4), rhi(1e4), cyl(false), axis(false) {}
};
inline double pick(vh::Ctx& c, std::initializer_list<double> special, double a, double b, double pspec=0.4) {
    if(c.coin(pspec)) return *(special.begin()+c.irand(0,(int)special.size()-1));
    return c.uni(a,b);
}
inline std::string D(double x) { char b[40]; snprintf(b,40,"%.17g",x); return b; }
static int filecount=0;
inline std::string scratch() { const char* d=getenv("VERIF_SCRATCH"); char b[500]; snprintf(b,500,"%s/f%d_%d.ini", d?d:"/tmp", (int)getpid(), filecount++); return b; }
inline PtrPotential make(const std::string& s) { return createPotential(KV(s, " ")); }

enum Type { PLUMMER, ISOCHRONE, NFW_, MN, PERFELL, DEHNENS, DEHNENT, FERRERS, KING, LOGAR, HARM, BINARY, UNIACC, MULTIPOLE, BASISSET, CYLSPLINE, DISK,
    MULBLOB, CYLBLOB, BASBLOB, EVOLVING, COMPOSITE, MODIFIED, NTYPES };
inline const char* typeName(int t) { static const char* n[]={"Plummer","Isochrone","NFW","MiyamotoNagai","PerfectEllipsoid","DehnenSph","DehnenTriax","Ferrers","King","Logarithmic","Harmonic","KeplerBinary","UniformAcceleration","Multipole","BasisSet","CylSpline","Disk","MultipoleBlobs","CylSplineBlobs","BasisSetBlobs","Evolving","Composite","Modified"}; return n[t]; }
inline int randSym(vh::Ctx& c) {
    int all[]={coord::ST_NONE,coord::ST_NONE,coord::ST_XREFLECTION,coord::ST_YREFLECTION,coord::ST_ZREFLECTION,coord::ST_REFLECTION,coord::ST_BISYMMETRIC,coord::ST_TRIAXIAL,coord::ST_AXISYMMETRIC,coord::ST_SPHERICAL};
    return all[c.irand(0,9)];
}
inline std::string modifiers(vh::Ctx& c, double L, bool timedep) {
    std::string s;
    if(c.coin(.5)) { if(timedep && c.coin()) s+=" center=[[-1,"+D(L*c.nor())+","+D(L*c.nor())+","+D(L*c.nor())+"],[0,0,"+D(L*c.nor())+",1],[2,"+D(L*c.nor())+",1,"+D(L*c.nor())+"]]";
        else s+=" center="+D(L*c.nor())+","+D(L*c.nor())+","+D(L*c.nor()); }
    if(c.coin(.5)) s+=" orientation="+D(c.uni(-4,4))+","+D(c.uni(0,3.1))+","+D(c.uni(-4,4));
    if(c.coin(.5)) { if(timedep && c.coin()) s+=" rotation=[[0,"+D(c.uni(-3,3))+"],[1,"+D(c.uni(-3,3))+"],[3,"+D(c.uni(-3,3))+"]]"; else s+=" rotation="+D(c.uni(-4,4)); }
    if(c.coin(.5)) { if(timedep && c.coin()) s+=" scale=[[-6,1.5,0.8],[0,1,1],[1,"+D(c.uni(.5,2))+","+D(c.uni(.5,2))+"],[9,"+D(c.uni(.5,2))+","+D(c.uni(.5,2))+"]]"; else s+=" scale="+D(c.logu(.3,3))+","+D(c.logu(.3,3)); }
    return s;
}
inline Case random(vh::Ctx& c, int type, int depth=0);
inline Case random(vh::Ctx& c, int type, int depth) {
    Case k; double M=c.logu(1e-2,1e2), L=c.logu(1e-2,1e2); k.L=k.lmin=L;
    std::string ml=" mass="+D(M)+" scaleRadius="+D(L);
    double p=c.coin(.4)?1:c.uni(.5,1.1), q=c.coin(.3)?1:c.uni(.4,1.1);
    std::string s;
    switch(type) {
    case PLUMMER: s="type=Plummer"+ml; break;
    case ISOCHRONE: s="type=Isochrone"+ml; break;
    case NFW_: s="type=NFW"+ml; k.cusp=true; k.infmass=true; break;
    case MN: s="type=MiyamotoNagai"+ml+" scaleHeight="+D(L*c.logu(.02,5)); k.rlo=1e-3; break;
    case PERFELL: s="type=PerfectEllipsoid"+ml+" axisRatioZ="+D(c.uni(.1,.95)); break;
    case DEHNENS: { double g=pick(c,{0,1,2,1.5,0.5},0,2); s="type=Dehnen"+ml+" gamma="+D(g); k.cusp=g>0; } break;
    case DEHNENT: { k.loose=3e-3;  double g=pick(c,{0,1,2},0,2); s="type=Dehnen"+ml+" gamma="+D(g)+" axisRatioY="+D(p==1?1:c.uni(.5,1.1))+" axisRatioZ="+D(c.uni(.4,.95)); k.cusp=true; k.rlo=1e-2; k.rhi=1e2; } break;
    case FERRERS: { k.loose=3e-3;  double pp=c.uni(.4,.95); s="type=Ferrers"+ml+" axisRatioY="+D(pp)+" axisRatioZ="+D(pp*c.uni(.3,.95)); k.rlo=1e-3; k.rhi=1e3; } break;
    case KING: s="type=King"+ml+" W0="+D(c.uni(1,8))+" trunc="+D(pick(c,{0,1,2},0,2)); k.cusp=true; k.rlo=1e-2; k.rhi=1e3; break;
    case LOGAR: { bool z=c.coin(.3); s="type=Logarithmic v0="+D(c.logu(.1,10))+" scaleRadius="+D(z?0:L)+" p="+D(p)+" q="+D(q); k.cusp=z; k.infmass=true; } break;
    case HARM: s="type=Harmonic Omega="+D(c.logu(.1,10))+" p="+D(p)+" q="+D(q); k.infmass=true; break;
    case BINARY: { bool b=c.coin(.7); s="type=KeplerBinary mass="+D(M)+(b?" binary_q="+D(c.uni(.1,1))+" binary_sma="+D(L)+" binary_ecc="+D(c.uni(0,.9))+" binary_phase="+D(c.uni(0,6)) : ""); k.cusp=true; k.timedep=b; k.rlo=1e-2; } break;
    case UNIACC: s="type=UniformAcceleration file=[[-1,"+D(c.nor())+","+D(c.nor())+","+D(c.nor())+"],[0,"+D(c.nor())+","+D(c.nor())+","+D(c.nor())+"],[2,"+D(c.nor())+",1,-1]]"; k.infmass=true; k.timedep=true; break;
    case MULTIPOLE: case BASISSET: {
        double g=pick(c,{0,1,.5,1.5},0,1.9), b=pick(c,{4,5,3.5},3.2,6), a=pick(c,{1,2},.5,2.5);
        std::string den = c.coin(.3) ? " density=Dehnen"+ml+" gamma="+D(g) : c.coin(.2) ? " density=Plummer"+ml : " density=Spheroid"+ml+" gamma="+D(g)+" beta="+D(b)+" alpha="+D(a)+" p="+D(p)+" q="+D(q)+(c.coin(.3)?" outerCutoffRadius="+D(L*c.logu(1,30))+" cutoffStrength="+D(c.uni(.5,3)):"");
        s=std::string(type==MULTIPOLE?"type=Multipole":"type=BasisSet")+den; int lm=c.irand(0,10); s+=" lmax="+D(lm);
        if(c.coin(.5)) s+=" mmax="+D(c.irand(0,lm));
        if(type==MULTIPOLE && c.coin(.5)) { k.rin=L*c.logu(1e-3,.1); k.rout=L*c.logu(10,1e3); s+=" rmin="+D(k.rin)+" rmax="+D(k.rout)+" gridSizeR="+D(c.irand(20,40)); }
        if(type==BASISSET) { s+=" nmax="+D(c.irand(0,16))+" eta="+D(pick(c,{.5,1,2},.5,2.5)); if(c.coin()) s+=" r0="+D(L*c.logu(.3,3)); }
        k.cusp=true; k.rlo=1e-3; k.rhi=1e3; } break;
    case CYLSPLINE: {
        k.cyl=true; k.rlo=3e-2; k.rhi=1e2;
        int w=c.irand(0,3); double h=L*c.uni(.05,.4);
        std::string den = w==0?" density=Disk"+ml+" scaleHeight="+D(c.coin()?h:-h) : w==1?" density=MiyamotoNagai"+ml+" scaleHeight="+D(h) : w==2?" density=Plummer"+ml : " density=Spheroid"+ml+" gamma=0.5 beta=5 q="+D(c.uni(.3,.8))+" p="+D(p)+" outerCutoffRadius="+D(10*L);
        k.rin=L*c.uni(.02,.1); k.rout=L*c.uni(10,40); k.axis = w==0;
        s="type=CylSpline"+den+" mmax="+D(w==3&&p!=1?4:0)+" gridSizeR="+D(c.irand(15,25))+" gridSizeZ="+D(c.irand(15,25))+" Rmin="+D(k.rin)+" Rmax="+D(k.rout)+" zmin="+D(k.rin)+" zmax="+D(k.rout); } break;
    case DISK: { double h=L*c.uni(.05,.4); s="type=Disk surfaceDensity="+D(M)+" scaleRadius="+D(L)+" scaleHeight="+D(c.coin()?h:-h)+(c.coin(.3)?" innerCutoffRadius="+D(L*c.uni(.2,1)):"")+(c.coin(.3)?" sersicIndex="+D(c.uni(.6,2)):""); k.cusp=true; k.rlo=3e-2; k.rhi=1e2; k.axis=true; } break;
    case MULBLOB: case CYLBLOB: case BASBLOB: {
        int sy=randSym(c); bool frompot=c.coin()||type==CYLBLOB; shared_ptr<Blobs> b=makeBlobs(c,sy,L,.5);
        int lm=c.irand(2,6); KV kv;
        if(type==MULBLOB) { k.rin=L*c.logu(3e-3,.05); k.rout=L*c.logu(30,300); kv=KV("type=Multipole lmax="+D(lm)+" gridSizeR=40 rmin="+D(k.rin)+" rmax="+D(k.rout)," "); }
        else if(type==CYLBLOB) { k.rin=L*.05; k.rout=L*c.uni(15,40); k.cyl=true; kv=KV("type=CylSpline mmax="+D(lm)+" gridSizeR=20 gridSizeZ=20 rmin="+D(k.rin)+" rmax="+D(k.rout)+" zmin="+D(k.rin)+" zmax="+D(k.rout)," "); }
        else kv=KV("type=BasisSet lmax="+D(lm)+" nmax=10 r0="+D(L)+" eta="+D(c.uni(.5,1.5))," ");
        k.pot = frompot ? createPotential(kv, PtrPotential(b)) : createPotential(kv, PtrDensity(b));
        k.desc=std::string(typeName(type))+" sym="+symName(sy)+" from="+(frompot?"potential ":"density ")+kv.dumpSingleLine(); k.rlo=type==CYLBLOB?3e-2:1e-2; k.rhi=1e2; k.cusp=true; } break;
    case EVOLVING: {
        std::string f=scratch(), f1=scratch(), f2=scratch();
        std::string a="type=Plummer"+ml, b="type=MiyamotoNagai"+ml+" scaleHeight="+D(L*.5);
        std::ofstream o1(f1.c_str()); o1<<"[Potential]\ntype=Plummer\nmass="<<D(M)<<"\nscaleRadius="<<D(L)<<"\n"; o1.close();
        std::ofstream o2(f2.c_str()); o2<<"[Potential]\ntype=MiyamotoNagai\nmass="<<D(M)<<"\nscaleRadius="<<D(L)<<"\nscaleHeight="<<D(L*.5)<<"\n"; o2.close();
        bool lin=c.coin();
        std::ofstream o(f.c_str()); o<<"[Potential]\ntype=Evolving\ninterpLinear="<<(lin?"true":"false")<<"\nTimestamps\n-1 "<<f1<<"\n1 "<<f2<<"\n3.5 "<<f1<<"\n"; o.close();
        k.pot=readPotential(f); unlink(f.c_str()); unlink(f1.c_str()); unlink(f2.c_str());
        k.desc=std::string("Evolving lin=")+(lin?"1 ":"0 ")+a+" | "+b; k.timedep=true; } break;
    case COMPOSITE: {
        int n=c.irand(2,4); std::vector<PtrPotential> v; k.L=0; k.lmin=1e10;
        for(int i=0;i<n;i++) { int t=c.irand(0,MULTIPOLE); if(depth>2 || t==FERRERS || t==DEHNENT) t=PLUMMER; Case x=random(c,t,depth+1); v.push_back(x.pot); k.desc+="{"+x.desc+"}"; k.L=std::max(k.L,x.L); k.lmin=std::min(k.lmin,x.lmin); k.cusp|=x.cusp; k.infmass|=x.infmass; k.timedep|=x.timedep; k.axis|=x.axis; k.interp|=x.interp; k.loose=std::max(k.loose,x.loose); k.rlo=std::max(k.rlo,x.rlo); k.rhi=std::min(k.rhi,x.rhi); }
        k.pot.reset(new Composite(v)); } break;
    case MODIFIED: {
        int t=c.irand(0,MULTIPOLE); if(depth>2) t=PLUMMER; if(depth==0 && c.coin(.2)) t=COMPOSITE;
        Case x=random(c,t,depth+1); std::string m=modifiers(c,x.L,true); if(m.empty()) m=" rotation="+D(c.uni(-3,3));
        k=x; k.pot=createPotential(KV(m.substr(1)," "), x.pot); k.desc="["+x.desc+"]"+m; k.timedep=true; k.cusp=true; k.rin=k.rout=0; } break;
    }
    if(!k.pot) { k.desc=s; k.pot=make(s); }
    if(type==MULTIPOLE||type==MULBLOB||type==CYLBLOB||type==CYLSPLINE) k.interp=!isZRotSymmetric(*k.pot);
    return k;
}
inline coord::PosCar randPoint(vh::Ctx& c, const Case& k, double lo=0, double hi=0) {
    double r=k.L*c.logu(lo?lo:k.rlo, hi?hi:k.rhi);
    if(k.rout && c.coin(.3)) r = c.coin()? k.rin*c.uni(.3,3) : k.rout*c.uni(.3,3);
    double ct=c.uni(-1,1), ph=c.uni(-M_PI,M_PI), st=sqrt(1-ct*ct);
    double x=r*st*cos(ph), y=r*st*sin(ph), z=r*ct;
    int w=c.irand(0,11);
    if(w==0) z=0; if(w==1) x=y=0; if(w==2) x=0; if(w==3) y=0; if(w==4) { x*=1e-4; y*=1e-4; } if(w==5) z*=1e-7;
    if(k.cyl && c.coin(.3)) z*=.05;
    if(x==0&&y==0&&z==0) z=r;
    return coord::PosCar(x,y,z);
}
}
