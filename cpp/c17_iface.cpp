// C17: the plain C and the Fortran interfaces return the same numbers as the C++ classes.
// The reference for the argument order and sign conventions is evaluated from the C++ objects by finite definitions (mixed derivatives from
// the C++ Hessian by name), so that a permutation of arguments on either side is visible.
#include "potgen.h"
#include "interface_c.h"
#include "actions_factory.h"
#include "units.h"
#include <memory>
using vh::Ctx; using vh::Str; typedef std::vector<double> V;
extern "C" {
void agama_initfromfile_(void*, char*, long, long); void agama_initfromparam_(void*, char*, long, long);
void agama_initfrompot_(void*, char*, double(*)(double*,double*), long, long); void agama_initfromdens_(void*, char*, double(*)(double*), long, long);
double agama_potential_(void*, double*, long); double agama_potforce_(void*, double*, double*, long); double agama_potforcederiv_(void*, double*, double*, double*, long); double agama_density_(void*, double*, long);
}
static bool same(double a, double b) { return a==b || (a!=a && b!=b); }
static std::string S(double a, double b) { char t[80]; snprintf(t,80,"%.17g vs %.17g",a,b); return t; }
static std::string fstr(Ctx& c, const std::string& s, std::string& store) { (void)c; store=s+"@GARBAGE@=1"; return store; }   // not null-terminated at its stated length
static const char* PARS[]={"type=Plummer, mass=%g, scaleRadius=%g","type=Dehnen, gamma=0.7, mass=%g, scaleRadius=%g, axisRatioY=0.9, axisRatioZ=0.6","type=MiyamotoNagai, mass=%g, scaleRadius=%g, scaleHeight=0.3",
  "type=NFW, mass=%g, scaleRadius=%g","type=Logarithmic, v0=%g, scaleRadius=%g, axisRatioY=0.8, axisRatioZ=0.7","type=Plummer, mass=%g, scaleRadius=%g, center=0.3;-0.2;0.1, orientation=0.4;0.5;0.6","type=Ferrers, mass=%g, scaleRadius=%g, axisRatioY=0.5, axisRatioZ=0.4"};
static const int NP=7;
static std::string rpar(Ctx& c, int& k, bool axi) { do k=c.irand(0,NP-1); while(axi && k!=0 && k!=2 && k!=3); char b[300]; snprintf(b,300,PARS[k],c.logu(.1,100),c.logu(.3,3)); return b; }
// a user-defined model for the Fortran callbacks: flattened without any symmetry except reflections
static double AX=1, BX=.8, CX=.6, MM=1;
static double fpot(double* X, double* F) { double q[3]={1,1.2,1.5}, s2=1; for(int i=0;i<3;i++) s2+=X[i]*X[i]*q[i]; double s=sqrt(s2); for(int i=0;i<3;i++) F[i]=-MM*q[i]*X[i]/(s2*s); return -MM/s; }
static double fden(double* X) { double s2=1+X[0]*X[0]/AX/AX+X[1]*X[1]/BX/BX+X[2]*X[2]/CX/CX; return 3/(4*M_PI)*MM/(AX*BX*CX)/(s2*s2*sqrt(s2)); }
int main(int argc, char** argv) {
    Ctx c(argc,argv); 
    for(long it=0; it<c.n(150); it++) {
        int k; std::string par=rpar(c,k,false); 
        vh::run(c, "c:"+std::to_string(k), par, [&]{
            potential::PtrPotential p=potential::createPotential(utils::KeyValueMap(par)); agama_Potential* a=agama_createPotential(par.c_str()); if(!c.ok(a!=NULL,"c:create",agama_getError())) return;
            agama_Density* d=k==4? NULL : agama_createDensity(par.c_str()); c.ok(k==4 || d!=NULL, "c:create-density"); potential::PtrDensity pd; if(d) pd=potential::createDensity(utils::KeyValueMap(par));
            for(int j=0;j<8;j++) {
                double x[3]={c.nor(),c.nor(),c.nor()}, t=c.nor(); if(j==7) x[0]=x[1]=x[2]=0; coord::PosCar pc(x[0],x[1],x[2]); double f; coord::GradCar g; coord::HessCar h; p->eval(pc,&f,&g,&h,t);
                double D[3], H[6]; double r0=agama_evalPotential(a,x,t,NULL,NULL), r1=agama_evalPotential(a,x,t,D,NULL); double rd[3]={g.dx,g.dy,g.dz}, rh[6]={h.dx2,h.dy2,h.dz2,h.dxdy,h.dydz,h.dxdz};
                c.ok(same(r0,f)&&same(r1,f), "c:potential", S(r0,f)); for(int i=0;i<3;i++) c.close(D[i],rd[i],"c:deriv",1e-12,1e-13); double r2=agama_evalPotential(a,x,t,NULL,H), r3=agama_evalPotential(a,x,t,D,H); c.ok(same(r2,f)&&same(r3,f),"c:potential-hess");
                for(int i=0;i<6;i++) if(rh[i]==rh[i]) c.close(H[i],rh[i],"c:hessian",1e-12,1e-13); for(int i=0;i<3;i++) if(rd[i]==rd[i]) c.close(D[i],rd[i],"c:deriv2",1e-12,1e-13);
                if(d) c.ok(same(agama_evalDensity(d,x,t), pd->density(pc,t)), "c:density");
                c.ok(same(agama_evalDensity((agama_Density*)a,x,t), p->density(pc,t)), "c:density-of-potential");
            }
            if(k==0||k==2||k==3) {
                double R=c.logu(.1,10), E=potential::v_circ(*p,R)*potential::v_circ(*p,R)/2+p->value(coord::PosCyl(R,0,0)), L=R*potential::v_circ(*p,R);
                c.ok(same(agama_R_circ(a,E),potential::R_circ(*p,E)),"c:Rcirc"); c.close(agama_R_circ(a,E),R,"c:Rcirc-value",1e-4); c.close(agama_R_from_Lz(a,L),R,"c:RfromLz",1e-4); double rm=agama_R_max(a,E); c.ok(same(rm,potential::R_max(*p,E)),"c:Rmax"); c.close(p->value(coord::PosCyl(rm,0,0)),E,"c:Rmax-value",1e-8);
                double lz=L*c.uni(.1,.95), a1=-1,a2=-1,b1,b2; agama_findPlanarOrbitExtent(a,E,lz,&a1,&a2); potential::findPlanarOrbitExtent(*p,E,lz,b1,b2); c.ok(same(a1,b1)&&same(a2,b2)&&a1<a2,"c:extent",S(a1,b1)); for(int i=0;i<2;i++) { double q=i?a2:a1; c.close(p->value(coord::PosCyl(q,0,0))+lz*lz/q/q/2,E,"c:extent-value",1e-6,1e-8*fabs(E)); }
            }
            agama_deletePotential(a); if(d) agama_deleteDensity(d);
        });
    }
    for(long it=0; it<c.n(25); it++) {
        int k; std::string par=rpar(c,k,true);
        vh::run(c, "act", par, [&]{
            potential::PtrPotential p=potential::createPotential(utils::KeyValueMap(par)); agama_Potential* a=agama_createPotential(par.c_str()); if(!c.ok(a!=NULL,"act:create")) return; agama_ActionFinder* af=agama_createActionFinder(a); if(!c.ok(af!=NULL,"act:finder",agama_getError())) return; actions::PtrActionFinder pf=actions::createActionFinder(p);
            double V0=sqrt(-p->value(coord::PosCar(1,.5,.3))), fd=c.uni(.1,1);
            for(int j=0;j<6;j++) {
                double x[6]={c.nor(),c.nor(),c.nor(),V0*.5*c.nor(),V0*.5*c.nor(),V0*.5*c.nor()}; coord::PosVelCyl pt=coord::toPosVelCyl(coord::PosVelCar(x[0],x[1],x[2],x[3],x[4],x[5]));
                for(int s=0;s<2;s++) {
                    actions::Actions A; actions::Angles T; actions::Frequencies F; if(s) actions::eval(*p,pt,&A,&T,&F,fd); else pf->eval(pt,&A,&T,&F);
                    double r[9]={A.Jr,A.Jz,A.Jphi,T.thetar,T.thetaz,T.thetaphi,F.Omegar,F.Omegaz,F.Omegaphi};
                    for(int m=1;m<8;m++) { double q[9]; for(int i=0;i<9;i++) q[i]=-77; double *q0=m&1?q:NULL,*q1=m&2?q+3:NULL,*q2=m&4?q+6:NULL; if(s) agama_evalActionsAnglesFrequenciesStandalone(a,fd,x,q0,q1,q2); else agama_evalActionsAnglesFrequencies(af,x,q0,q1,q2);
                        for(int i=0;i<9;i++) if((m>>(i/3))&1) c.ok(same(q[i],r[i]) || fabs(q[i]-r[i])<=1e-9*(fabs(r[i])+1e-3), s?"act:standalone":"act:finder-values", Str()<<"#"<<i<<" "<<S(q[i],r[i])); else c.ok(q[i]==-77,"act:untouched"); }
                    c.close(r[2],x[0]*x[4]-x[1]*x[3],"act:Jphi",1e-12,1e-13*V0);
                }
            }
            agama_deleteActionFinder(af); agama_deletePotential(a);
        });
    }
    // errors: NULL and a message; an old handle keeps working; files; units
    for(long it=0; it<c.n(15); it++) vh::run(c,"c-files",std::to_string(it),[&]{
        int k; std::string par=rpar(c,k,false); agama_Potential* good=agama_createPotential(par.c_str()); double x[3]={.4,.5,.6}, v=agama_evalPotential(good,x,0,NULL,NULL);
        const char* bad[]={"type=NoSuch","type=Plummer, mass=abc","type=Plummer, scaleRadius=-1","file=/nonexistent/x.ini","","type=Spheroid, gamma=5, beta=1","type=Multipole","type=Plummer, foo=1"};
        for(int i=0;i<8;i++) { agama_Potential* q=agama_createPotential(bad[i]); if(i!=1 && i!=2 && i!=7) { c.ok(q==NULL, Str()<<"c-errors:potential:"<<i, bad[i]); c.ok(strlen(agama_getError())>0,"c-errors:message"); } if(q) agama_deletePotential(q); }
        c.ok(agama_createDensity("type=NoSuch")==NULL && strlen(agama_getError())>0, "c-errors:density"); agama_Potential* tri=agama_createPotential("type=Dehnen, axisRatioY=0.7, axisRatioZ=0.5"); c.ok(agama_createActionFinder(tri)==NULL && strlen(agama_getError())>0,"c-errors:finder");
        { double xv[6]={1,.5,.3,.1,.2,.3}, J[3]={0,0,0}; agama_evalActionsAnglesFrequenciesStandalone(tri,.3,xv,J,NULL,NULL); c.ok(J[0]!=J[0],"c-errors:standalone",S(J[0],0)); } agama_deletePotential(tri);
        c.ok(agama_evalPotential(good,x,0,NULL,NULL)==v,"c-errors:unchanged");
        // two components in a file, through both interfaces
        std::string par2; int k2; par2=rpar(c,k2,false); std::string f=gen::scratch(); { std::ofstream s(f); s.precision(17); for(int j=0;j<2;j++) { std::string q=j?par2:par; s<<"[Potential"<<(j?"2":"1")<<"]\n"; size_t i=0; bool quote=false; for(; i<q.size(); i++) { if(q[i]=='"') quote=!quote; else if(q[i]==',' && !quote) s<<"\n"; else if(!(q[i]==' ' && !quote)) s<<q[i]; } s<<"\n\n"; } }
        potential::PtrPotential P1=potential::createPotential(utils::KeyValueMap(par)), P2=potential::createPotential(utils::KeyValueMap(par2)); agama_Potential* two=agama_createPotential(("file="+f).c_str()); if(!c.ok(two!=NULL,"c-files:create",agama_getError())) return;
        char obj[8]; std::string store; fstr(c,f,store); agama_initfromfile_(obj,&store[0],8,f.size());
        for(int j=0;j<4;j++) { double y[3]={c.nor(),c.nor(),c.nor()}; coord::PosCar pc(y[0],y[1],y[2]); double ref=P1->value(pc)+P2->value(pc); c.close(agama_evalPotential(two,y,0,NULL,NULL),ref,"c-files:sum",1e-11); c.close(agama_potential_(obj,y,8),ref,"f-files:sum",1e-11); c.close(agama_evalDensity((agama_Density*)two,y,0),P1->density(pc)+P2->density(pc),"c-files:density",1e-11,1e-300); }
        agama_deletePotential(two);
        // the value of G scales the potential
        double G=c.logu(1e-6,50); agama_Potential* gp=agama_createPotential(((k==4?std::string("type=Plummer, mass=3"):par)+", G="+utils::toString(G,17)).c_str()); agama_Potential* g1=agama_createPotential(k==4?"type=Plummer, mass=3":par.c_str()); if(c.ok(gp!=NULL,"c-G:create",agama_getError())) { for(int j=0;j<3;j++) { double y[3]={c.nor(),c.nor(),c.nor()}, D[3],H[6],D1[3],H1[6]; double q=agama_evalPotential(gp,y,0,D,H), q1=agama_evalPotential(g1,y,0,D1,H1); c.close(q,G*q1,"c-G:potential",1e-9); for(int i=0;i<3;i++) c.close(D[i],G*D1[i],"c-G:force",1e-9,1e-12*G); for(int i=0;i<6;i++) c.close(H[i],G*H1[i],"c-G:hessian",1e-9,1e-11*G); } agama_deletePotential(gp); } agama_deletePotential(g1);
        agama_deletePotential(good); unlink(f.c_str());
    });
    for(long it=0; it<c.n(100); it++) {
        int k; std::string par=rpar(c,k,false); for(char& ch: par) if(ch==',' && c.coin(.5)) ch=' ';
        vh::run(c,"f:"+std::to_string(k),par,[&]{
            char obj[16]; memset(obj,'#',16); std::string store; fstr(c,par,store); agama_initfromparam_(obj,&store[0],8,par.size()); c.ok(obj[8]=='#',"f:handle-size"); potential::PtrPotential p=potential::createPotential(utils::KeyValueMap(par));
            for(int j=0;j<6;j++) { double x[3]={c.nor(),c.nor(),c.nor()}, F[4]={0,0,0,-77}, F2[4]={0,0,0,-77}, D[7]; D[6]=-77; coord::PosCar pc(x[0],x[1],x[2]); double f; coord::GradCar g; coord::HessCar h; p->eval(pc,&f,&g,&h); double rf[3]={-g.dx,-g.dy,-g.dz}, rd[6]={-h.dx2,-h.dy2,-h.dz2,-h.dxdy,-h.dxdz,-h.dydz};
                double v0=agama_potential_(obj,x,8), v1=agama_potforce_(obj,x,F,8), v2=agama_potforcederiv_(obj,x,F2,D,8); c.close(v0,f,"f:potential",1e-12); c.close(v1,f,"f:potforce",1e-12); c.close(v2,f,"f:potforcederiv",1e-12);
                for(int i=0;i<3;i++) { c.close(F[i],rf[i],"f:force",1e-12,1e-13); c.close(F2[i],rf[i],"f:force2",1e-12,1e-13); } for(int i=0;i<6;i++) c.close(D[i],rd[i],Str()<<"f:deriv:"<<i,1e-12,1e-13); c.ok(F[3]==-77&&F2[3]==-77&&D[6]==-77,"f:bounds"); c.close(agama_density_(obj,x,8),p->density(pc),"f:density",1e-12,1e-13);
                double e=1e-4; for(int i=0;i<3;i++) { double y[3]={x[0],x[1],x[2]}, dum[3]; y[i]+=e; double a=agama_potforce_(obj,y,dum,8); double Fp[3]={dum[0],dum[1],dum[2]}; y[i]-=2*e; double b=agama_potforce_(obj,y,dum,8); double sc=fabs(f)+fabs(F[i]);
                    if(k!=6) { c.close((b-a)/2/e,F[i],"f:force-sign",1e-3,1e-4*sc); static const int IX[3][3]={{0,3,4},{3,1,5},{4,5,2}}; for(int m=0;m<3;m++) c.close((Fp[m]-dum[m])/2/e,D[IX[i][m]],"f:deriv-order",1e-3,1e-3*sc); } } }
        });
    }
    for(long it=0; it<c.n(4); it++) vh::run(c,"f-user",std::to_string(it),[&]{
        MM=c.logu(.1,10); AX=1; BX=c.uni(.7,.9); CX=c.uni(.5,.7); char o1[8],o2[8]; std::string store, s="type=Multipole rmin=0.01 rmax=100 gridSizeR=40 lmax=12 symmetry=Triaxial"; fstr(c,s,store); agama_initfrompot_(o1,&store[0],fpot,8,s.size()); fstr(c,s,store); agama_initfromdens_(o2,&store[0],fden,8,s.size());
        for(int j=0;j<20;j++) { double r=c.logu(.1,10), x[3]={c.nor(),c.nor(),c.nor()}; double n=sqrt(x[0]*x[0]+x[1]*x[1]+x[2]*x[2]); for(int i=0;i<3;i++) x[i]*=r/n; double F[3],G[3]; double f=fpot(x,F), g=agama_potforce_(o1,x,G,8); c.close(g,f,"f-user:pot",1e-3); double m=sqrt(F[0]*F[0]+F[1]*F[1]+F[2]*F[2]); for(int i=0;i<3;i++) c.close(G[i],F[i],"f-user:force",0,1e-2*m); c.close(agama_density_(o2,x,8),fden(x),"f-user:density",3e-2); }
    });
    c.done(); return 0;
}
