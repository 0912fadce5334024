// C02: force = -grad Phi, force derivatives, equality of coordinate systems, output subsets and batches
#include "potgen.h"
using namespace gen;
typedef long double ld;
struct Ev { double phi; double g[3]; double h[6]; };  // h: 11 22 33 12 23 13
static Ev evCar(const BasePotential& p, const coord::PosCar& x, double t) { Ev e; coord::GradCar g; coord::HessCar h; p.eval(x,&e.phi,&g,&h,t);
    e.g[0]=g.dx; e.g[1]=g.dy; e.g[2]=g.dz; e.h[0]=h.dx2; e.h[1]=h.dy2; e.h[2]=h.dz2; e.h[3]=h.dxdy; e.h[4]=h.dydz; e.h[5]=h.dxdz; return e; }
static bool finiteEv(const Ev& e) { bool f=std::isfinite(e.phi); for(int i=0;i<3;i++) f&=std::isfinite(e.g[i]); for(int i=0;i<6;i++) f&=std::isfinite(e.h[i]); return f; }
static std::string P(const coord::PosCar& x) { return vh::Str()<<"("<<x.x<<","<<x.y<<","<<x.z<<")"; }
// gradient/hessian of a function of curvilinear coordinates u(x), from Cartesian ones; E[a][i]=dx_i/du_a, S[a][b][i]=d2x_i/du_a du_b
static void curv(const Ev& e, ld E[3][3], ld S[3][3][3], ld g[3], ld h[3][3]) {
    ld H[3][3]={{e.h[0],e.h[3],e.h[5]},{e.h[3],e.h[1],e.h[4]},{e.h[5],e.h[4],e.h[2]}};
    for(int a=0;a<3;a++) { g[a]=0; for(int i=0;i<3;i++) g[a]+=E[a][i]*e.g[i];
        for(int b=0;b<3;b++) { h[a][b]=0; for(int i=0;i<3;i++) { h[a][b]+=S[a][b][i]*e.g[i]; for(int j=0;j<3;j++) h[a][b]+=E[a][i]*E[b][j]*H[i][j]; } } }
}
static void points(vh::Ctx& c, const Case& k, int npt, const char* tn) {
    const BasePotential& pot=*k.pot; // documented approximations: root-finder tolerance 1e-6 (Ferrers), fixed-order quadrature (triaxial Dehnen)
    const double LOOSE = k.loose;
    const double EPS=2.3e-16;
    for(int ip=0; ip<npt; ip++) {
        coord::PosCar x=randPoint(c,k); double t=k.timedep? c.uni(-2,4) : (c.coin(.3)? c.uni(-5,5):0);
        vh::run(c, std::string("pt:")+tn, vh::Str()<<k.desc<<" at "<<P(x)<<" t="<<t, [&]{
            std::string T=tn, I=k.desc+" "+P(x)+" t="+D(t);
            double r=sqrt(x.x*x.x+x.y*x.y+x.z*x.z), R=sqrt(x.x*x.x+x.y*x.y);
            Ev e=evCar(pot,x,t);
            if(!c.ok(finiteEv(e),"finite:"+T, "non-finite values at "+I+" Phi="+D(e.phi)+" "+D(e.g[0])+","+D(e.g[1])+","+D(e.g[2])+"; "+D(e.h[0])+","+D(e.h[1])+","+D(e.h[2])+","+D(e.h[3])+","+D(e.h[4])+","+D(e.h[5]))) return;
            double G=sqrt(e.g[0]*e.g[0]+e.g[1]*e.g[1]+e.g[2]*e.g[2]), H=0; for(int i=0;i<6;i++) H=std::max(H,fabs(e.h[i]));
            // rounding errors are amplified by powers of r/R in conversions from cylindrical or spherical coordinates near (but not on) the axis
            const double ax = k.interp && R<0.03*r ? 3e-2*(H+G/r) : 0;
            double nzg = R>0 ? 1e-14*(r/R)*(G+fabs(e.phi)/r) : 0, nzh = R>0 ? 1e-14*pow_2(r/R)*(G/r+fabs(e.phi)/r/r) : 0;
            // ---- other coordinate systems
            { coord::PosCyl y; y.R=R; y.z=x.z; y.phi=atan2(x.y,x.x); double ph; coord::GradCyl g; coord::HessCyl h; pot.eval(y,&ph,&g,&h,t);
              ld cs=cosl(y.phi), sn=sinl(y.phi); ld E[3][3]={{cs,sn,0},{0,0,1},{-R*sn,R*cs,0}}, S[3][3][3]={}; S[0][2][0]=S[2][0][0]=-sn; S[0][2][1]=S[2][0][1]=cs; S[2][2][0]=-R*cs; S[2][2][1]=-R*sn;
              ld rg[3], rh[3][3]; curv(e,E,S,rg,rh);
              double tg=1e-10*G+1e-13*fabs(e.phi)/r+nzg+LOOSE*G, th=(fabs(x.z)<1e-5*r?1e-7:1e-9)*(H+G/r)+1e-12*fabs(e.phi)/r/r+nzh+ax+LOOSE*(H+G/r);
              c.close(ph,e.phi,"cyl-phi:"+T,1e-12+LOOSE,1e-13*(G*r),I); c.close(g.dR,rg[0],"cyl-grad:"+T,0,tg,I); c.close(g.dz,rg[1],"cyl-grad:"+T,0,tg,I); c.close(g.dphi,rg[2],"cyl-grad:"+T,0,tg*R,I);
              c.close(h.dR2,rh[0][0],"cyl-hess:"+T,0,th,I); c.close(h.dz2,rh[1][1],"cyl-hess:"+T,0,th,I); c.close(h.dphi2,rh[2][2],"cyl-hess:"+T,0,th*R*R+tg*R,I); c.close(h.dRdz,rh[0][1],"cyl-hess:"+T,0,th,I); c.close(h.dzdphi,rh[1][2],"cyl-hess:"+T,0,th*R,I); c.close(h.dRdphi,rh[0][2],"cyl-hess:"+T,0,th*R+tg,I);
            }
            { coord::PosSph y; y.r=r; y.theta=atan2(R,x.z); y.phi=atan2(x.y,x.x); double ph; coord::GradSph g; coord::HessSph h; pot.eval(y,&ph,&g,&h,t);
              ld cp=cosl(y.phi), sp=sinl(y.phi), ct=cosl(y.theta), st=sinl(y.theta);
              ld E[3][3]={{st*cp,st*sp,ct},{r*ct*cp,r*ct*sp,-r*st},{-r*st*sp,r*st*cp,0}}, S[3][3][3]={};
              ld srt[3]={ct*cp,ct*sp,-st}, srp[3]={-st*sp,st*cp,0}, stt[3]={-r*st*cp,-r*st*sp,-r*ct}, stp[3]={-r*ct*sp,r*ct*cp,0}, spp[3]={-r*st*cp,-r*st*sp,0};
              for(int i=0;i<3;i++) { S[0][1][i]=S[1][0][i]=srt[i]; S[0][2][i]=S[2][0][i]=srp[i]; S[1][1][i]=stt[i]; S[1][2][i]=S[2][1][i]=stp[i]; S[2][2][i]=spp[i]; }
              ld rg[3], rh[3][3]; curv(e,E,S,rg,rh);
              double tg=1e-10*G+1e-13*fabs(e.phi)/r+nzg+LOOSE*G, th=(fabs(x.z)<1e-5*r?1e-7:1e-9)*(H+G/r)+1e-12*fabs(e.phi)/r/r+nzh+ax+LOOSE*(H+G/r);
              c.close(ph,e.phi,"sph-phi:"+T,1e-12+LOOSE,1e-13*(G*r),I); c.close(g.dr,rg[0],"sph-grad:"+T,0,tg,I); c.close(g.dtheta,rg[1],"sph-grad:"+T,0,tg*r,I); c.close(g.dphi,rg[2],"sph-grad:"+T,0,tg*r,I);
              c.close(h.dr2,rh[0][0],"sph-hess:"+T,0,th,I); c.close(h.dtheta2,rh[1][1],"sph-hess:"+T,0,th*r*r,I); c.close(h.dphi2,rh[2][2],"sph-hess:"+T,0,th*r*r,I); c.close(h.drdtheta,rh[0][1],"sph-hess:"+T,0,th*r,I); c.close(h.dthetadphi,rh[1][2],"sph-hess:"+T,0,th*r*r,I); c.close(h.drdphi,rh[0][2],"sph-hess:"+T,0,th*r,I);
            }
            // ---- subsets of outputs in each coordinate system
            for(int m=1;m<7;m++) {
                double tol=1e-12+1e-3*LOOSE;
                #define SUB(CS,POS,N1,N2,N3,A1,A2,A3,A4,A5,A6) { coord::Pos##CS y=POS; double p0,p1; coord::Grad##CS g0,g1; coord::Hess##CS h0,h1; pot.eval(y,&p0,&g0,&h0,t); pot.eval(y,m&1?&p1:NULL,m&2?&g1:NULL,m&4?&h1:NULL,t); \
                    if(m&1) c.close(p1,p0,"subset-" #CS ":"+T,tol,1e-13*G*r,I); if(m&2) { double s=tol*(fabs(g0.N1)+fabs(g0.N2)+fabs(g0.N3)); c.close(g1.N1,g0.N1,"subset-" #CS ":"+T,0,s,I); c.close(g1.N2,g0.N2,"subset-" #CS ":"+T,0,s,I); c.close(g1.N3,g0.N3,"subset-" #CS ":"+T,0,s,I); } \
                    if(m&4) { double s=tol*(fabs(h0.A1)+fabs(h0.A2)+fabs(h0.A3)+fabs(h0.A4)+fabs(h0.A5)+fabs(h0.A6)); c.close(h1.A1,h0.A1,"subset-" #CS ":"+T,0,s,I); c.close(h1.A2,h0.A2,"subset-" #CS ":"+T,0,s,I); c.close(h1.A3,h0.A3,"subset-" #CS ":"+T,0,s,I); c.close(h1.A4,h0.A4,"subset-" #CS ":"+T,0,s,I); c.close(h1.A5,h0.A5,"subset-" #CS ":"+T,0,s,I); c.close(h1.A6,h0.A6,"subset-" #CS ":"+T,0,s,I); } }
                SUB(Car,x,dx,dy,dz,dx2,dy2,dz2,dxdy,dydz,dxdz)
                SUB(Cyl,toPosCyl(x),dR,dz,dphi,dR2,dz2,dphi2,dRdz,dzdphi,dRdphi)
                SUB(Sph,toPosSph(x),dr,dtheta,dphi,dr2,dtheta2,dphi2,drdtheta,dthetadphi,drdphi)
            }
            c.close(pot.value(x,t),e.phi,"value:"+T,1e-12,0,I);
            // ---- derivatives by finite differences, several steps, best agreement counts
            { double best[9], tolr[9], dev[9]; for(int q=0;q<9;q++) best[q]=1e300;
              for(int is=0;is<9;is++) {
                double hs=(k.loose>0?std::max(r,k.lmin):r)*(is==0?3e-2:is==1?3e-3:is==2?3e-4:is==3?3e-5:is==4?3e-6:is==5?3e-7:is==6?3e-8:is==7?3e-9:3e-10);
                ld fd[9]; double mphi=fabs(e.phi), mg=G; bool fin=true;
                for(int d=0;d<3;d++) {
                    Ev s[6]; int o[6]={-3,-2,-1,1,2,3};
                    volatile double base = d==0?x.x:d==1?x.y:x.z;
                    double ho[6];
                    for(int j=0;j<6;j++) { coord::PosCar y=x; volatile double b=base+o[j]*hs; (d==0?y.x:d==1?y.y:y.z)=b; ho[j]=b-base; s[j]=evCar(pot,y,t); fin&=finiteEv(s[j]); mphi=std::max(mphi,fabs(s[j].phi)); for(int i=0;i<3;i++) mg=std::max(mg,fabs(s[j].g[i])); }
                    #define D6(F) ((-(ld)s[0].F+9*(ld)s[1].F-45*(ld)s[2].F+45*(ld)s[3].F-9*(ld)s[4].F+(ld)s[5].F)/(60*(ld)hs))
                    fd[d]=D6(phi); for(int i=0;i<3;i++) { ld v=D6(g[i]); if(i==d) fd[3+d]=v; else if((d==0&&i==1)) fd[6]=v; else if(d==1&&i==2) fd[7]=v; else if(d==0&&i==2) fd[8]=v; }
                }
                if(!fin) continue;
                double rp=200*EPS*mphi/hs*(1+r/hs*0), rg=200*EPS*(mg+mphi/r)/hs; // rounding of values
                for(int q=0;q<9;q++) { double ref=q<3?e.g[q]:e.h[q-3]; double tol = q<3? 1e-6*G+3*rp+nzg+LOOSE*G : 1e-5*(H+G/r)+ax+3*rg+nzh+LOOSE*(H+G/r); double d=fabs((double)(fd[q]-ref)); if(d/tol<best[q]) { best[q]=d/tol; tolr[q]=tol; dev[q]=d; } }
              }
              bool plane = k.axis && fabs(x.z)<0.01*r;  // thin exponential disks have a kink of the vertical force at z=0
              for(int q=0;q<9;q++) if(best[q]<1e299 && !(plane && q>=3)) { std::string nm=(q<3?"fd-force:":"fd-deriv:")+T; double& m=c.maxrel[q<3?"fd-force":"fd-deriv"]; if(best[q]<=1&&best[q]>m) m=best[q];
                c.ok(best[q]<=1, nm, "component "+D(q)+" value="+D(q<3?e.g[q]:e.h[q-3])+" deviates from finite difference by "+D(dev[q])+" tol "+D(tolr[q])+" in "+I); }
            }
            // ---- density in all coordinate systems and in batches
            { double d1=pot.density(x,t), d2=pot.density(toPosCyl(x),t), d3=pot.density(toPosSph(x),t); double s=(fabs(x.z)<1e-5*r?1e-7:1e-9)*fabs(d1)+LOOSE*fabs(d1)+1e-12*H+nzh+3*ax+(k.cyl||k.rout?1e-10*H:0);
              c.ok(std::isfinite(d1),"dens-finite:"+T,I); c.close(d2,d1,"dens-cyl:"+T,0,s,I); c.close(d3,d1,"dens-sph:"+T,0,s,I);
              coord::PosCar xa[3]={x,coord::PosCar(x.y,x.z,x.x),x}; coord::PosCyl ya[3]; coord::PosSph za[3]; for(int i=0;i<3;i++) { ya[i]=toPosCyl(xa[i]); za[i]=toPosSph(xa[i]); }
              double v1[3],v2[3],v3[3]; pot.evalmanyDensityCar(3,xa,v1,t); pot.evalmanyDensityCyl(3,ya,v2,t); pot.evalmanyDensitySph(3,za,v3,t);
              for(int i=0;i<3;i++) { c.close(v1[i],pot.density(xa[i],t),"dens-many:"+T,1e-10,s*.01,I); c.close(v2[i],pot.density(ya[i],t),"dens-many:"+T,1e-10,s*.01,I); c.close(v3[i],pot.density(za[i],t),"dens-many:"+T,1e-10,s*.01,I); }
            }
        });
    }
    // ---- continuity across axis, planes and grid boundaries
    for(int ip=0; ip<npt/2+4; ip++) {
        coord::PosCar x=randPoint(c,k); double t=k.timedep? c.uni(-2,4) : 0; double r=sqrt(x.x*x.x+x.y*x.y+x.z*x.z); int w=c.irand(0,k.rout?5:3);
        coord::PosCar a=x,b=x; std::string where;
        double dl=1e-9*r;
        if(w==0) { where="axis"; a.x=a.y=0; if(fabs(a.z)<.1*r) a.z=r; b=a; dl=1e-5*fabs(a.z); double f=c.uni(0,6.28); b.x=dl*cos(f); b.y=dl*sin(f); }
        else if(w==1) { where="plane"; if(fabs(x.x)+fabs(x.y)<.1*r) a.x=b.x=r; a.z=dl; b.z=-dl; }
        else if(w==2) { where="phi=pi"; a.x=b.x=-fabs(x.x); if(fabs(x.x)<.1*r) a.x=b.x=-r; a.y=dl; b.y=-dl; }
        else if(w==3) { where="x=0"; if(fabs(x.y)<.1*r) a.y=b.y=r; a.x=dl; b.x=-dl; }
        else { double rb=w==4?k.rin:k.rout; where=w==4?"inner":"outer"; dl=1e-9*rb;
            if(!k.cyl) { double s1=rb*(1-1e-9)/r, s2=rb*(1+1e-9)/r; a=coord::PosCar(x.x*s1,x.y*s1,x.z*s1); b=coord::PosCar(x.x*s2,x.y*s2,x.z*s2); }
            else if(c.coin()) { double R=sqrt(x.x*x.x+x.y*x.y); if(R==0) continue; double s1=rb*(1-1e-9)/R, s2=rb*(1+1e-9)/R; a=coord::PosCar(x.x*s1,x.y*s1,0); b=coord::PosCar(x.x*s2,x.y*s2,0); a.z=b.z=rb*c.uni(0,.9); }
            else { a.z=rb*(1-1e-9); b.z=rb*(1+1e-9); double R=sqrt(x.x*x.x+x.y*x.y), s=R>0?c.uni(0,.9)*rb/R:0; a.x=b.x=x.x*s; a.y=b.y=x.y*s; } }
        vh::run(c, "cont-"+where+":"+tn, vh::Str()<<k.desc<<" "<<P(a)<<" "<<P(b)<<" t="<<t, [&]{
            std::string T=tn; Ev e=evCar(pot,a,t), f=evCar(pot,b,t); std::string I=k.desc+" "+where+" "+P(a)+" "+P(b)+" t="+D(t);
            if(!c.ok(finiteEv(e)&&finiteEv(f),"cont-finite:"+T,I)) return;
            double G=0,H=0; for(int i=0;i<3;i++) G=std::max(G,std::max(fabs(e.g[i]),fabs(f.g[i]))); for(int i=0;i<6;i++) H=std::max(H,std::max(fabs(e.h[i]),fabs(f.h[i])));
            double ra=sqrt(a.x*a.x+a.y*a.y+a.z*a.z);
            bool outer = k.cyl && w==5;   // the extrapolation of CylSpline is documented to be only approximately continuous (1e-3)
            c.close(e.phi,f.phi,"cont-phi-"+where+":"+T,outer?5e-2:1e-11+LOOSE,4*dl*G,I);
            for(int i=0;i<3;i++) c.close(e.g[i],f.g[i],"cont-force-"+where+":"+T,0,(outer?.3:1e-7+LOOSE)*G+4*dl*H+1e-12*fabs(e.phi)/ra*(w==0?1e3:1),I);
            // the second derivative is continuous where the model is smooth
            if(w<4 && !k.axis) for(int i=0;i<6;i++) c.close(e.h[i],f.h[i],"cont-deriv-"+where+":"+T,0,(w==0?(k.interp||k.cyl?3e-2:1e-3):1e-6+LOOSE+1e3*dl/k.lmin)*(H+G/ra)+1e-11*fabs(e.phi)/ra/ra*(w==0?1e6:1),I);
            // the same point given by different representations of the angle
            coord::PosCyl y=toPosCyl(a); double p1,p2; coord::GradCyl g1,g2; pot.eval(y,&p1,&g1,NULL,t); y.phi+=2*M_PI*(c.coin()?1:-1); pot.eval(y,&p2,&g2,NULL,t);
            c.close(p1,p2,"periodic:"+T,1e-11+LOOSE,1e-13*G*ra,I); c.close(g1.dR,g2.dR,"periodic:"+T,0,(1e-10+LOOSE)*G+1e-12*fabs(e.phi)/ra,I); c.close(g1.dphi,g2.dphi,"periodic:"+T,0,((1e-10+LOOSE)*G+1e-12*fabs(e.phi)/ra)*ra,I);
        });
    }
    // ---- declared symmetry must hold
    coord::SymmetryType sy=pot.symmetry();
    for(int ip=0; ip<npt/3+2; ip++) {
        coord::PosCar x=randPoint(c,k); double t=k.timedep? c.uni(-2,4) : 0; 
        vh::run(c, std::string("sym:")+tn, vh::Str()<<k.desc<<" "<<P(x)<<" t="<<t, [&]{
            std::vector<coord::PosCar> im; std::string T=tn, I=k.desc+" "+P(x);
            if(coord::isXReflSymmetric(sy)) im.push_back(coord::PosCar(-x.x,x.y,x.z)); if(coord::isYReflSymmetric(sy)) im.push_back(coord::PosCar(x.x,-x.y,x.z)); if(coord::isZReflSymmetric(sy)) im.push_back(coord::PosCar(x.x,x.y,-x.z));
            if(coord::isReflSymmetric(sy)) im.push_back(coord::PosCar(-x.x,-x.y,-x.z));
            if(coord::isZRotSymmetric(sy)) { double f=c.uni(0,6.3); im.push_back(coord::PosCar(x.x*cos(f)-x.y*sin(f),x.x*sin(f)+x.y*cos(f),x.z)); }
            if(coord::isSpherical(sy)) { double r=sqrt(x.x*x.x+x.y*x.y+x.z*x.z); im.push_back(coord::PosCar(r,0,0)); im.push_back(coord::PosCar(0,0,r)); }
            Ev e=evCar(pot,x,t); double r=sqrt(x.x*x.x+x.y*x.y+x.z*x.z), G=sqrt(e.g[0]*e.g[0]+e.g[1]*e.g[1]+e.g[2]*e.g[2]);
            for(size_t i=0;i<im.size();i++) { Ev f=evCar(pot,im[i],t); double F=sqrt(f.g[0]*f.g[0]+f.g[1]*f.g[1]+f.g[2]*f.g[2]); c.close(f.phi,e.phi,"symmetry:"+T,1e-11+LOOSE,1e-12*G*r,I); c.close(F,G,"symmetry-force:"+T,1e-9,1e-12*fabs(e.phi)/r,I); }
            if(im.empty()) c.neval++;
        });
    }
    // ---- extreme radii and the origin
    double ext[]={0,1e-100,1e-20,1e-12,1e-8,1e8,1e12,1e20};
    for(int i=0;i<8;i++) { double ct=c.uni(-1,1), f=c.uni(0,6.3), st=sqrt(1-ct*ct), r=ext[i]*k.L; coord::PosCar x(r*st*cos(f),r*st*sin(f),r*ct);
        int w=c.irand(0,4); if(w==0) { x.x=x.y=0; x.z=r; } if(w==1) x.z=0;
        double t=k.timedep? c.uni(-2,4):0;
        vh::run(c, std::string("ext:")+tn, vh::Str()<<k.desc<<" "<<P(x)<<" t="<<t, [&]{
            std::string T=std::string(tn)+(r==0?":origin":i<5?":small":":large"), I=k.desc+" "+P(x)+" t="+D(t);
            Ev e=evCar(pot,x,t); double ph; coord::GradCyl gc; coord::HessCyl hc; coord::GradSph gs; coord::HessSph hs; double ps;
            pot.eval(toPosCyl(x),&ph,&gc,&hc,t); pot.eval(toPosSph(x),&ps,&gs,&hs,t);
            bool nan=std::isnan(e.phi)||std::isnan(ph)||std::isnan(ps); 
            c.ok(!nan,"ext-phi:"+T,"NaN potential at "+I);
            bool gnan=false; for(int j=0;j<3;j++) gnan|=std::isnan(e.g[j]); gnan|=std::isnan(gc.dR)||std::isnan(gc.dz)||std::isnan(gc.dphi)||std::isnan(gs.dr)||std::isnan(gs.dtheta)||std::isnan(gs.dphi);
            c.ok(!gnan || (r==0&&k.cusp),"ext-grad:"+T,"NaN gradient at "+I+": "+D(e.g[0])+","+D(e.g[1])+","+D(e.g[2])+"; "+D(gc.dR)+","+D(gc.dz)+","+D(gc.dphi)+"; "+D(gs.dr)+","+D(gs.dtheta)+","+D(gs.dphi));
            bool hnan=false; for(int j=0;j<6;j++) hnan|=std::isnan(e.h[j]); hnan|=std::isnan(hc.dR2)||std::isnan(hc.dz2)||std::isnan(hc.dRdz)||std::isnan(hs.dr2)||std::isnan(hs.dtheta2)||std::isnan(hs.drdtheta);
            c.ok(!hnan || k.cusp,"ext-hess:"+T,"NaN second derivative at "+I);
            double d=pot.density(x,t); c.ok(!std::isnan(d)|| k.cusp,"ext-dens:"+T,"NaN density at "+I);
            if(!k.cusp && r==0) { c.ok(finiteEv(e)&&std::isfinite(d),"ext-origin:"+T,"non-finite at the origin: "+I); }
            if(!k.cusp && i<5 && !k.timedep && std::isfinite(e.phi)) {  // limit at the origin
                coord::PosCar y(k.lmin*1e-6,k.lmin*.3e-6,k.lmin*2e-7); Ev f=evCar(pot,y,t); c.close(e.phi,f.phi,"ext-limit:"+T,1e-5,1e-9*k.lmin*k.lmin*fabs(f.h[0]+f.h[1]+f.h[2]),I);
                double H=0; for(int j=0;j<6;j++) H=std::max(H,fabs(f.h[j])); for(int j=0;j<6;j++) c.close(e.h[j],f.h[j],"ext-limit-hess:"+T,0,(k.interp?1e-1:1e-3)*H+1e-3*fabs(f.phi)/k.lmin/k.lmin*1e-3,I); }
        });
    }
}
int main(int argc, char** argv) {
    vh::Ctx c(argc, argv); 
    int types[NTYPES]; for(int t=0;t<NTYPES;t++) types[t]=t;
    for(int t=0;t<NTYPES;t++) {
        bool heavy = t==CYLSPLINE||t==CYLBLOB||t==DISK; bool exp_=t==MULTIPOLE||t==BASISSET||t==MULBLOB||t==BASBLOB;
        std::string grp = heavy? (t==CYLSPLINE?"cylspline":t==DISK?"disk":"cylblob") : exp_? "expansion" : t>=EVOLVING? "compound" : "analytic";
        if(!c.has(grp.c_str())) continue;
        int nm = t==CYLSPLINE? c.n(4,30) : heavy? c.n(8,60) : exp_? c.n(24,200) : t>=COMPOSITE? c.n(40,300) : c.n(25,200);
        for(int i=0;i<nm;i++) {
            Case k; bool good=false;
            vh::run(c, std::string("make:")+typeName(t), vh::Str()<<i, [&]{ k=random(c,t); good=true; c.neval++; });
            if(good) points(c,k,t==DEHNENT||t==FERRERS?10:16,typeName(t));
        }
    }
    c.done();
}
