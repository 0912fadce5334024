// orbit integration in the three internal coordinate systems, runtime functions, repeated runs
#include "potgen.h"
#include "orbit.h"
#include "potential_perfect_ellipsoid.h"
#include "orbit_variational.h"
using namespace orbit;
static std::vector<double> v6(const coord::PosVelCar& p) { double d[6]; p.unpack_to(d); return std::vector<double>(d, d+6); }
static double dist(const coord::PosVelCar& a, const coord::PosVelCar& b, double L, double V) {
    std::vector<double> x=v6(a), y=v6(b); double m=0; for(int i=0;i<6;i++) m=fmax(m, fabs(x[i]-y[i])/(i<3?L:V)); return m==m ? m : INFINITY; }
struct Monitor: public BaseRuntimeFnc {   // online checker of the callback protocol
    vh::Ctx& c; std::vector<double>& log; int stopAfter; double L, V; coord::PosVelCar last; bool have;
    Monitor(BaseOrbitIntegrator& o, vh::Ctx& _c, std::vector<double>& l, int stop, double _L, double _V): BaseRuntimeFnc(o), c(_c), log(l), stopAfter(stop), L(_L), V(_V), last(0,0,0,0,0,0), have(false) {}
    virtual bool processTimestep(double tb, double te) {
        c.ok(log.empty() || log.back()==tb, "steps-contiguous", "step begins at "+utils::toString(tb,17)+" after "+utils::toString(log.empty()?0:log.back(),17));
        if(log.empty()) log.push_back(tb);
        c.ok(te!=tb, "steps-nonempty"); log.push_back(te);
        coord::PosVelCar b=orbint.getSol(tb), m=orbint.getSol(.5*(tb+te)), e=orbint.getSol(te);
        if(have) c.ok(dist(b, last, L, V)<1e-9, "solution-continuous", "jump between steps "+utils::toString(dist(b,last,L,V)));
        // the interpolant within the step obeys dx/dt = v - Omega x r
        double h=te-tb, t=tb+h*.5, d=h*2e-3; coord::PosVelCar p=orbint.getSol(t+d), q=orbint.getSol(t-d); std::vector<double> P=v6(p), Q=v6(q), M=v6(m);
        double om[3]={-orbint.Omega*M[1], orbint.Omega*M[0], 0};
        for(int i=0;i<3;i++) { double x=(P[i]-Q[i])/(2*d), tol=(1e-3*V+1e-3*fabs(orbint.Omega)*L); c.ok(fabs(x-(M[3+i]-om[i]))<tol, "interpolant-velocity", utils::toString(x)+" vs "+utils::toString(M[3+i]-om[i])); }
        last=e; have=true; c.event("timesteps");
        return stopAfter<=0 || (int)log.size()-1<stopAfter;
    }
};
template<class CoordT> coord::PosVelCar go(const potential::BasePotential& pot, const coord::PosVelCar& ic, double t0, double T, double Om, const OrbitIntParams& par, Trajectory* tr, double dt) {
    OrbitIntegrator<CoordT> o(pot, Om, par); if(tr) o.addRuntimeFnc(PtrRuntimeFnc(new RuntimeTrajectory(o, dt, *tr))); o.init(ic, t0); return o.run(T); }
int main(int argc, char** argv) {
    vh::Ctx c(argc, argv);
    for(int it=0; it<c.n(60); it++) {
        double L=c.logu(.05,20), M=c.logu(.05,20); int k=it%6; potential::PtrPotential pot;
        std::vector<potential::PtrPotential> comp;
        switch(k) {
            case 0: pot.reset(new potential::Plummer(M,L)); break;
            case 1: pot.reset(new potential::MiyamotoNagai(M,L,L*c.uni(.2,1))); break;
            case 2: pot.reset(new potential::Logarithmic(sqrt(M/L),.5*L,c.uni(.8,1),c.uni(.7,1))); break;
            case 3: pot.reset(new potential::OblatePerfectEllipsoid(M,L,L*c.uni(.4,.9))); break;
            case 4: comp.push_back(potential::PtrPotential(new potential::NFW(M,2*L))); comp.push_back(potential::PtrPotential(new potential::MiyamotoNagai(M,L,.3*L))); pot.reset(new potential::Composite(comp)); break;
            default: pot=gen::makeBlobs(c, coord::ST_NONE, L);
        }
        double r=L*c.uni(.3,2); coord::GradCar g; double th=c.uni(.2,2.9), ph=c.uni(-3,3); coord::PosCar x(r*sin(th)*cos(ph), r*sin(th)*sin(ph), r*cos(th)); pot->eval(x,NULL,&g);
        double V=sqrt(r*sqrt(g.dx*g.dx+g.dy*g.dy+g.dz*g.dz)), T=2*M_PI*r/V*c.uni(.5,3)*(c.coin(.25)?-1:1); coord::PosVelCar ic(x, coord::VelCar(V*c.uni(-.7,.7), V*c.uni(-.7,.7), V*c.uni(-.7,.7)));
        double Om=c.coin()? c.uni(-1,1)*V/r : 0, t0=c.coin()? 0 : c.uni(-5,5)*fabs(T); OrbitIntParams par(1e-10);
        std::ostringstream d; d<<pot->name()<<" L="<<L<<" M="<<M<<" Om="<<Om<<" t0="<<t0<<" T="<<T<<" ic="<<ic.x<<","<<ic.y<<","<<ic.z<<","<<ic.vx<<","<<ic.vy<<","<<ic.vz;
        c.begin("native:"+pot->name(), d.str());
        try {
            Trajectory a; int n=c.irand(1,30); double dt=fabs(T)/n; coord::PosVelCar e=go<coord::Car>(*pot,ic,t0,T,Om,par,&a,dt);
            c.ok((int)a.size()==n+1, "traj-size", utils::toString((int)a.size())+" instead of "+utils::toString(n+1));
            c.ok(dist(a.back().first,e,L,V)<1e-9, "traj-end");
            double tolv=1e-4;
            { Trajectory b; coord::PosVelCar q=go<coord::Cyl>(*pot,ic,t0,T,Om,par,&b,dt); c.ok(dist(q,e,L,V)<tolv, "cyl-car", "deviation "+utils::toString(dist(q,e,L,V))); if(b.size()==a.size()) for(size_t i=0;i<a.size();i++) c.ok(dist(a[i].first,b[i].first,L,V)<tolv, "cyl-car-traj", utils::toString(dist(a[i].first,b[i].first,L,V))); else c.ok(false,"cyl-size"); }
            { Trajectory b; coord::PosVelCar q=go<coord::Sph>(*pot,ic,t0,T,Om,par,&b,dt); c.ok(dist(q,e,L,V)<tolv, "sph-car", "deviation "+utils::toString(dist(q,e,L,V))); if(b.size()==a.size()) for(size_t i=0;i<a.size();i++) c.ok(dist(a[i].first,b[i].first,L,V)<tolv, "sph-car-traj", utils::toString(dist(a[i].first,b[i].first,L,V))); else c.ok(false,"sph-size"); }
            // callback protocol in every coordinate system
            { std::vector<double> log; OrbitIntegrator<coord::Car> o(*pot,Om,par); o.addRuntimeFnc(PtrRuntimeFnc(new Monitor(o,c,log,0,L,V))); o.init(ic,t0); o.run(T); c.ok(log.size()>1 && log.front()==t0 && fabs(log.back()-t0-T)<1e-12*(fabs(t0)+fabs(T)), "steps-cover"); for(size_t i=1;i<log.size();i++) c.ok((log[i]-log[i-1])*T>0, "steps-monotone"); }
            { std::vector<double> log; OrbitIntegrator<coord::Cyl> o(*pot,Om,par); o.addRuntimeFnc(PtrRuntimeFnc(new Monitor(o,c,log,0,L,V))); o.init(ic,t0); o.run(T); c.ok(log.size()>1 && fabs(log.back()-t0-T)<1e-12*(fabs(t0)+fabs(T)), "steps-cover:cyl"); }
            // early termination: the run stops after the requested number of steps and returns the state at that time
            { std::vector<double> log; OrbitIntegrator<coord::Car> o(*pot,Om,par); Trajectory b; o.addRuntimeFnc(PtrRuntimeFnc(new RuntimeTrajectory(o,0,b))); o.addRuntimeFnc(PtrRuntimeFnc(new Monitor(o,c,log,3,L,V))); o.init(ic,t0); coord::PosVelCar q=o.run(100*T); c.ok(log.size()==4 && b.size()==4, "terminate-steps", utils::toString((int)log.size())); c.ok(b.size()&&dist(q,b.back().first,L,V)<1e-12 && b.back().second==log.back(), "terminate-state"); }
            // integration in several consecutive runs: same end state, samples at the same times
            { OrbitIntegrator<coord::Car> o(*pot,Om,par); Trajectory b; o.addRuntimeFnc(PtrRuntimeFnc(new RuntimeTrajectory(o,dt,b))); o.init(ic,t0); double f=c.uni(.1,.9); coord::PosVelCar q=o.run(T*f); (void)q; q=o.run(T*(1-f)); c.event("continued-runs");
              c.ok(dist(q,e,L,V)<1e-5, "continued-run", "deviation "+utils::toString(dist(q,e,L,V))); if(c.ok(b.size()>=a.size()-1 && b.size()<=a.size(), "continued-size", utils::toString((int)b.size()))) for(size_t i=0;i<b.size();i++) c.ok(dist(a[i].first,b[i].first,L,V)<1e-5 && fabs(a[i].second-b[i].second)<1e-12*(fabs(t0)+fabs(T)), "continued-traj", utils::toString(dist(a[i].first,b[i].first,L,V))); }
            // zero time, limit on the number of steps
            { coord::PosVelCar q=go<coord::Car>(*pot,ic,t0,0,Om,par,NULL,0); c.ok(dist(q,ic,L,V)<1e-13, "zero-time"); Trajectory b; OrbitIntParams p2(1e-10, 4); go<coord::Car>(*pot,ic,t0,100*T,Om,p2,&b,0); c.ok(b.size()==5, "max-steps", utils::toString((int)b.size())); }
            // convenience routine
            { Trajectory b=integrateTraj(ic,T,dt,*pot,Om,par,t0); c.ok(b.size()==a.size(), "integrateTraj-size"); for(size_t i=0;i<a.size()&&i<b.size();i++) c.ok(dist(a[i].first,b[i].first,L,V)<1e-13, "integrateTraj"); }
            // accuracy improves with the parameter
            { double er[3]; for(int j=0;j<3;j++) { OrbitIntParams p2(pow(10.,-4-3*j)); er[j]=dist(go<coord::Car>(*pot,ic,t0,T,Om,p2,NULL,0), go<coord::Car>(*pot,ic,t0,T,Om,OrbitIntParams(1e-13),NULL,0), L, V); } c.ok(er[2]<=fmax(er[0],1e-9) && er[2]<1e-5, "accuracy-order", utils::toString(er[0])+" "+utils::toString(er[1])+" "+utils::toString(er[2])); }
        } catch(std::exception& ex) { c.violation("native:exception", ex.what()); }
        c.end();
    }
    // orbits crossing the polar axis or the origin, where curvilinear coordinates are degenerate
    for(int it=0; it<c.n(12); it++) {
        double L=1, eps[4]={0,1e-12,1e-6,1e-3}; potential::PtrPotential pot(new potential::Plummer(1,1)); double e=eps[it%4]; coord::PosVelCar ic(c.uni(.3,1), e*c.nor(), it%3==0?0:c.uni(-.5,.5), c.uni(-.3,.3), it%2?0:e, c.uni(-.3,.3));
        if(it%4==0) { ic.y=0; ic.vy=0; }
        std::ostringstream d; d<<ic.x<<","<<ic.y<<","<<ic.z<<","<<ic.vx<<","<<ic.vy<<","<<ic.vz; c.begin("degenerate", d.str());
        try { OrbitIntParams par(1e-10); coord::PosVelCar a=go<coord::Car>(*pot,ic,0,10,0,par,NULL,0), b=go<coord::Cyl>(*pot,ic,0,10,0,par,NULL,0);
            c.ok(dist(a,b,L,1)<1e-3 || (e>0 && e<1e-2), "degenerate-cyl", utils::toString(dist(a,b,L,1))); 
        } catch(std::exception& ex) { c.violation("degenerate:exception", ex.what()); }
        c.end();
    }
    c.done(); return 0;
}
