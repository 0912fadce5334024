// C12: basic pseudo- and quasi-random generators; oracles: stated distributions, exact radical inverse, exact orthogonality
#include "math_random.h"
#include "math_sample.h"
#include "vh.h"
#include <algorithm>
#include <functional>
#include <omp.h>
using vh::Ctx; using vh::Str;
static double ksdist(std::vector<double> u) { std::sort(u.begin(), u.end()); double D=0; size_t n=u.size(); for(size_t i=0;i<n;i++) D=std::max(D, std::max((i+1.)/n-u[i], u[i]-i*1./n)); return D*sqrt(double(n)); }
static void uni(Ctx& c, const std::vector<double>& u, const char* key) { c.ok(ksdist(u)<3.0, key, Str()<<"KS*sqrt(n)="<<ksdist(u)); }
static double ncdf(double x) { return 0.5*erfc(-x/sqrt(2.)); }
static void generators(Ctx& c) {
    for(int t=0; t<c.n(20); t++) {
        unsigned seed=(unsigned)c.irand(1, 2000000000); math::PRNGState st=0; bool local=c.coin();
        c.begin("generators", Str()<<"{\"seed\":"<<seed<<",\"local\":"<<local<<"}");
        math::randomize(seed);
        double dat[3]={c.nor(), c.nor(), c.nor()}; st=math::hash(dat, 3, seed);
        math::PRNGState* s = local ? &st : NULL; const size_t N=20000; std::vector<double> u, g1, g2, ser, bits;
        bool in=true; for(size_t i=0;i<N;i++) { double v=math::random(s); in &= v>=0 && v<1; u.push_back(v); }
        c.ok(in, "uniform-range"); uni(c, u, "uniform");
        double cor=0; for(size_t i=1;i<N;i++) cor+=(u[i]-.5)*(u[i-1]-.5); c.ok(fabs(cor/N)<5.5/12/sqrt(N), "uniform-serial");
        // low-order bits are random as well
        for(size_t i=0;i<N;i++) { double q=u[i]*1048576; bits.push_back(q-floor(q)); } uni(c, bits, "uniform-low-bits");
        double c12=0; for(size_t i=0;i<N/2;i++) { double a,b; math::getNormalRandomNumbers(a,b,s); g1.push_back(ncdf(a)); g2.push_back(ncdf(b)); c12+=a*b; }
        uni(c, g1, "normal-1"); uni(c, g2, "normal-2"); c.ok(fabs(c12/(N/2))<5.5/sqrt(N/2.), "normal-correlation");
        { double cc=0; for(size_t i=0;i<N/2;i++) cc+=(4*(g1[i]-.5)*(g1[i]-.5)-1./3)*(4*(g2[i]-.5)*(g2[i]-.5)-1./3); c.ok(fabs(cc/(N/2))<5.5*(4./45)/sqrt(N/2.), "normal-dependence"); }
        std::vector<double> a1,a2,a3,ph; bool unit=true;
        for(size_t i=0;i<N/2;i++) { double v[3]; math::getRandomUnitVector(v,s); unit &= fabs(v[0]*v[0]+v[1]*v[1]+v[2]*v[2]-1)<1e-14; a1.push_back(v[0]*.5+.5); a2.push_back(v[1]*.5+.5); a3.push_back(v[2]*.5+.5); ph.push_back(atan2(v[1],v[0])/(2*M_PI)+.5); }
        c.ok(unit,"unit-vector-norm"); uni(c,a1,"unit-vector-x"); uni(c,a2,"unit-vector-y"); uni(c,a3,"unit-vector-z"); uni(c,ph,"unit-vector-phi");
        // perpendicular vectors
        for(int k=0;k<6;k++) {
            double sc=c.logu(1e-100,1e100), v[3]={c.nor()*sc,c.nor()*sc,c.nor()*sc}; if(k==1) v[0]=v[1]=0; if(k==2) v[2]=0; if(k==3) v[1]=v[2]=0; if(k==4) v[0]=v[2]=0; if(k==5) v[0]=v[1]=v[2]=0;
            double m=sqrt(v[0]*v[0]/sc/sc+v[1]*v[1]/sc/sc+v[2]*v[2]/sc/sc)*sc; std::vector<double> ang; bool good=true, perp=true; double mr=0;
            for(int i=0;i<3000;i++) { double p[3]; mr=math::getRandomPerpendicularVector(v,p,s); good &= fabs(p[0]*p[0]+p[1]*p[1]+p[2]*p[2]-1)<1e-13; if(m>0) { perp &= fabs(p[0]*v[0]+p[1]*v[1]+p[2]*v[2])<=1e-13*m;
                int ax = fabs(v[0])<=fabs(v[1])&&fabs(v[0])<=fabs(v[2])?0:fabs(v[1])<=fabs(v[2])?1:2; double e[3]={0,0,0}; e[ax]=1; double n[3]={v[0]/m,v[1]/m,v[2]/m}, d=n[ax], f[3]={e[0]-d*n[0],e[1]-d*n[1],e[2]-d*n[2]}, q=sqrt(f[0]*f[0]+f[1]*f[1]+f[2]*f[2]); for(int j=0;j<3;j++) f[j]/=q;
                double g[3]={n[1]*f[2]-n[2]*f[1],n[2]*f[0]-n[0]*f[2],n[0]*f[1]-n[1]*f[0]}; ang.push_back(atan2(p[0]*g[0]+p[1]*g[1]+p[2]*g[2], p[0]*f[0]+p[1]*f[1]+p[2]*f[2])/(2*M_PI)+.5); } }
            if(m>0) { c.ok(good,"perpendicular-norm"); c.ok(perp,"perpendicular"); c.ok(fabs(mr-m)<=1e-12*m,"perpendicular-magnitude"); uni(c,ang,"perpendicular-uniform"); } else { c.ok(mr==0,"perpendicular-zero-magnitude"); c.ok(good,"perpendicular-of-zero"); }
        }
        // rotation matrices
        std::vector<double> w; bool orth=true; double ang=0, x0[3]; math::getRandomUnitVector(x0,s);
        for(int i=0;i<5000;i++) { double M[9]; math::getRandomRotationMatrix(M,s); for(int a=0;a<3;a++) for(int b=0;b<3;b++) { double d=0; for(int k=0;k<3;k++) d+=M[a*3+k]*M[b*3+k]; orth &= fabs(d-(a==b))<1e-13; }
            double det=M[0]*(M[4]*M[8]-M[5]*M[7])-M[1]*(M[3]*M[8]-M[5]*M[6])+M[2]*(M[3]*M[7]-M[4]*M[6]); orth &= fabs(det-1)<1e-13; double tr=fmin(3,fmax(-1,M[0]+M[4]+M[8])); ang+=acos((tr-1)/2); (void)x0;
            double q=atan2(M[7]-M[5],0.); (void)q; double ax[3]={M[7]-M[5],M[2]-M[6],M[3]-M[1]}, an=sqrt(ax[0]*ax[0]+ax[1]*ax[1]+ax[2]*ax[2]); w.push_back(an>0?ax[2]/an*.5+.5:.5); }
        c.ok(orth,"rotation-orthogonal"); uni(c,w,"rotation-axis"); { double mean=ang/5000; c.ok(fabs(mean-(M_PI/2+2/M_PI))<5.5*.65/sqrt(5000.),"rotation-angle",Str()<<mean); }
        // permutations
        for(int k=0;k<8;k++) { size_t n=k<3?k:c.irand(2,200); std::vector<size_t> p(n+1,77777); math::getRandomPermutation(n,p.data(),s); c.ok(p[n]==77777,"permutation-overrun"); std::vector<size_t> q(p.begin(),p.begin()+n); std::sort(q.begin(),q.end()); bool ok=true; for(size_t i=0;i<n;i++) ok&=q[i]==i; c.ok(ok,"permutation"); }
        { const int n=5, R=24000; std::vector<int> cnt(n*n,0), pr(120,0); for(int i=0;i<R;i++) { size_t p[n]; math::getRandomPermutation(n,p,s); int code=0; for(int a=0;a<n;a++) { cnt[a*n+p[a]]++; int l=0; for(int b=a+1;b<n;b++) l+=p[b]<p[a]; code=code*(n-a)+l; } pr[code]++; }
          double chi=0; for(int i=0;i<120;i++) chi+=(pr[i]-R/120.)*(pr[i]-R/120.)/(R/120.); c.ok(chi<119+6*sqrt(2*119.)+20,"permutation-uniform",Str()<<"chi2="<<chi); bool b=true; for(int i=0;i<25;i++) b&=fabs(cnt[i]-R/5.)<6*sqrt(R*.16); c.ok(b,"permutation-positions"); }
        c.end();
    }
}
static void lowlevel(Ctx& c) {
    for(int t=0; t<c.n(30); t++) {
        unsigned seed=(unsigned)c.irand(1,2000000000); c.begin("lowlevel", Str()<<"{\"seed\":"<<seed<<"}");
        // Halton: radical inverse computed with integer arithmetic
        for(int k=0;k<300;k++) { size_t idx=(size_t)c.logu(1,1e12); unsigned b=math::PRIMES[c.irand(0,9)]; long double v=0, f=1; size_t i=idx; while(i) { f/=b; v+=f*(i%b); i/=b; } double h=math::quasiRandomHalton(idx,b); c.ok(fabs(h-(double)v)<1e-13 && h>=0 && h<1,"halton",Str()<<idx<<" base "<<b<<": "<<h); }
        for(int a=0;a<10;a++) for(int b=0;b<a;b++) c.ok(math::PRIMES[a]!=math::PRIMES[b],"primes-distinct"); for(int a=0;a<10;a++) { bool p=math::PRIMES[a]>1; for(int q=2;q<math::PRIMES[a];q++) p&=math::PRIMES[a]%q!=0; c.ok(p,"primes"); }
        // hash: deterministic, depends on every bit of the data, length and seed, avalanche
        double d[5]; for(int i=0;i<5;i++) d[i]=c.nor(); int len=c.irand(1,5); math::PRNGState h=math::hash(d,len,seed); c.ok(h==math::hash(d,len,seed),"hash-deterministic"); c.ok(h!=math::hash(d,len,seed+1),"hash-seed");
        double flips=0; int nf=0; for(int i=0;i<len;i++) for(int b=0;b<64;b+=3) { double e[5]; memcpy(e,d,sizeof(d)); uint64_t w; memcpy(&w,&e[i],8); w^=1ull<<b; memcpy(&e[i],&w,8); math::PRNGState g=math::hash(e,len,seed); c.ok(g!=h,"hash-bit"); flips+=__builtin_popcountll(g^h); nf++; } c.ok(fabs(flips/nf-32)<5,"hash-avalanche",Str()<<flips/nf);
        { double e[5]; memcpy(e,d,sizeof(d)); if(len<5) { e[len]+=1; c.ok(math::hash(e,len,seed)==h,"hash-beyond-length"); } std::swap(e[0],e[len-1]); if(len>1) c.ok(math::hash(e,len,seed)!=h,"hash-order"); }
        // streams started from hashes of consecutive seeds are not correlated
        std::vector<double> u; for(int i=0;i<20000;i++) { math::PRNGState s=math::hash(d,len,i); u.push_back(math::random(&s)); } uni(c,u,"hash-stream"); double cor=0; for(size_t i=1;i<u.size();i++) cor+=(u[i]-.5)*(u[i-1]-.5); c.ok(fabs(cor/u.size())<5.5/12/sqrt(u.size()),"hash-stream-serial");
        { std::vector<double> v; for(int i=0;i<20000;i++) { d[0]=i*1e-3; math::PRNGState s=math::hash(d,len,seed); v.push_back(math::random(&s)); } uni(c,v,"hash-stream-data"); }
        // global generator: same seed -> same stream in every thread; threads are distinct; local state does not touch global state
        int nt=omp_get_max_threads(); std::vector<std::vector<double> > A(nt), B(nt), C(nt);
        for(int rep=0;rep<3;rep++) { math::randomize(rep<2?seed:seed+1); std::vector<std::vector<double> >& D=rep==0?A:rep==1?B:C; 
#pragma omp parallel num_threads(nt)
            { int id=omp_get_thread_num(); math::PRNGState s=5+id; for(int i=0;i<500;i++) { D[id].push_back(math::random()); if(rep==1) math::random(&s); } } }
        c.ok(A==B,"thread-streams-reproducible"); bool dif=true; for(int a=0;a<nt;a++) { for(int b=0;b<a;b++) dif&=A[a]!=A[b]; dif&=A[a]!=C[a]; } c.ok(dif,"thread-streams-distinct"); c.event("thread-streams",nt);
        c.end();
    }
}
int main(int argc, char** argv) { Ctx c(argc, argv); if(c.has("generators")) generators(c); if(c.has("lowlevel")) lowlevel(c); c.done(); return 0; }
