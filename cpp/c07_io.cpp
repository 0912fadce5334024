// C07: configuration entries, number formatting and parsing, mass profiles, snapshots (C++ level)
#include "vh.h"
#include "utils.h"
#include "utils_config.h"
#include "particles_io.h"
#include "potential_factory.h"
#include "potential_base.h"
#include "math_spline.h"
#include <fstream>
#include <algorithm>
#include <unistd.h>
using vh::Str;
static std::string tmpdir;
static std::string lower(std::string s) { for(size_t i=0;i<s.size();i++) s[i]=tolower(s[i]); return s; }
static std::string rnd(vh::Ctx& c, const char* alpha, int lo, int hi) { std::string s; int n=c.irand(lo,hi), m=strlen(alpha); for(int i=0;i<n;i++) s+=alpha[c.irand(0,m-1)]; return s; }
static double rndnum(vh::Ctx& c) {
    switch(c.irand(0,7)) { case 0: return (c.coin()?1:-1)*c.logu(1e-300,1e300); case 1: return (c.coin()?1:-1)*c.logu(1e-12,1e12); case 2: return c.irand(-1000000,1000000);
      case 3: return (c.coin()?1:-1)*std::pow(10., c.irand(-30,30))*(1+c.uni(-1,1)*std::pow(10., c.irand(-17,-1))); case 4: return c.uni(-1,1); case 5: return c.irand(-10,10)*.5; case 6: return (c.coin()?1:-1)*9.9999999999999*std::pow(10., c.irand(-20,20)); default: return c.nor()*100; }
}
struct Ref { // ordered map with case-insensitive keys
    std::vector<std::pair<std::string,std::string> > v;
    int find(const std::string& k) const { for(size_t i=0;i<v.size();i++) if(lower(v[i].first)==lower(k)) return i; return -1; }
};
static std::string trim(const std::string& s) { size_t a=s.find_first_not_of(" \t\n\r"), b=s.find_last_not_of(" \t\n\r"); return a==std::string::npos? "" : s.substr(a,b-a+1); }
int main(int argc, char** argv) {
    vh::Ctx c(argc, argv);
    char tb[]="/tmp/c07_XXXXXX"; if(!mkdtemp(tb)) return 2; tmpdir=tb; std::vector<std::string> files;
    if(c.has("numbers")) for(int i=0;i<c.n(40000);i++) {
        double x=rndnum(c); int w=c.irand(1,30);
        vh::run(c,"pp",Str()<<x<<" w="<<w,[&]{
            std::string s=utils::pp(x,w); c.ok((int)s.size()==w,"pp-width","'"+s+"'");
            if(s.find('#')!=std::string::npos) { c.ok(w<8,"pp-nofit",s); c.ok(s.find_first_not_of("#-")==std::string::npos,"pp-hash",s); return; }
            if(x==0) { c.ok(utils::toDouble(s)==0 || s=="-","pp-zero",s); return; }
            if(s=="-") return;
            char* end; double y=strtod(s.c_str(),&end); c.ok(*end==0,"pp-parse",s);
            size_t e=s.find('e'), d=s.find('.'); int ex = e==std::string::npos?0:atoi(s.c_str()+e+1), dec = d==std::string::npos?0:(int)((e==std::string::npos?s.size():e)-d-1);
            c.ok(y*x>=0,"pp-sign",s); double unit=std::pow(10.,ex-dec);
            c.close(y,x,"pp-value",2e-15*(1+fabs(log10(fabs(x)))*.5),unit*1.0001,s);   // at most one unit of the last printed digit
            // number of significant digits: no less than what fits into exponential notation
            int digs=0; bool st=false; for(size_t k=0;k<s.size() && s[k]!='e';k++) if(isdigit(s[k])) { if(s[k]!='0') st=true; if(st) digs++; }
            int need=w-(x<0)-1-6; if(need>0) c.ok(digs>=need,"pp-digits",s);
        });
        vh::run(c,"tostring",Str()<<x<<" w="<<w,[&]{
            int p=c.irand(1,17); std::string s=utils::toString(x,p); c.close(utils::toDouble(s),x,"toString",2e-16+.5001*std::pow(10.,1-p), 0); if(p==17) c.ok(utils::toDouble(s)==x,"toString-exact",s);
            c.close(utils::toDouble(utils::toString(x)),x,"toString-default",5.02e-6);
            float f=(float)c.nor(); c.close(utils::toFloat(utils::toString(f,9)),f,"toString-float",0);
            int n=c.irand(-2147483647,2147483647); c.ok(utils::toInt(utils::toString(n))==n,"toInt"); unsigned u=(unsigned)n; c.ok(utils::toDouble(utils::toString(u))==u,"toString-unsigned"); long l=(long)c.rng(); c.ok(utils::toString(l)==std::to_string(l),"toString-long"); unsigned long ul=c.rng(); c.ok(utils::toString(ul)==std::to_string(ul),"toString-ulong"); c.ok(utils::toString((long long)l)==std::to_string(l) && utils::toString((unsigned long long)ul)==std::to_string(ul),"toString-longlong");
            double z=c.uni(-3e9,3e9); int iz= z>=2147483647.?2147483647: z<=-2147483648.? -2147483647-1 : (int)z; c.ok(utils::toInt(utils::toString(z,17))==iz,"toInt-trunc");
            c.ok(utils::toString(true)!=utils::toString(false) && utils::toBool(utils::toString(true)) && !utils::toBool(utils::toString(false)),"toBool");
            static const char* T[]={"true","True","TRUE","t","yes","Y","1"," 1","\tyes"}, *F[]={"false","False","FALSE","f","no","N","0"," 0",""}; c.ok(utils::toBool(T[c.irand(0,8)]),"toBool-true"); c.ok(!utils::toBool(F[c.irand(0,8)]),"toBool-false");
            bool thr=false; std::string g=rnd(c,"abcxyz!@$*(",1,5); try { utils::toDouble("_"+g); } catch(std::exception&) { thr=true; } c.ok(thr,"toDouble-invalid",g); thr=false; try { utils::toInt("_"+g); } catch(std::exception&) { thr=true; } c.ok(thr,"toInt-invalid"); thr=false; try { utils::toBool("x"+g); } catch(std::exception&) { thr=true; } c.ok(thr,"toBool-invalid");
            // vectors and splitting
            std::vector<double> v(c.irand(0,8)); for(double& q: v) q=c.nor(); std::vector<double> r=utils::toDoubleVector(utils::splitString(utils::toString(v,','),",")); c.ok(r.size()==v.size(),"toString-vector"); for(size_t k=0;k<v.size() && k<r.size();k++) c.close(r[k],v[k],"toString-vector",5.02e-6);
            std::string src=rnd(c,"ab,; ",0,15); std::vector<std::string> ref, got=utils::splitString(src,",; "); std::string cur; for(size_t k=0;k<=src.size();k++) if(k==src.size()||strchr(",; ",src[k])) { if(!cur.empty()) ref.push_back(cur); cur=""; } else cur+=src[k];
            c.ok(got==ref,"splitString","'"+src+"'");
            std::string a=rnd(c,"aAbB",0,4),b=rnd(c,"aAbB",0,3); c.ok(utils::stringsEqual(a,b)==(lower(a)==lower(b)) && utils::stringsEqual(a,b.c_str())==(lower(a)==lower(b)),"stringsEqual",a+"|"+b); c.ok(utils::endsWithStr(a,b)==(a.size()>=b.size() && a.substr(a.size()-b.size())==b),"endsWithStr",a+"|"+b);
        });
    }
    if(c.has("config")) for(int i=0;i<c.n(3000);i++) {
        std::string fn=tmpdir+"/c"+std::to_string(i)+".ini"; std::vector<std::pair<std::string,Ref> > S; std::string text; int nl=c.irand(0,25); bool nonl=c.coin(.3), badfile=false;
        auto sec=[&](const std::string& n)->Ref& { for(auto& s: S) if(lower(s.first)==lower(n)) return s.second; S.push_back(std::make_pair(n,Ref())); return S.back().second; };
        std::string cursec; bool have=false;
        for(int k=0;k<nl;k++) { std::string line; const char* sp[]={""," ","\t","  "};
            switch(c.irand(0,6)) {
              case 0: { std::string n="a"+rnd(c,"aAbB 1",0,3); line=sp[c.irand(0,3)]+("["+std::string(sp[c.irand(0,3)])+n+sp[c.irand(0,3)]+"]")+sp[c.irand(0,3)]; n=trim(n); if(!n.empty()) { cursec=n; sec(n); have=true; } break; }
              case 1: line=std::string(1,"#;"[c.irand(0,1)])+rnd(c,"abc=[]1 ",0,8); break;
              case 2: line=rnd(c,"xyz 12\t",0,8); break;
              default: { std::string key=rnd(c,"kKqQ",1,3), val=rnd(c,"a1.-;#[ =",0,8); if(!have && S.empty()) {} Ref& r=sec(have||!S.empty()?cursec:""); if(r.find(key)>=0) { if(c.coin(.98)) continue; badfile=true; } else r.v.push_back(std::make_pair(key, trim(val)));
                 if(trim(val).empty()) { val=""; } line=sp[c.irand(0,3)]+key+sp[c.irand(0,3)]+"="+sp[val.empty()?0:c.irand(0,3)]+val+(val.empty()?"":sp[c.irand(0,3)]); } }
            if(!S.size()) { sec(""); cursec=""; }
            if(line.find('[')==std::string::npos || line.find('=')!=std::string::npos || true) text+=line+(c.coin(.1)?"\r\n":"\n");
        }
        if(nonl && !text.empty()) text.erase(text.size()-1);
        if(text.empty()) S.clear();
        vh::run(c,"config",text,[&]{
            { std::ofstream(fn.c_str())<<text; }
            if(badfile) { bool thr=false; try { utils::ConfigFile f(fn); } catch(std::exception&) { thr=true; } c.ok(thr,"config-duplicate"); c.event("duplicate"); return; }
            auto verify=[&](utils::ConfigFile& f, const char* key) {
                for(auto& s: S) { if(s.second.v.empty()) continue; utils::KeyValueMap& m=f.findSection(c.coin()?s.first:lower(s.first)); std::vector<std::string> ks=m.keys(); bool same=ks.size()==s.second.v.size(); for(size_t k=0;same&&k<ks.size();k++) same = ks[k]==s.second.v[k].first;
                    c.ok(same,std::string(key)+"-keys"); for(auto& kv: s.second.v) { c.ok(m.contains(kv.first),std::string(key)+"-contains"); std::string g=m.getString(lower(kv.first),"dflt"); c.ok(g==kv.second,std::string(key)+"-value",kv.first+": '"+g+"' vs '"+kv.second+"'"); }
                    c.ok(m.getString("nonexistent","dflt")=="dflt" && !m.contains("nonexistent") && m.getDouble("nonexistent",3.5)==3.5 && m.getInt("nonexistent",7)==7 && m.getBool("nonexistent",true) && !m.contains(""),std::string(key)+"-default"); } };
            { utils::ConfigFile f(fn); verify(f,"config-read"); }
            { std::ifstream s(fn.c_str()); std::stringstream b; b<<s.rdbuf(); c.ok(b.str()==text,"config-untouched"); }   // reading does not modify
            { utils::ConfigFile f(fn); int nop=c.irand(1,6); for(int k=0;k<nop;k++) { std::string sn = S.size()&&c.coin(.7)? S[c.irand(0,S.size()-1)].first : "New"+std::to_string(c.irand(0,2)), key=rnd(c,"kKqQzZ",1,3); if(sn.empty()) sn = S.size()&&S[0].first.empty()? "" : "New0"; Ref& r=sec(sn); utils::KeyValueMap& m=f.findSection(sn); int p=r.find(key);
                switch(c.irand(0,5)) { case 0: { bool u=m.unset(key); c.ok(u==(p>=0),"config-unset"); if(p>=0) r.v.erase(r.v.begin()+p); break; }
                  case 1: { double x=rndnum(c); int w=c.irand(6,17); m.set(key,x,w); std::string s=utils::toString(x,w); if(p>=0) r.v[p].second=s; else r.v.push_back(std::make_pair(key,s)); c.close(m.getDouble(key),x,"config-double",1e-15+5.02*std::pow(10.,-w)); break; }
                  case 2: { int x=c.irand(-1000000000,1000000000); m.set(key,x); std::string s=std::to_string(x); if(p>=0) r.v[p].second=s; else r.v.push_back(std::make_pair(key,s)); c.ok(m.getInt(key)==x,"config-int"); break; }
                  case 3: { bool x=c.coin(); m.set(key,x); std::string s=utils::toString(x); if(p>=0) r.v[p].second=s; else r.v.push_back(std::make_pair(key,s)); c.ok(m.getBool(key,!x)==x,"config-bool"); break; }
                  default: { std::string s="v"+rnd(c,"abc=;# 1",0,6)+"e"; m.set(key,s); if(p>=0) r.v[p].second=s; else r.v.push_back(std::make_pair(key,s)); } } }
              verify(f,"config-set"); }
            { utils::ConfigFile f(fn); verify(f,"config-saved"); }
        });
        unlink(fn.c_str());
        vh::run(c,"kvmap",Str()<<i,[&]{ // single-line form, command-line form, alternatives, vectors, pop
            std::vector<std::string> items; Ref r; for(int k=c.irand(1,6);k>0;k--) { std::string key=rnd(c,"kKqQz",1,3), v=rnd(c,"a1.",1,5); if(r.find(key)>=0) continue; r.v.push_back(std::make_pair(key,v)); items.push_back(key+"="+v); }
            std::string one; std::vector<const char*> pa; for(auto& s: items) { one+=s+(c.coin()?" ":", "); pa.push_back(s.c_str()); }
            utils::KeyValueMap A(one), B((int)pa.size(),&pa[0]); utils::KeyValueMap C(A.dumpSingleLine()); for(auto& kv: r.v) { c.ok(A.getString(kv.first)==kv.second && B.getString(kv.first)==kv.second && C.getString(kv.first)==kv.second,"kvmap-forms",one); c.ok(A.getStringAlt(kv.first,"nn","d")==kv.second && A.getStringAlt("nn",kv.first,"d")==kv.second,"kvmap-alt"); }
            c.ok(A.getStringAlt("n1","n2","d")=="d","kvmap-alt-default"); if(r.v.size()>1) { bool thr=false; try { A.getStringAlt(r.v[0].first,r.v[1].first); } catch(std::exception&) { thr=true; } c.ok(thr,"kvmap-alt-both"); std::string p=A.popString(r.v[0].first); c.ok(p==r.v[0].second && !A.contains(r.v[0].first) && A.contains(r.v[1].first) && A.keys().size()==r.v.size()-1,"kvmap-pop"); }
            double x=c.nor(), y=c.nor(); utils::KeyValueMap D; D.set("vec",utils::toString(x,17)+", "+utils::toString(y,17)); D.set("num",x,17); D.set("n",c.irand(0,99)); std::vector<double> v=D.getDoubleVector("VEC",std::vector<double>()); c.ok(v.size()==2 && v[0]==x && v[1]==y,"kvmap-vector"); c.ok(D.getDoubleVector("none",std::vector<double>(3,x))==std::vector<double>(3,x),"kvmap-vector-default");
            c.ok(D.getDoubleAlt("NUM","zzz",0)==x && D.getDoubleAlt("zzz","num",0)==x && D.getDoubleAlt("z","zzz",y)==y && D.popDoubleAlt("z","Num",y)==x && !D.contains("num") && D.popInt("N",-1)>=0 && D.popInt("n",-1)==-1,"kvmap-numeric");
        });
    }
    if(c.has("profiles")) for(int i=0;i<c.n(300);i++) {
        std::string fn=tmpdir+"/m.txt"; int n=c.irand(8,60); double a=c.logu(1e-3,1e3), M=c.logu(1e-3,1e6);
        vh::run(c,"massprofile",Str()<<n<<" "<<a<<" "<<M,[&]{ std::vector<double> r(n), m(n); std::ofstream f(fn.c_str()); if(c.coin()) f<<"# header line\n"; if(c.coin()) f<<"radius mass\n"; f.precision(17); if(c.coin()) f<<"0 0\n";
            for(int k=0;k<n;k++) { r[k]=a*std::pow(10.,-2+4.*(k+.3*c.uni())/n); double s=r[k]/a; m[k]=M*s*s*s*std::pow(1+s*s,-1.5); if(c.coin(.1)) f<<"\n"; if(c.coin(.1)) f<<"#1 2 3\n"; f<<r[k]<<(c.coin()?" ":"\t")<<m[k]<<(c.coin(.2)?" extra":"")<<(k<n-1||c.coin()?"\n":""); } f.close();
            math::LogLogSpline s=potential::readMassProfile(fn); std::vector<double> d=potential::densityFromCumulativeMass(r,m); c.ok(s.xmin()==r[0] && s.xmax()==r[n-1],"massprofile-nodes"); for(int k=0;k<n;k++) c.close(s(r[k]),d[k],"massprofile",1e-12);
            // interior: agrees with the true density of the profile; reintegration gives the mass profile
            for(int k=2;k<n-2;k++) { double t=r[k]/a, rho=3*M/(4*M_PI*a*a*a)*std::pow(1+t*t,-2.5); if(n>30) c.close(d[k],rho,"massprofile-density",.03); } });
        vh::run(c,"massprofile-bad",Str()<<i,[&]{ static const char* B[]={"-1 2\n1 3\n2 4\n3 5\n","0 1\n1 2\n2 3\n","1 2\n1 3\n2 4\n3 5\n","2 1\n1 2\n3 3\n","1 2\n2 1.5\n3 1\n4 3\n","","text only\n","1 1\n"}; int k=i%8; { std::ofstream(fn.c_str())<<B[k]; } bool thr=false; try { potential::readMassProfile(fn); } catch(std::exception&) { thr=true; } c.ok(thr,"massprofile-reject",B[k]); });
        unlink(fn.c_str());
    }
    if(c.has("snapshots")) for(int i=0;i<c.n(400);i++) {
        std::string fn=tmpdir+"/s.txt"; int n=c.irand(0,60), kind=i%3; units::InternalUnits iu(c.logu(.1,10)*units::Kpc, c.logu(.1,10)*units::Myr); bool conv=c.coin(); units::ExternalUnits eu = !conv ? units::ExternalUnits() : units::ExternalUnits(iu, c.logu(.1,10)*units::Kpc, c.logu(.1,100)*units::kms, c.logu(1,1e6)*units::Msun);
        vh::run(c,"cppsnapshot",Str()<<n<<" kind="<<kind<<" conv="<<conv,[&]{
            particles::ParticleArrayAux p; for(int k=0;k<n;k++) p.add(particles::ParticleAux(coord::PosVelCar(rndnum(c),rndnum(c),rndnum(c),rndnum(c),rndnum(c),rndnum(c)),std::fabs(rndnum(c)),std::fabs(rndnum(c))),c.coin(.1)?0:std::fabs(rndnum(c)));
            double tm=c.coin()?c.nor():NAN; std::string hdr=c.coin()?"a header 1 2 3 4 5 6 7":"";
            if(kind==0) particles::writeSnapshot(fn,p,"text",eu,hdr,tm); else if(kind==1) { particles::ParticleArrayCar q(p); particles::writeSnapshot(fn,q,"Text",eu,hdr,tm); } else { particles::ParticleArray<coord::PosCar> q(p); particles::writeSnapshot(fn,q,"t",eu,hdr,tm); }
            particles::ParticleArrayAux g=particles::readSnapshot(fn,eu); c.ok(g.size()==p.size(),"cppsnapshot-size"); if(g.size()!=p.size()) return;
            double tol=6e-8; for(int k=0;k<n;k++) { const particles::ParticleAux &A=p.point(k), &B=g.point(k); double x[6],y[6]; A.unpack_to(x); B.unpack_to(y); for(int d=0;d<3;d++) { c.close(y[d],x[d],"cppsnapshot-pos",tol); if(kind<2) c.close(y[3+d],x[3+d],"cppsnapshot-vel",tol); else c.ok(y[3+d]==0,"cppsnapshot-novel"); } c.close(g.mass(k),p.mass(k),"cppsnapshot-mass",tol); if(kind==0) { c.close(B.stellarMass,A.stellarMass,"cppsnapshot-stellarmass",tol); c.close(B.stellarRadius,A.stellarRadius,"cppsnapshot-stellarradius",tol); } else c.close(B.stellarMass,p.mass(k),"cppsnapshot-stellarmass-default",tol); }
        });
        unlink(fn.c_str());
    }
    rmdir(tmpdir.c_str());
    c.done(); return 0;
}
