// Monitor-side API for C++ harnesses; same event format as lib/vh.py
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <limits>
#include <random>
namespace vh {
inline std::string esc(const std::string& s) {
    std::string r;
    for(size_t i=0; i<s.size(); i++) {
        unsigned char c = s[i];
        if(c=='"' || c=='\\') { r += '\\'; r += c; }
        else if(c<32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else if(c<127) r += c; else r += '?';
    }
    return r;
}
struct Skip {};
struct Ctx {
    FILE* out; std::string outname; unsigned seed; bool thorough;
    std::mt19937_64 rng;
    long neval, ncase, nskip;
    std::set<std::string> hashes;
    std::map<std::string,long> viol, events;
    std::map<std::string,double> maxrel;
    std::map<std::string,std::string> samples;
    std::string ckey, cpar;
    std::vector<std::string> args;
    Ctx(int argc, char** argv): out(stdout), seed(1), thorough(false), neval(0), ncase(0), nskip(0) {
        for(int i=1; i<argc; i++) {
            std::string a=argv[i];
            if(a=="--seed" && i+1<argc) seed=atoi(argv[++i]);
            else if(a=="--tier" && i+1<argc) thorough = std::string(argv[++i])=="thorough";
            else if(a=="--out" && i+1<argc) { outname=argv[++i]; out=fopen(outname.c_str(), "w"); }
            else args.push_back(a);
        }
        uint64_t h=1469598103934665603ULL;
        for(size_t k=0; k<args.size(); k++) for(size_t i=0; i<args[k].size(); i++) h=(h^args[k][i])*1099511628211ULL;
        rng.seed(seed*1000003ULL + h);
    }
    bool has(const char* group) const { if(args.empty()) return true; for(size_t i=0;i<args.size();i++) if(args[i]==group) return true; return false; }
    long n(long quick, long th=0) const { return thorough ? (th? th : quick*8) : quick; }
    double uni(double a=0, double b=1) { return a + (b-a)*std::uniform_real_distribution<double>(0,1)(rng); }
    double nor() { return std::normal_distribution<double>(0,1)(rng); }
    double logu(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
    int irand(int a, int b) { return std::uniform_int_distribution<int>(a,b)(rng); }  // inclusive
    bool coin(double p=0.5) { return uni()<p; }
    void begin(const std::string& key, const std::string& par) {
        ckey=key; cpar=par; ncase++;
        if(!outname.empty() && (ncase<2000 || ncase%64==0)) {
            FILE* f=fopen((outname+".cur").c_str(), "w");
            if(f) { fprintf(f, "{\"key\":\"%s\",\"params\":\"%s\"}", esc(key).c_str(), esc(par).c_str()); fclose(f); }
        }
    }
    void end() {
        uint64_t h=1469598103934665603ULL; std::string s=ckey+"|"+cpar;
        for(size_t i=0; i<s.size(); i++) h=(h^(unsigned char)s[i])*1099511628211ULL;
        char b[20]; snprintf(b, 20, "%016llx", (unsigned long long)h);
        hashes.insert(b);
        std::string k=ckey.substr(0, ckey.find(':'));
        if(samples.size()<6 && !samples.count(k)) samples[k]="{\"case\":\""+esc(ckey)+"\",\"params\":\""+esc(cpar)+"\"}";
    }
    void event(const std::string& name, long k=1) { events[name]+=k; }
    void violation(const std::string& key, const std::string& msg) {
        if(viol[key]++ == 0) {
            fprintf(out, "{\"t\":\"viol\",\"key\":\"%s\",\"msg\":\"%s\",\"params\":\"%s\"}\n", esc(key).c_str(), esc(msg).c_str(), esc(cpar).c_str());
            fflush(out);
        }
    }
    bool ok(bool c, const std::string& key, const std::string& msg="") { neval++; if(!c) violation(key, msg); return c; }
    bool close(long double a, long double b, const std::string& key, double rtol, double atol=0, const std::string& info="") {
        neval++;
        long double d=fabsl(a-b), tol=atol+rtol*std::max(fabsl(a), fabsl(b));
        bool good = d<=tol || a==b;
        std::string o=key.substr(0, key.find(':'));
        if(good && tol>0 && d==d) { double r=(double)(d/tol); double& m=maxrel[o]; if(r>m) m=r; }
        if(!good) {
            char buf[400]; snprintf(buf, 400, "%.17Lg vs %.17Lg, diff=%.3Lg tol=%.3Lg ", a, b, d, tol);
            violation(key, buf+info);
        }
        return good;
    }
    void done() {
        fprintf(out, "{\"t\":\"done\",\"neval\":%ld,\"ncase\":%ld,\"nskip\":%ld,\"hashes\":[", neval, ncase, nskip);
        bool first=true;
        for(auto& h: hashes) { fprintf(out, "%s\"%s\"", first?"":",", h.c_str()); first=false; }
        fprintf(out, "],\"viol\":{"); first=true;
        for(auto& v: viol) { fprintf(out, "%s\"%s\":%ld", first?"":",", esc(v.first).c_str(), v.second); first=false; }
        fprintf(out, "},\"maxrel\":{"); first=true;
        for(auto& v: maxrel) { fprintf(out, "%s\"%s\":%g", first?"":",", esc(v.first).c_str(), v.second); first=false; }
        fprintf(out, "},\"events\":{"); first=true;
        for(auto& v: events) { fprintf(out, "%s\"%s\":%ld", first?"":",", esc(v.first).c_str(), v.second); first=false; }
        fprintf(out, "},\"samples\":["); first=true;
        for(auto& v: samples) { fprintf(out, "%s%s", first?"":",", v.second.c_str()); first=false; }
        fprintf(out, "]}\n"); fflush(out);
        if(out!=stdout) fclose(out);
        out=NULL;
    }
};
struct Str { std::ostringstream s; Str() { s.precision(17); } template<class T> Str& operator<<(const T& t) { s<<t; return *this; } operator std::string() const { return s.str(); } };
// run one case; unexpected exceptions are violations, vh::Skip means "not in the domain"
template<class F> void run(Ctx& c, const std::string& key, const std::string& par, F f) {
    c.begin(key, par);
    try { f(); c.end(); }
    catch(Skip&) { c.nskip++; }
    catch(std::exception& e) { c.ok(false, key+":exception", e.what()); }
}
// second-order automatic differentiation in three variables, extended precision
struct Jet {
    long double v, g[3], h[3][3];
    Jet(long double x=0, int var=-1): v(x) { for(int i=0;i<3;i++) { g[i]=(i==var); for(int j=0;j<3;j++) h[i][j]=0; } }
};
inline Jet chain(const Jet& a, long double f, long double f1, long double f2) {
    Jet r; r.v=f;
    for(int i=0;i<3;i++) { r.g[i]=f1*a.g[i]; for(int j=0;j<3;j++) r.h[i][j]=f1*a.h[i][j]+f2*a.g[i]*a.g[j]; }
    return r;
}
inline Jet chain2(const Jet& a, const Jet& b, long double f, long double fa, long double fb, long double faa, long double fab, long double fbb) {
    Jet r; r.v=f;
    for(int i=0;i<3;i++) { r.g[i]=fa*a.g[i]+fb*b.g[i];
        for(int j=0;j<3;j++) r.h[i][j]=fa*a.h[i][j]+fb*b.h[i][j]+faa*a.g[i]*a.g[j]+fab*(a.g[i]*b.g[j]+b.g[i]*a.g[j])+fbb*b.g[i]*b.g[j]; }
    return r;
}
inline Jet operator+(const Jet& a, const Jet& b) { return chain2(a,b,a.v+b.v,1,1,0,0,0); }
inline Jet operator-(const Jet& a, const Jet& b) { return chain2(a,b,a.v-b.v,1,-1,0,0,0); }
inline Jet operator*(const Jet& a, const Jet& b) { return chain2(a,b,a.v*b.v,b.v,a.v,0,1,0); }
inline Jet operator/(const Jet& a, const Jet& b) { return chain2(a,b,a.v/b.v,1/b.v,-a.v/(b.v*b.v),0,-1/(b.v*b.v),2*a.v/(b.v*b.v*b.v)); }
inline Jet operator-(const Jet& a) { return Jet(0)-a; }
inline Jet sqrt(const Jet& a) { long double s=sqrtl(a.v); return chain(a,s,0.5L/s,-0.25L/(s*a.v)); }
inline Jet sin(const Jet& a) { return chain(a,sinl(a.v),cosl(a.v),-sinl(a.v)); }
inline Jet cos(const Jet& a) { return chain(a,cosl(a.v),-sinl(a.v),-cosl(a.v)); }
inline Jet exp(const Jet& a) { long double e=expl(a.v); return chain(a,e,e,e); }
inline Jet log(const Jet& a) { return chain(a,logl(a.v),1/a.v,-1/(a.v*a.v)); }
inline Jet pow(const Jet& a, long double p) { return chain(a,powl(a.v,p),p*powl(a.v,p-1),p*(p-1)*powl(a.v,p-2)); }
inline Jet atan2(const Jet& y, const Jet& x) {
    long double r2=x.v*x.v+y.v*y.v, fy=x.v/r2, fx=-y.v/r2;
    long double q=r2*r2, fyy=-2*x.v*y.v/q, fxx=2*x.v*y.v/q, fxy=(y.v*y.v-x.v*x.v)/q;
    return chain2(y,x,atan2l(y.v,x.v),fy,fx,fyy,fxy,fxx);
}
}
