// dynamic nearest-neighbour dictionary against std::set with the same history
#include "common.hpp"
#include <set>
#include <sdsl/nn_dict_dynamic.hpp>
#include <sdsl/util.hpp>
using namespace sdsl;
typedef std::set<uint64_t> S;
struct One {
    Drv& D; uint64_t n; nn_dict_dynamic x; S s; std::string d;
    One(Drv& D, uint64_t n): D(D), n(n), x(n) { d=STR("nn_dict_dynamic n="<<n<<" state="<<D.s<<":"); }
    void at(uint64_t i, const char* how) {
        const nn_dict_dynamic& cx=x; bool w=s.count(i); CHECK(cx[i]==w && (bool)x[i]==w, how<<" ["<<i<<"]="<<cx[i]<<" after "<<d);
        auto it=s.lower_bound(i); uint64_t nx=it==s.end()?n:*it; uint64_t g=cx.next(i); CHECK(g==nx, how<<" next("<<i<<")="<<g<<" instead of "<<nx<<" after "<<d);
        it=s.upper_bound(i); uint64_t pv=it==s.begin()?n:*--it; g=cx.prev(i); CHECK(g==pv, how<<" prev("<<i<<")="<<g<<" instead of "<<pv<<" after "<<d);
    }
    uint64_t pos() { switch (D.r(6)) { case 0: return D.r(n); case 1: { uint64_t b=(D.r(n)>>6)<<6; return std::min(n-1,b+(D.r(2)?63:0)); } case 2: { uint64_t b=(D.r(n)>>12)<<12; return std::min(n-1,b+(D.r(2)?4095:0)); } case 3: return D.r(2)?0:n-1;
        case 4: if (!s.empty()) { auto it=s.lower_bound(D.r(n)); if (it==s.end()) --it; return *it; } return D.r(n); default: { if (s.empty()) return D.r(n); auto it=s.lower_bound(D.r(n)); if (it==s.end()) --it; uint64_t o=*it+D.r(3)-1; return o<n?o:*it; } } }
    void look(const char* how) { CHECK(x.size()==n, how<<" size "<<x.size()<<" "<<d); for (int k=0;k<6;++k) at(pos(),how); if (n<200 && D.r(4)==0) for (uint64_t i=0;i<n;++i) at(i,how); }
    void run() {
        uint64_t ops=30+D.r(120); int bias=D.r(4); look("new");
        for (uint64_t t=0;t<ops;++t) {
            bool set = bias==0?D.r(2):bias==1?(t<ops/2?D.r(5)!=0:D.r(5)==0):D.r(4)!=0; uint64_t i=pos();
            if (D.r(12)==0) { uint64_t j=pos(); x[i]=x[j]; d+=STR(" ["<<i<<"]=["<<j<<"]"); bool w=s.count(j); if (w) s.insert(i); else s.erase(i); CHECK((x[i]==x[j]) && !(x[i]<x[j]), "reference comparison "<<d); }
            else { x[i]=set; d+=STR((set?" +":" -")<<i); if (set) s.insert(i); else s.erase(i); }
            at(i,"assign"); look("assign");
            if (D.r(80)==0) { util::set_zero_bits(x); s.clear(); d+=" cleared"; look("set_zero_bits"); }
            if (D.r(50)==0) { d+=" copied"; switch (D.r(5)) { case 0: { nn_dict_dynamic y(x); x=y; break; } case 1: { nn_dict_dynamic y(std::move(x)); x=std::move(y); break; } case 2: { nn_dict_dynamic y(1+D.r(5000)); y=x; x=std::move(y); break; }
                case 3: { nn_dict_dynamic y(1+D.r(300)); y.swap(x); nn_dict_dynamic z(y); y.swap(x); x=z; break; }
                default: { std::stringstream o; uint64_t w=x.serialize(o); CHECK(w==o.str().size(),"serialize reports "<<w<<" of "<<o.str().size()<<" "<<d); nn_dict_dynamic y(1+D.r(100)); y.load(o); x=y; } } look("copy"); }
        }
        while (!s.empty()) { uint64_t i=*s.begin(); if (D.r(2)) i=*s.rbegin(); x[i]=0; s.erase(i); d+=STR(" -"<<i); at(i,"clear"); look("clear"); }
        D.count(d);
    }
};
int main(int c, char** a) {
    Drv D(c,a); static const uint64_t N[]={1,2,63,64,65,127,128,129,4032,4095,4096,4097,4160,8192,262143,262144,262145,266304,300000,1000000};
    while (D.more()) { uint64_t n = D.r(3)==0 ? N[D.r(20)] : D.r(2) ? 1+D.r(400) : D.r(3) ? 1+D.r(20000) : 1+D.r(800000); if (D.r(300)==0) n=16777216+D.r(3)-1; One o(D,n); o.run(); }
    return D.done();
}
