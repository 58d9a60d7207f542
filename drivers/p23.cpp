// sorted stacks against a std::vector with the same history
#include "common.hpp"
#include <sdsl/sorted_stack_support.hpp>
#include <sdsl/sorted_int_stack.hpp>
#include <sdsl/sorted_multi_stack_support.hpp>
using namespace sdsl;
typedef std::vector<uint64_t> P;
template<class S> S reload(Drv& D, const S& s, const std::string& d) { std::stringstream o; uint64_t w=s.serialize(o); CHECK(w==o.str().size(),"serialize reports "<<w<<" of "<<o.str().size()<<" bytes "<<d); S t(0); t.load(o); return t; }
template<class S> S some(Drv& D, const S& s, const std::string& d) {
    switch (D.r(5)) { case 0: { S t(s); return t; } case 1: { S t(5); t=s; return t; } case 2: { S u(s); S t(std::move(u)); return t; } case 3: { S u(s); S t(7); t=std::move(u); return t; } default: return reload(D,s,d); }
}
static uint64_t step(Drv& D) { switch (D.r(6)) { case 0: return 1; case 1: return 1+D.r(3); case 2: return 62+D.r(4); case 3: return 126+D.r(4); case 4: return 1+D.r(400); default: return 1+D.r(20); } }
// kind 0: sorted_stack_support (values 0..n), 1: sorted_int_stack (any value), 2: sorted_multi_stack_support
template<class S, int K> struct push_ { static bool go(S& s, uint64_t x) { s.push(x); return true; } static bool pop(S& s, bool w) { s.pop(); return w; } };
template<class S> struct push_<S,2> { static bool go(S& s, uint64_t x) { return s.push(x); } static bool pop(S& s, bool) { return s.pop(); } };
template<class S, int K> void one(Drv& D, const char* nm) {
    uint64_t n = D.r(4)==0 ? 63*D.r(6)+D.r(3)-(D.r(2)&&0) : D.r(3)==0 ? D.r(70) : D.r(3000); S s(n); P v; std::string d=STR(nm<<" capacity "<<n<<" state="<<D.s<<":"); uint64_t ops=20+D.r(200); int bias=D.r(3);
    auto look=[&](const char* how){ CHECK(s.size()==v.size(), how<<" size()="<<s.size()<<" instead of "<<v.size()<<" after "<<d); CHECK(s.empty()==v.empty(), how<<" empty() after "<<d); if (!v.empty()) CHECK(s.top()==v.back(), how<<" top()="<<s.top()<<" instead of "<<v.back()<<" after "<<d); };
    look("new");
    for (uint64_t t=0;t<ops;++t) {
        bool phase = (t/40)%2 ? D.r(4)==0 : D.r(4)!=0; if (bias==0) phase=D.r(2);
        if (phase || v.empty()) {
            uint64_t x = v.empty() ? (D.r(2)?D.r(3):D.r(n+1)) : v.back()+step(D); if (K==2 && !v.empty() && D.r(2)) x=v.back();
            if (K==1 && D.r(8)==0) x=std::max(x,n+D.r(4)-(n?D.r(2):0)); if (K==1 && D.r(60)==0) x+=1ULL<<40;
            if (K!=1 && x>n) { if (D.r(2) || v.empty() || v.back()<n) x=n; if ((K==0 && !v.empty() && v.back()>=n) || x>n) continue; }
            if (K==1 && n-1<n && x>n+5 && D.r(4)) { if (v.empty()||v.back()<n) x=n; }
            if (K==1 && !v.empty() && x<=v.back()) continue;
            if (K==2 && v.size()>=n) continue;
            bool w = v.empty() || v.back()!=x; d+=STR(" +"<<x); bool g=push_<S,K>::go(s,x); v.push_back(x); if (K==2) CHECK(g==w,"push returned "<<g<<" after "<<d); look("push");
        } else {
            bool w = v.size()<2 || v[v.size()-2]!=v.back(); d+=" -"; bool g=push_<S,K>::pop(s,w); v.pop_back(); CHECK(g==w,"pop returned "<<g<<" after "<<d); look("pop");
        }
        if (D.r(60)==0) { S t=some(D,s,d); s=std::move(t); d+=" copied"; look("copy"); }
    }
    while (!v.empty()) { v.pop_back(); d+=" -"; push_<S,K>::pop(s,true); look("pop"); }
    if (K==2) CHECK((!push_<S,K>::pop(s,false)),"pop of an empty stack "<<d); else push_<S,K>::pop(s,true); look("pop of the empty stack");
    D.count(d);
}
int main(int c, char** a) {
    Drv D(c,a);
    while (D.more()) { one<sorted_stack_support,0>(D,"sorted_stack_support"); one<sorted_int_stack,1>(D,"sorted_int_stack"); one<sorted_multi_stack_support,2>(D,"sorted_multi_stack_support"); }
    return D.done();
}
