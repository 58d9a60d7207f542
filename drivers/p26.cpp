// LOUDS tree against explicit parent/children lists
#include "common.hpp"
#include <sdsl/select_support.hpp>
#include <sdsl/rrr_vector.hpp>
#include <sdsl/louds_tree.hpp>
using namespace sdsl;
struct Tree { std::vector<std::vector<uint64_t>> ch; std::vector<uint64_t> par; uint64_t size(uint64_t) const { return ch.size(); } };
struct It { const Tree* t; uint64_t i, q; uint64_t operator*() const { return i; } uint64_t size() const { return q; } It& operator++() { q = q-1+t->ch[i].size(); ++i; return *this; } bool operator!=(const It& o) const { return i!=o.i; } bool operator==(const It& o) const { return i==o.i; } };
template<class T> void same(Drv& D, const T& l, const Tree& t, const std::string& d, const char* how) {
    uint64_t n=t.ch.size(); CHECK(l.nodes()==n, how<<" nodes()="<<l.nodes()<<" instead of "<<n<<" "<<d); CHECK(l.bv.size()==2*n-1, how<<" sequence length "<<l.bv.size()<<" "<<d);
    std::vector<louds_node> nd; nd.reserve(n); nd.push_back(l.root()); CHECK(l.id(nd[0])==0 && l.parent(l.root())==l.root(), how<<" root "<<d);
    uint64_t next=1;
    for (uint64_t v=0; v<n; ++v) {
        CHECK(v<nd.size(), how<<" node "<<v<<" not reachable "<<d); const louds_node& x=nd[v]; uint64_t g=t.ch[v].size();
        CHECK(l.id(x)==v, how<<" id of node "<<v<<" is "<<l.id(x)<<" "<<d); CHECK(l.is_leaf(x)==(g==0), how<<" is_leaf of "<<v<<" "<<d); CHECK(l.degree(x)==g, how<<" degree of "<<v<<" is "<<l.degree(x)<<" instead of "<<g<<" "<<d);
        for (uint64_t i=1;i<=g;++i) { louds_node c=l.child(x,i); CHECK(l.id(c)==next, how<<" child "<<i<<" of "<<v<<" has id "<<l.id(c)<<" instead of "<<next<<" "<<d); ++next; louds_node p=l.parent(c); CHECK(p==x && !(p!=x), how<<" parent of child "<<i<<" of "<<v<<" is "<<l.id(p)<<" "<<d); CHECK(c!=x && !(c==x), how<<" child equals its parent "<<d); nd.push_back(louds_node(c.nr,c.pos)); }
    }
    CHECK(next==n, how<<" nodes missing "<<d);
}
template<class T> void one(Drv& D, const Tree& t, const std::string& d) {
    It b{&t,0,1}, e{&t,t.ch.size(),0}; T l(t,b,e); same(D,l,t,d,"constructed");
    switch (D.r(4)) { case 0: { T c(l); same(D,c,t,d,"copied"); break; } case 1: { T c(std::move(l)); same(D,c,t,d,"moved"); break; }
        default: { Tree s; s.ch={{1},{}}; It sb{&s,0,1}, se{&s,2,0}; T c(s,sb,se); if (D.r(2)) c=l; else c=std::move(l); same(D,c,t,d,"assigned"); } }
}
int main(int c, char** a) {
    Drv D(c,a);
    while (D.more()) {
        Tree t; uint64_t n=D.r(12)==0?1+D.r(3):D.r(10)==0?1000+D.r(9000):1+D.r(120); int kind=D.r(5); t.ch.resize(1); std::string d=STR("tree n<="<<n<<" kind="<<kind<<" state="<<D.s<<" degrees:");
        for (uint64_t v=0; v<t.ch.size(); ++v) {
            uint64_t left=n-t.ch.size(), g = kind==0?D.r(4):kind==1?1:kind==2?(v==0?left:0):kind==3?2:(D.r(6)==0?D.r(130):D.r(2)); if (g>left) g=left; if (v+1==t.ch.size() && g==0 && left) g=1;
            for (uint64_t i=0;i<g;++i) { uint64_t id=t.ch.size(); t.ch.push_back({}); t.ch[v].push_back(id); } if (v<200) d+=STR(" "<<g);
        }
        D.count(d); one<louds_tree<>>(D,t,d); one<louds_tree<rrr_vector<>>>(D,t,"rrr "+d); one<louds_tree<bit_vector,select_support_scan<1>,select_support_scan<0>>>(D,t,"scan "+d);
    }
    return D.done();
}
