// range minimum/maximum queries against a scan for the leftmost extreme
#include "common.hpp"
#include <algorithm>
#include <sdsl/int_vector.hpp>
#include <sdsl/rmq_support.hpp>
#include <sdsl/bp_support.hpp>
#include <sdsl/suffix_trees.hpp>
using namespace sdsl;
typedef std::vector<uint64_t> V;
struct Ref { bool mn; std::vector<std::vector<uint32_t>> t; const V& v;
    bool le(uint64_t a, uint64_t b) const { return mn ? a<=b : a>=b; }
    Ref(const V& v, bool mn): mn(mn), v(v) {
        t.emplace_back(v.size()); for (size_t i=0;i<v.size();++i) t[0][i]=i;
        for (size_t k=1;(1ULL<<k)<=v.size();++k) { t.emplace_back(v.size()-(1ULL<<k)+1); for (size_t i=0;i<t[k].size();++i) { uint32_t a=t[k-1][i], b=t[k-1][i+(1ULL<<(k-1))]; t[k][i]=le(v[a],v[b])?a:b; } } }
    uint64_t q(uint64_t l, uint64_t r) const { int k=63-__builtin_clzll(r-l+1); uint32_t a=t[k][l], b=t[k][r-(1ULL<<k)+1]; return le(v[a],v[b])?a:b; } };
template<class S> void same(Drv& D, const S& s, const Ref& f, const std::string& d, const char* how) {
    uint64_t n=f.v.size(); CHECK(s.size()==n, how<<" size "<<s.size()<<" instead of "<<n<<" of "<<d); if (!n) return;
    auto one=[&](uint64_t l, uint64_t r){ uint64_t g=s(l,r), w=f.q(l,r); CHECK(g==w, how<<": query ["<<l<<","<<r<<"] gives "<<g<<" instead of "<<w<<" for "<<d); };
    if (n<=40) { for (uint64_t l=0;l<n;++l) for (uint64_t r=l;r<n;++r) one(l,r); }
    else for (int i=0;i<400;++i) { uint64_t l=D.r(n), r; switch (D.r(5)) { case 0: r=n-1; break; case 1: r=std::min(n-1,l+D.r(70)); break; case 2: { uint64_t k=1ULL<<D.r(14); r=std::min(n-1,l+k-D.r(2)); break; } case 3: r=l+D.r(n-l); l=D.r(3)?l:0; break; default: r=l+D.r(n-l); } one(l,r); }
}
template<class S, class C> void var(Drv& D, S& s, const Ref& f, const C& v, const std::string& d) { // sparse table refers to the vector
    switch (D.r(6)) {
        case 0: { S c(s); same(D,c,f,d,"copied"); break; } case 1: { S c; c=s; same(D,c,f,d,"assigned"); break; }
        case 2: { S c(std::move(s)); same(D,c,f,d,"moved"); break; } case 3: { S c; c=std::move(s); same(D,c,f,d,"move assigned"); break; }
        case 4: { std::stringstream o; uint64_t w=s.serialize(o); CHECK(w==o.str().size(), "serialize reports "<<w<<" bytes, wrote "<<o.str().size()<<" "<<d); S c; c.load(o,&v); same(D,c,f,d,"loaded"); break; }
        default: { S c(&v); C w(1,0); S c2(&w); c2.swap(c); c2.set_vector(&v); same(D,c2,f,d,"swapped"); } }
}
template<class S, class C> void var2(Drv& D, S& s, const Ref& f, const C& v, const std::string& d) {
    switch (D.r(6)) {
        case 0: { S c(s); { S k(s); } same(D,c,f,d,"copied"); same(D,s,f,d,"copied from"); break; } case 1: { C w(3,1); S c(&w); c=s; same(D,c,f,d,"assigned"); break; }
        case 2: { S c(std::move(s)); same(D,c,f,d,"moved"); break; } case 3: { S c; c=std::move(s); same(D,c,f,d,"move assigned"); break; }
        case 4: { std::stringstream o; uint64_t w=s.serialize(o); CHECK(w==o.str().size(), "serialize reports "<<w<<" bytes, wrote "<<o.str().size()<<" "<<d); S c; c.load(o); same(D,c,f,d,"loaded"); break; }
        default: { C w(5,1); V w2(5,1); S c(&w); c.swap(s); same(D,c,f,d,"swapped"); same(D,s,Ref(w2,f.mn),"of five ones","swapped with "); } }
}
template<class S> void t2(Drv& D, const int_vector<>& v, const Ref& f, const std::string& d) { S s(&v); same(D,s,f,d,"constructed"); if (v.size()) var2(D,s,f,v,d); }
template<class S, class C> void t1(Drv& D, const C& v, const Ref& f, const std::string& d) { S s(&v); same(D,s,f,d,"constructed"); var(D,s,f,v,d); }
int main(int c, char** a) {
    Drv D(c,a);
    while (D.more()) {
        uint64_t n = D.r(6)==0 ? D.r(6) : D.r(15)==0 ? 1000+D.r(9000) : 1+D.r(D.r(3)?40:700); V p(n); int kind=D.r(9); uint64_t s=1+D.r(4);
        for (uint64_t i=0;i<n;++i) switch (kind) { case 0: p[i]=D.r(2); break; case 1: p[i]=D.r(1+n); break; case 2: p[i]=i/s; break; case 3: p[i]=(n-i)/s; break; case 4: p[i]=7; break;
            case 5: p[i]=D.r(30)?9:D.r(20); break; case 6: p[i]=i&1?n-i:i; break; case 7: p[i]=i<n/2?i:n-i; break; default: p[i]=i? std::max<int64_t>(0,(int64_t)p[i-1]+(int64_t)D.r(3)-1):50; }
        bool big=D.r(6)==0; if (big) for (auto& x: p) x=x%2?~0ULL-x/2:x;
        uint64_t mx=0; for (auto x: p) mx=std::max(mx,x);
        uint8_t w=D.r(2)?64:bits::hi(mx?mx:1)+1; int_vector<> v(n,0,w); for (uint64_t i=0;i<n;++i) v[i]=p[i];
        std::string d=STR("vector kind="<<kind<<" n="<<n<<" width="<<(int)w<<" state="<<D.s<<" :"); for (uint64_t i=0;i<n&&i<100;++i) d+=STR(" "<<p[i]);
        printf("CASE %s\n", d.substr(0,200).c_str()); D.count(d); Ref mn(p,true), mx_(p,false);
        t1<rmq_support_sparse_table<>>(D,v,mn,"sparse table min "+d); t1<rmq_support_sparse_table<int_vector<>,false>>(D,v,mx_,"sparse table max "+d);
        if (n<200) { std::vector<uint64_t> sv(p); t1<rmq_support_sparse_table<std::vector<uint64_t>>>(D,sv,mn,"sparse table min over std::vector "+d); std::vector<int64_t> iv(p.begin(),p.end()); if (mx<(1ULL<<62)) { for (auto& x: iv) x-=5; t1<rmq_support_sparse_table<std::vector<int64_t>,false>>(D,iv,mx_,"sparse table max over signed "+d); } }
        if (big) continue;      // the super-cartesian tree uses values as int64
        t2<rmq_succinct_sct<>>(D,v,mn,"sct min "+d); t2<rmq_succinct_sct<false>>(D,v,mx_,"sct max "+d);
        t2<rmq_succinct_sada<>>(D,v,mn,"sada min "+d); t2<rmq_succinct_sada<false>>(D,v,mx_,"sada max "+d);
        switch (D.r(4)) { case 0: t2<rmq_succinct_sct<true,bp_support_g<>>>(D,v,mn,"sct<bp_support_g> min "+d); break; case 1: t2<rmq_succinct_sct<false,bp_support_gg<>>>(D,v,mx_,"sct<bp_support_gg> max "+d); break;
            case 2: t2<rmq_succinct_sct<true,bp_support_sada<64,4>>>(D,v,mn,"sct<bp_support_sada<64,4>> min "+d); break; default: t2<rmq_succinct_sada<true,bp_support_sada<128,8>>>(D,v,mn,"sada<128,8> min "+d); }
    }
    return D.done();
}
