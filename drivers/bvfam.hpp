// one compressed bit vector type against the plain bit sequence: access, get_int, rank, select, copies, storage
#pragma once
#include "bits.hpp"
#include <sdsl/bit_vectors.hpp>
using namespace sdsl;
struct Truth { uint64_t n; std::vector<uint64_t> one, zero; const bit_vector* b;
    Truth(const bit_vector& v): n(v.size()), b(&v) { for(uint64_t i=0;i<n;++i) (v[i]?one:zero).push_back(i); }
    uint64_t get(uint64_t i, uint64_t l) const { uint64_t x=0; for(uint64_t j=0;j<l;++j) x|=(uint64_t)(*b)[i+j]<<j; return x; } };
template<class R, class BV> void ranks(Drv& D, const Truth& t, const R& r, bool bit, const std::string& q){
    uint64_t c=0; bool all=t.n<20000; CHECK(r.size()==t.n,q<<" rank size()");
    auto at=[&](uint64_t i){ const auto& V=bit?t.one:t.zero; uint64_t w=std::lower_bound(V.begin(),V.end(),i)-V.begin(); uint64_t g=r.rank(i); CHECK(g==w,q<<" rank_"<<bit<<"("<<i<<")="<<g<<" want "<<w); };
    if(all) for(uint64_t i=0;i<=t.n;++i){ uint64_t g=r.rank(i); CHECK(g==c,q<<" rank_"<<bit<<"("<<i<<")="<<g<<" want "<<c); if((i&31)==0) CHECK(r(i)==c,q<<" rank operator()"); if(i<t.n&&(*t.b)[i]==bit) ++c; }
    else { for(int k=0;k<3000;++k) at(D.r(t.n+1)); at(0); at(t.n); at(t.n-1); } }
template<class S> void selects(Drv& D, const Truth& t, const S& s, bool bit, const std::string& q){
    const auto& V=bit?t.one:t.zero; CHECK(s.size()==t.n,q<<" select size()");
    auto at=[&](uint64_t k){ uint64_t g=s.select(k+1); CHECK(g==V[k],q<<" select_"<<bit<<"("<<k+1<<")="<<g<<" want "<<V[k]); };
    if(V.size()<20000) for(uint64_t k=0;k<V.size();++k){ at(k); if((k&31)==0) CHECK(s(k+1)==V[k],q<<" select operator()"); }
    else { for(int k=0;k<3000;++k) at(D.r(V.size())); at(0); at(V.size()-1); } }
template<class BV> void content(Drv& D, const Truth& t, const BV& v, const std::string& q, bool gi){
    CHECK(v.size()==t.n,q<<" size()="<<v.size()<<" want "<<t.n);
    if(t.n<20000) for(uint64_t i=0;i<t.n;++i) { bool g=v[i]; CHECK(g==(*t.b)[i],q<<" ["<<i<<"]="<<g); }
    else for(int k=0;k<3000;++k){ uint64_t i=D.r(t.n); bool g=v[i]; CHECK(g==(*t.b)[i],q<<" ["<<i<<"]="<<g); }
    if(t.n<20000){ uint64_t i=0; for(auto it=v.begin();it!=v.end();++it,++i) CHECK(i<t.n&&(bool)*it==(*t.b)[i],q<<" iterator at "<<i); CHECK(i==t.n,q<<" iterator end"); }
    if(gi&&t.n) for(uint64_t k=0,m=std::min<uint64_t>(400,t.n*2);k<m;++k){ uint64_t l=1+D.r(std::min<uint64_t>(64,t.n)), i=D.r(3)?D.r(t.n-l+1):t.n-l; if(D.r(3)==0){ i=(D.r(t.n)>>5)<<5; if(i+l>t.n) continue; } uint64_t g=v.get_int(i,l); CHECK(g==t.get(i,l),q<<" get_int("<<i<<","<<l<<")="<<g<<" want "<<t.get(i,l)); } }
template<class BV, class R1, class R0, class S1, class S0> void full(Drv& D, const Truth& t, const BV& v, const std::string& q, bool gi=true){
    content(D,t,v,q,gi);
    R1 r1(&v); R0 r0(&v); S1 s1(&v); S0 s0(&v);
    ranks<R1,BV>(D,t,r1,1,q); ranks<R0,BV>(D,t,r0,0,q); selects(D,t,s1,1,q); selects(D,t,s0,0,q);
    switch(D.r(6)){
        case 0: { R1 a(r1); S1 b(s1); R0 c(r0); S0 d(s0); ranks<R1,BV>(D,t,a,1,q+" copied"); selects(D,t,b,1,q+" copied"); ranks<R0,BV>(D,t,c,0,q+" copied"); selects(D,t,d,0,q+" copied"); break; }
        case 1: { R1 a; S1 b; R0 c; S0 d; a=r1; b=s1; c=r0; d=s0; ranks<R1,BV>(D,t,a,1,q+" assigned"); selects(D,t,b,1,q+" assigned"); ranks<R0,BV>(D,t,c,0,q+" assigned"); selects(D,t,d,0,q+" assigned"); break; }
        case 2: { R1 a; S1 b; R0 c; S0 d; a.set_vector(&v); b.set_vector(&v); c.set_vector(&v); d.set_vector(&v); (void)a; break; }
        case 3: { std::stringstream s; r1.serialize(s,nullptr,""); s1.serialize(s,nullptr,""); r0.serialize(s,nullptr,""); s0.serialize(s,nullptr,""); R1 a; S1 b; R0 c; S0 d; a.load(s,&v); b.load(s,&v); c.load(s,&v); d.load(s,&v); ranks<R1,BV>(D,t,a,1,q+" loaded"); selects(D,t,b,1,q+" loaded"); ranks<R0,BV>(D,t,c,0,q+" loaded"); selects(D,t,d,0,q+" loaded"); break; }
        default: break; } }
template<class BV, class R1=typename BV::rank_1_type, class R0=typename BV::rank_0_type, class S1=typename BV::select_1_type, class S0=typename BV::select_0_type>
void family(Drv& D, const bit_vector& b, const std::string& name, const std::string& d, bool gi=true){
    Truth t(b); std::string q=name+" "+d; BV v(b);
    full<BV,R1,R0,S1,S0>(D,t,v,q,gi);
    auto F=[&](const BV& w, const char* how){ full<BV,R1,R0,S1,S0>(D,t,w,q+" "+how,gi); };
    bit_vector ob(D.r(700),1); for(uint64_t i=0;i<ob.size();++i) ob[i]=D.r(2);
    switch(D.r(8)){
        case 0: { BV c(v); F(c,"copied"); break; }
        case 1: { BV o(ob); o=v; F(o,"copy-assigned"); F(v,"copy source"); break; }
        case 2: { BV c(v); BV m(std::move(c)); F(m,"moved"); break; }
        case 3: { BV c(v), o(ob); o=std::move(c); F(o,"move-assigned"); break; }
        case 4: { BV c(v), o(ob); o.swap(c); F(o,"swapped"); Truth t2(ob); full<BV,R1,R0,S1,S0>(D,t2,c,q+" other side of swap",gi); o.swap(o); F(o,"self-swapped"); break; }
        case 5: case 6: { std::stringstream s; uint64_t w=v.serialize(s,nullptr,""); CHECK(w==s.str().size(),q<<" serialize() returned "<<w<<" wrote "<<s.str().size()); CHECK(size_in_bytes(v)==w,q<<" size_in_bytes"); BV l(ob); l.load(s); CHECK((uint64_t)s.tellg()==w,q<<" load() consumed "<<s.tellg()<<" of "<<w); F(l,"loaded"); break; }
        default: { BV c(v); c=c; F(c,"self-assigned"); } } }
