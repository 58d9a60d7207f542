#include "bvfam.hpp"
#include <sdsl/hyb_vector.hpp>
// hyb_vector has no select support
template<class BV> void hyb(Drv& D, const bit_vector& b, const std::string& nm, const std::string& d){
    typedef typename BV::rank_1_type R1; typedef typename BV::rank_0_type R0; Truth t(b); std::string q=nm+" "+d; BV v(b);
    auto F=[&](const BV& w, const Truth& t, const std::string& how){ std::string z=q+how; content(D,t,w,z,true); R1 r1(&w); R0 r0(&w); ranks<R1,BV>(D,t,r1,1,z); ranks<R0,BV>(D,t,r0,0,z);
        switch(D.r(4)){ case 0: { R1 a(r1); R0 c(r0); ranks<R1,BV>(D,t,a,1,z+" copied"); ranks<R0,BV>(D,t,c,0,z+" copied"); break; } case 1: { R1 a; R0 c; a=r1; c=r0; ranks<R1,BV>(D,t,a,1,z+" assigned"); ranks<R0,BV>(D,t,c,0,z+" assigned"); break; }
            case 2: { std::stringstream s; r1.serialize(s,nullptr,""); R1 a; a.load(s,&w); ranks<R1,BV>(D,t,a,1,z+" loaded"); break; } default: break; } };
    F(v,t,"");
    bit_vector ob(D.r(1700),1); for(uint64_t i=0;i<ob.size();++i) ob[i]=D.r(2);
    switch(D.r(8)){
        case 0: { BV c(v); F(c,t," copied"); break; } case 1: { BV o(ob); o=v; F(o,t," copy-assigned"); break; } case 2: { BV c(v); BV m(std::move(c)); F(m,t," moved"); break; }
        case 3: { BV c(v), o(ob); o=std::move(c); F(o,t," move-assigned"); break; } case 4: { BV c(v), o(ob); o.swap(c); F(o,t," swapped"); Truth t2(ob); F(c,t2," other side of swap"); break; }
        case 5: case 6: { std::stringstream s; uint64_t w=v.serialize(s,nullptr,""); CHECK(w==s.str().size(),q<<" serialize()"); BV l(ob); l.load(s); CHECK((uint64_t)s.tellg()==w,q<<" load() consumed"); F(l,t," loaded"); break; }
        default: { BV c(v); c=c; F(c,t," self-assigned"); } } }
// blocks of 256 bits of every kind: uniform, few ones, few zeros, few runs, plain; each may be the last, partial one
bit_vector blocks(Drv& D, uint64_t n, std::string& d){ bit_vector b(n,0); d=STR("blocks n="<<n<<" state="<<D.s); int only=D.r(9);
    for(uint64_t s=0;s<n;s+=256){ uint64_t e=std::min(n,s+256), L=256; int k=only<7?only:(int)D.r(7); auto set=[&](uint64_t i,bool v){ if(i<e) b[i]=v; };
        switch(k){ case 0: break; case 1: for(uint64_t i=s;i<e;++i) b[i]=1; break;
            case 2: { uint64_t m=1+D.r(40); for(uint64_t i=0;i<m;++i) set(s+D.r(L),1); break; } case 3: { for(uint64_t i=s;i<e;++i) b[i]=1; uint64_t m=1+D.r(40); for(uint64_t i=0;i<m;++i) set(s+D.r(L),0); break; }
            case 4: { uint64_t m=2+D.r(40); bool v=D.r(2); uint64_t i=s; for(uint64_t j=0;j<m&&i<e;++j){ uint64_t l=1+D.r(2*L/m); while(l--&&i<e) b[i++]=v; v=!v; } break; }
            case 5: for(uint64_t i=s;i<e;++i) b[i]=D.r(2); break; default: { uint64_t x=D.r(L+1); bool v=D.r(2); for(uint64_t i=s;i<e;++i) b[i]=(i-s<x)?v:!v; } } }
    return b; }
int main(int c,char**a){
    Drv D(c,a);
    for(uint64_t k=0;D.more();++k){
        std::string d; uint64_t n=rlen(D,6000); bit_vector b; if(D.r(3)) { if(D.r(3)==0) n=256*D.r(80)+D.r(3); b=blocks(D,n,d); } else b=rbits(D,n,d); D.count(d);
        hyb<hyb_vector<16>>(D,b,"hyb_vector<16>",d); hyb<hyb_vector<8>>(D,b,"hyb_vector<8>",d); if(D.r(3)==0){ hyb<hyb_vector<1>>(D,b,"hyb_vector<1>",d); hyb<hyb_vector<64>>(D,b,"hyb_vector<64>",d); }
    }
    return D.done(); }
