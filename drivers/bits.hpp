// random bit vectors
#pragma once
#include "common.hpp"
#include <sdsl/int_vector.hpp>
inline uint64_t rlen(Drv& D, uint64_t big=6000){
    switch(D.r(8)){ case 0: return D.r(66); case 1: { static const uint64_t S[]={64,128,192,256,320,384,512,1024,2048,4096,63*4,63*15,127*8}; uint64_t x=S[D.r(13)]*(1+D.r(3)); int64_t d=(int64_t)D.r(5)-2; return x+d; }
        case 2: return 64*D.r(40); case 3: return 512*D.r(10)+D.r(3); case 4: return 2048*D.r(3)+D.r(66); default: return D.r(big); } }
inline sdsl::bit_vector rbits(Drv& D, uint64_t n, std::string& what){
    sdsl::bit_vector b(n,0); int k=D.r(9); what=STR("bits n="<<n<<" kind="<<k<<" state="<<D.s);
    uint64_t p=2+D.r(300);
    switch(k){
        case 0: break; case 1: sdsl::util::set_to_value(b,1); break;
        case 2: for(uint64_t i=0;i<n;++i) b[i]=D.r(2); break;
        case 3: for(uint64_t i=0;i<n;++i) b[i]=D.r(p)==0; break;
        case 4: for(uint64_t i=0;i<n;++i) b[i]=D.r(p)!=0; break;
        case 5: { bool v=D.r(2); for(uint64_t i=0;i<n;) { uint64_t l=1+D.r(p*3); for(uint64_t j=0;j<l&&i<n;++j,++i) b[i]=v; v=!v; } break; }
        case 6: for(uint64_t i=0;i<n;++i) b[i]=(i%p)==0; break;
        case 7: for(uint64_t i=0;i+64<=n;i+=64) b.set_int(i,D.word(),64); break;
        default: for(uint64_t i=0;i<n;++i) b[i]=i&1; }
    return b; }
