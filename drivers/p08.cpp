#include "bvfam.hpp"
template<uint32_t B> void one(Drv& D, const bit_vector& b, const std::string& d){ family<bit_vector_il<B>>(D,b,STR("bit_vector_il<"<<B<<">"),d); }
void huge(Drv& D, uint64_t n){ std::string d; uint64_t p=2+D.r(60); bit_vector b(n,0); uint64_t from=D.r(n), len=D.r(n); for(uint64_t i=0;i<n;++i) b[i]=(i>=from&&i<from+len)?D.r(p)!=0:D.r(p)==0; d=STR("bits n="<<n<<" dense "<<from<<"+"<<len<<" 1/"<<p<<" state="<<D.s); D.count(d);
    switch(D.r(4)){ case 0: one<64>(D,b,d); break; case 1: one<256>(D,b,d); break; case 2: one<512>(D,b,d); break; default: one<2048>(D,b,d); } }
int main(int c,char**a){
    Drv D(c,a); huge(D,(1<<22)+D.r(1<<20)); huge(D,(1<<22)+D.r(1<<18));
    for(uint64_t k=0;D.more();++k){
        std::string d; uint64_t n=rlen(D); bit_vector b=rbits(D,n,d); D.count(d);
        one<64>(D,b,d); one<128>(D,b,d); one<256>(D,b,d); one<512>(D,b,d); one<1024>(D,b,d); one<4096>(D,b,d);
        if(k%400==399) huge(D,(1<<22)+D.r(1<<20));
    }
    return D.done(); }
