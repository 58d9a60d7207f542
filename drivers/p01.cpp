#include "common.hpp"
#include <sdsl/bits.hpp>
using namespace sdsl;
static int bitat(uint64_t x,int i){ return (x>>i)&1; }
int main(int c,char**v){
    Drv D(c,v);
    while (D.more()) {
        for (int it=0; it<200; ++it) {
            uint64_t x=D.word(); std::string d=STR("x=0x"<<std::hex<<x); D.count(d);
            int n=0,h=0,l=-1; for(int i=0;i<64;++i) if(bitat(x,i)){++n;h=i;if(l<0)l=i;} if(l<0)l=0;
            CHECK((int)bits::cnt(x)==n, "cnt "<<d<<" got "<<bits::cnt(x)<<" want "<<n);
            CHECK((int)bits::hi(x)==h, "hi "<<d<<" got "<<bits::hi(x)<<" want "<<h);
            CHECK((int)bits::lo(x)==l, "lo "<<d<<" got "<<bits::lo(x)<<" want "<<l);
            uint64_t rv=0; for(int i=0;i<64;++i) if(bitat(x,i)) rv|=1ULL<<(63-i);
            CHECK(bits::rev(x)==rv, "rev "<<d);
            int k=0; for(int i=0;i<64;++i) if(bitat(x,i)){ ++k; CHECK((int)bits::sel(x,k)==i,"sel "<<d<<" i="<<std::dec<<k<<" got "<<bits::sel(x,k)<<" want "<<i); CHECK((int)bits::_sel(x,k)==i,"_sel "<<d<<" i="<<std::dec<<k<<" got "<<bits::_sel(x,k)); }
            int n32=0; for(int i=0;i<32;++i) n32+=bitat(x,i);
            CHECK((int)bits::cnt32((uint32_t)x)==n32,"cnt32 "<<d<<" got "<<bits::cnt32((uint32_t)x)<<" want "<<n32);
            for (uint64_t cy=0; cy<2; ++cy) {
                uint64_t m10=0,m01=0,m11=0; int s=cy, p=cy;
                for(int i=0;i<64;++i){ int b=bitat(x,i); if(p&&!b)m10|=1ULL<<i; if(!p&&b)m01|=1ULL<<i; if(b&&s)m11|=1ULL<<i; s=b&&!s; p=b; }
                CHECK(bits::map10(x,cy)==m10,"map10 "<<d<<" c="<<cy); CHECK(bits::map01(x,cy)==m01,"map01 "<<d<<" c="<<cy);
                uint64_t cc=cy; CHECK((int)bits::cnt10(x,cc)==__builtin_popcountll(m10),"cnt10 "<<d<<" c="<<cy); CHECK(cc==x>>63,"cnt10 carry "<<d);
                cc=cy; CHECK((int)bits::cnt01(x,cc)==__builtin_popcountll(m01),"cnt01 "<<d<<" c="<<cy); CHECK(cc==x>>63,"cnt01 carry "<<d);
                cc=cy; CHECK((int)bits::cnt11(x,cc)==__builtin_popcountll(m11),"cnt11 "<<d<<" c="<<cy); CHECK(cc==(uint64_t)s,"cnt11 carry out "<<d<<" c="<<cy);
                if(!cy){ CHECK((int)bits::cnt11(x)==__builtin_popcountll(m11),"cnt11 "<<d); int hh=0; for(int i=0;i<64;++i) if(bitat(m11,i)) hh=i; CHECK((int)bits::hi11(x)==hh,"hi11 "<<d<<" got "<<bits::hi11(x)<<" want "<<hh); }
                int q=0; for(int i=0;i<64;++i) if(bitat(m11,i)){ ++q; CHECK((int)bits::sel11(x,q,cy)==i,"sel11 "<<d<<" i="<<q<<" c="<<cy<<" got "<<bits::sel11(x,q,cy)<<" want "<<i);} }
            CHECK(bits::map10(x)==bits::map10(x,0)&&bits::map01(x)==bits::map01(x,1),"default carries "<<d);
        }
    }
    return D.done();
}
