#include "common.hpp"
#include <sdsl/bits.hpp>
using namespace sdsl;
typedef std::vector<uint64_t> V;
static int bt(const V&a,uint64_t p){ return (a[p>>6]>>(p&63))&1; }
static std::string dump(const V&a){ std::ostringstream o; o<<std::hex; for(size_t i=0;i<a.size()&&i<8;++i) o<<(i?",":"")<<"0x"<<a[i]; return o.str(); }
int main(int c,char**v){
    Drv D(c,v);
    while (D.more()) {
        for (int it=0; it<50; ++it) {
            // exact field: buffer holds only the words with bits of the field
            uint8_t o=D.r(64), l=1+D.r(64); if(D.r(4)==0) l=64; if(D.r(6)==0) o=(64-l)&63;
            int n=(o+l>64)?2:1; V a(n); for(auto&w:a) w=D.word(); uint64_t x=D.word();
            std::string d=STR("words="<<dump(a)<<" offset="<<(int)o<<" len="<<(int)l<<" x=0x"<<std::hex<<x); D.count(d);
            uint64_t f=0; for(int i=0;i<l;++i) f|=(uint64_t)bt(a,o+i)<<i;
            CHECK(bits::read_int(a.data(),o,l)==f,"read_int "<<d<<" got "<<bits::read_int(a.data(),o,l)<<" want "<<f);
            { const uint64_t*p=a.data(); uint8_t oo=o; uint64_t g=bits::read_int_and_move(p,oo,l); CHECK(g==f,"read_int_and_move "<<d<<" got "<<g);
              CHECK((uint64_t)(p-a.data())*64+oo==(uint64_t)o+l&&oo<64,"read_int_and_move position "<<d); }
            V w(a); for(int i=0;i<l;++i){ w[(o+i)>>6]&=~(1ULL<<((o+i)&63)); w[(o+i)>>6]|=((x>>i)&1)<<((o+i)&63); }
            V b(a); bits::write_int(b.data(),x,o,l); CHECK(b==w,"write_int "<<d<<" result "<<dump(b)<<" want "<<dump(w));
            b=a; { uint64_t*p=b.data(); uint8_t oo=o; bits::write_int_and_move(p,x,oo,l); CHECK(b==w,"write_int_and_move "<<d<<" result "<<dump(b)<<" want "<<dump(w));
              CHECK((uint64_t)(p-b.data())*64+oo==(uint64_t)o+l&&oo<64,"write_int_and_move position "<<d); }
            { V z(4); const uint64_t*p=z.data()+2; uint8_t oo=o; uint8_t ll=D.r(65); bits::move_right(p,oo,ll); CHECK((p-z.data()-2)*64+(int)oo==(int)o+ll&&oo<64,"move_right offset="<<(int)o<<" len="<<(int)ll);
              p=z.data()+2; oo=o; bits::move_left(p,oo,ll); CHECK((p-z.data()-2)*64+(int)oo==(int)o-(int)ll&&oo<64,"move_left offset="<<(int)o<<" len="<<(int)ll); }
            // unary / next: zero run up to a one at P, nothing allocated behind
            uint64_t P=o+(D.r(3)?D.r(70):D.r(D.r(8)?64*30:64*700)); V u((P>>6)+1); u[0]=o?D.word()&((1ULL<<o)-1):0; for(uint64_t q=P;q<(P|63)+1;++q) if(q==P||D.r(2)) u[q>>6]|=1ULL<<(q&63);
            std::string e=STR("offset="<<(int)o<<" one at "<<P<<" words="<<dump(u));
            CHECK(bits::read_unary(u.data(),o)==P-o,"read_unary "<<e<<" got "<<bits::read_unary(u.data(),o));
            { const uint64_t*p=u.data(); uint8_t oo=o; uint64_t g=bits::read_unary_and_move(p,oo); CHECK(g==P-o,"read_unary_and_move "<<e<<" got "<<g);
              CHECK((uint64_t)(p-u.data())*64+oo==P+1&&oo<64,"read_unary_and_move position "<<e); }
            CHECK(bits::next(u.data(),o)==P,"next "<<e<<" got "<<bits::next(u.data(),o));
            uint64_t Q=D.r(128), I=Q+(D.r(3)?D.r(70):D.r(D.r(8)?64*30:64*700)); V t((I>>6)+1); for(uint64_t q=0;q<=Q;++q) if(q==Q||D.r(2)) t[q>>6]|=1ULL<<(q&63); for(uint64_t q=I+1;q<=(I|63);++q) if(D.r(2)) t[q>>6]|=1ULL<<(q&63);
            CHECK(bits::prev(t.data(),I)==Q,"prev idx="<<I<<" one at "<<Q<<" words="<<dump(t)<<" got "<<bits::prev(t.data(),I));
        }
    }
    return D.done();
}
