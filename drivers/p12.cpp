#include "common.hpp"
#include <sdsl/int_vector.hpp>
#include <sdsl/coder.hpp>
#include <sdsl/coder_comma.hpp>
#include <memory>
using namespace sdsl;
typedef unsigned __int128 u128;
typedef std::vector<bool> Code;
static uint64_t gb(const std::vector<uint64_t>& m, uint64_t p){ return m[p>>6]>>(p&63)&1; }
// reference codes, least significant bit first; 0 stands for 2^64 (not for the comma code)
static u128 full(uint64_t x){ return x?(u128)x:((u128)1<<64); }
static int blen(u128 x){ int l=0; while(x){ ++l; x>>=1; } return l; }
static void put(Code& c, u128 x, int l){ for(int i=0;i<l;++i) c.push_back(x>>i&1); }
struct Gamma { typedef coder::elias_gamma C; static const char* name(){ return "elias_gamma"; }
    static Code code(uint64_t x0){ u128 x=full(x0); int l=blen(x); Code c(l-1,false); c.push_back(true); put(c,x,l-1); return c; } };
struct Delta { typedef coder::elias_delta C; static const char* name(){ return "elias_delta"; }
    static Code code(uint64_t x0){ u128 x=full(x0); int l=blen(x), ll=blen(l); Code c(ll-1,false); c.push_back(true); put(c,l,ll-1); put(c,x,l-1); return c; } };
struct Fib { typedef coder::fibonacci C; static const char* name(){ return "fibonacci"; }
    static Code code(uint64_t x0){ u128 x=full(x0); std::vector<u128> f; f.push_back(1); f.push_back(2); while(f.back()<=x) f.push_back(f[f.size()-1]+f[f.size()-2]);
        int k=f.size()-1; while(f[k]>x) --k; Code c(k+1,false); for(int i=k;i>=0;--i) if(f[i]<=x){ c[i]=true; x-=f[i]; } c.push_back(true); return c; } };
template<int W> struct Comma { typedef coder::comma<W> C; static const char* name(){ static std::string s=STR("comma<"<<W<<">"); return s.c_str(); }
    static Code code(uint64_t x){ uint64_t b=(1ULL<<W)-1; std::vector<uint64_t> d; while(x){ d.push_back(x%b); x/=b; } Code c; for(size_t i=d.size();i-->0;) put(c,d[i],W); put(c,b,W); return c; } };
static uint64_t val(Drv& D, int k){
    switch(k){ case 0: return 1; case 1: return 1+D.r(4); case 2: return D.r(6)?1:1+D.r(50); case 3: { uint64_t x=D.word(); return x; } case 4: { int w=1+D.r(64); return (D.r()>>(64-w)); }
        case 5: { int w=D.r(64); return (1ULL<<w)+(int64_t)D.r(3)-1; } case 6: return D.r(40)?1+D.r(1000):D.r(); case 7: { uint64_t a=1,b=2; int n=D.r(92); while(n--) { uint64_t t=a+b; a=b; b=t; } return a+(int64_t)D.r(3)-1; }
        case 8: return D.r(30)?1:0; case 10: return D.r(24)?2:D.r(300); default: return D.r(300); } }
template<class K> void one(Drv& D, bool zero_ok_val){
    typedef typename K::C C;
    int k=D.r(11); uint64_t n=D.r(4)==0?1+D.r(3):D.r(3)==0?D.r(300):1+D.r(80); std::vector<uint64_t> v(n); for(auto& x:v) x=val(D,k);
    if(D.r(3)==0) for(auto& x:v) if(D.r(6)==0) x=val(D,D.r(10));
    uint64_t start=D.r(200);
    std::string d=STR(K::name()<<" n="<<n<<" kind="<<k<<" start="<<start<<" state="<<D.s); D.count(d);
    std::vector<Code> cs; uint64_t tot=0; for(auto x:v){ cs.push_back(K::code(x)); tot+=cs.back().size(); CHECK(C::encoding_length(x)==(uint8_t)cs.back().size(),d<<" encoding_length("<<x<<")="<<(int)C::encoding_length(x)<<" want "<<cs.back().size()); }
    std::vector<uint64_t> m((start+tot)/64+4), m0; for(auto& x:m) x=D.r(3)==0?~0ULL:D.r(2)?D.r():0; m0=m;
    uint64_t* p=m.data()+start/64; uint8_t o=start&63; std::vector<uint64_t> pos;
    uint64_t at=start;
    for(size_t i=0;i<n;++i){ pos.push_back(at); C::encode(v[i],p,o); at+=cs[i].size(); CHECK((uint64_t)(p-m.data())*64+o==at && o<64,d<<" encode("<<v[i]<<") ends at "<<(p-m.data())*64+o<<" want "<<at); }
    pos.push_back(at);
    for(uint64_t i=0,j=0,q=0;i<m.size()*64;++i){ bool w; if(i<start||i>=at) w=gb(m0,i); else { while(q>=cs[j].size()){ ++j; q=0; } w=cs[j][q++]; } CHECK(gb(m,i)==w,d<<" bit "<<i<<" after encoding (code area "<<start<<".."<<at<<")"); }
    auto chk=[&](uint64_t f,uint64_t l){ // values f..l-1
        uint64_t c=l-f, sum=0; for(uint64_t i=f;i<l;++i) sum+=v[i];
        std::vector<uint64_t> out(c+1,77);
        uint64_t r=C::template decode<false,true>(m.data(),pos[f],c,out.begin());
        for(uint64_t i=0;i<c;++i) CHECK(out[i]==v[f+i],d<<" decode of value "<<f+i<<" from "<<f<<": "<<out[i]<<" want "<<v[f+i]); CHECK(out[c]==77,d<<" decode wrote too much");
        if(c) CHECK(r==v[l-1],d<<" decode result"); else CHECK(r==0,d<<" decode of nothing");
        r=C::template decode<true,true>(m.data(),pos[f],c,out.begin()); uint64_t s=0; for(uint64_t i=0;i<c;++i){ s+=v[f+i]; CHECK(out[i]==s,d<<" summing decode "<<i); } CHECK(r==s,d<<" summing decode result");
        r=C::template decode<true,false,int*>(m.data(),pos[f],c); CHECK(r==sum,d<<" decode sum "<<f<<".."<<l<<": "<<r<<" want "<<sum);
        r=C::decode_prefix_sum(m.data(),pos[f],c); CHECK(r==sum,d<<" decode_prefix_sum of "<<f<<".."<<l<<": "<<r<<" want "<<sum);
        r=C::decode_prefix_sum(m.data(),pos[f],pos[l],c); CHECK(r==sum,d<<" decode_prefix_sum(end) of "<<f<<".."<<l<<": "<<r<<" want "<<sum); };
    chk(0,n); for(int t=0;t<8&&n;++t){ uint64_t f=D.r(n), c=D.r(3)?1+D.r(n-f):1; chk(f,f+c); } if(n) chk(n-1,n); chk(0,0);
    // vectors
    int w=D.r(3)==0?64:1+D.r(64); uint64_t msk=w==64?~0ULL:(1ULL<<w)-1; int_vector<> iv(n,0,w), z, y(3,1,7);
    for(size_t i=0;i<n;++i) iv[i]=v[i]&msk;
    if(D.r(4)==0) z=int_vector<>(D.r(100),D.r(),5);
    if(!C::encode(iv,z)) D.fail(d+" encode vector failed");
    { uint64_t e=0; Code all; for(size_t i=0;i<n;++i){ uint64_t x=iv[i]; Code c; if(x==0&&zero_ok_val) c=K::code(0); else if(x==0&&w<64) c=K::code(1ULL<<w); else c=K::code(x); all.insert(all.end(),c.begin(),c.end()); e+=c.size(); }
      CHECK(z.bit_size()==e,d<<" w="<<w<<" encoded vector has "<<z.bit_size()<<" bits want "<<e); for(uint64_t i=0;i<e;++i) CHECK((z.data()[i>>6]>>(i&63)&1)==all[i],d<<" w="<<w<<" bit "<<i<<" of the encoded vector"); }
    { bool ok=C::decode(z,y); if(zero_ok_val&&n) CHECK(ok,d<<" w="<<w<<" decode vector failed"); CHECK(y.size()==n&&y.width()==w,d<<" w="<<w<<" decoded size "<<y.size()<<" width "<<(int)y.width()); for(size_t i=0;i<n;++i) CHECK(y[i]==iv[i],d<<" w="<<w<<" decoded vector element "<<i<<": "<<y[i]<<" want "<<iv[i]); }
}
template<int W> void cw(Drv& D){ one<Comma<W>>(D,true); }
// all short words of the Fibonacci and Elias codes: every sequence of small values that fits in 16 bits behind every offset
template<class K> void small(Drv& D){ typedef typename K::C C;
    for(int o=0;o<64;o+=7) for(int a=1;a<=34;++a) for(int b=1;b<=9;++b) for(int c=1;c<=5;++c){ uint64_t v[3]={(uint64_t)a,(uint64_t)b,(uint64_t)c}; std::vector<uint64_t> m(6,~0ULL); uint64_t* p=m.data(); uint8_t of=o; for(auto x:v) C::encode(x,p,of);
        for(int n=0;n<=3;++n){ uint64_t s=0; for(int i=0;i<n;++i) s+=v[i]; uint64_t e=(p-m.data())*64+of; CHECK(C::decode_prefix_sum(m.data(),o,n)==s,K::name()<<" offset "<<o<<" values "<<a<<","<<b<<","<<c<<" decode_prefix_sum n="<<n);
            if(n==3) CHECK(C::decode_prefix_sum(m.data(),o,e,n)==s,K::name()<<" offset "<<o<<" values "<<a<<","<<b<<","<<c<<" decode_prefix_sum(end) n="<<n); } } }
int main(int c,char**a){ Drv D(c,a); small<Gamma>(D); small<Delta>(D); small<Fib>(D);
    while(D.more()){ one<Gamma>(D,false); one<Delta>(D,false); one<Fib>(D,false); switch(D.r(7)){ case 0: cw<2>(D); break; case 1: cw<3>(D); break; case 2: cw<4>(D); break; case 3: cw<8>(D); break; case 4: cw<13>(D); break; case 5: cw<16>(D); break; default: cw<29>(D); } }
    return D.done(); }
