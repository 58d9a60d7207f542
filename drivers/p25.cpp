// inverse permutation support against the inverse computed by scanning
#include "common.hpp"
#include <algorithm>
#include <sdsl/inv_perm_support.hpp>
#include <sdsl/rrr_vector.hpp>
#include <sdsl/bit_vector_il.hpp>
using namespace sdsl;
typedef std::vector<uint64_t> P;
template<class S> void same(Drv& D, const S& s, const P& inv, const std::string& d, const char* how) {
    CHECK(s.size()==inv.size(), how<<" size "<<s.size()<<" of "<<d);
    for (size_t i=0;i<inv.size();++i) { uint64_t g=s[i]; CHECK(g==inv[i], how<<": inverse at "<<i<<" is "<<g<<" instead of "<<inv[i]<<" for "<<d); }
    size_t i=0; for (auto it=s.begin(); it!=s.end(); ++it, ++i) CHECK(*it==inv[i], how<<" iterator at "<<i<<" for "<<d); CHECK(i==inv.size(), how<<" iterator length "<<d);
}
template<class S> void one(Drv& D, const int_vector<>& v, const P& inv, const std::string& d) {
    S s(&v); same(D,s,inv,d,"constructed");
    switch (D.r(7)) {
        case 0: { S c(s); same(D,c,inv,d,"copied"); break; } case 1: { S c; c=s; same(D,c,inv,d,"assigned"); break; }
        case 2: { S c(std::move(s)); same(D,c,inv,d,"moved"); break; } case 3: { S c; c=std::move(s); same(D,c,inv,d,"move assigned"); break; }
        case 4: { std::stringstream o; uint64_t w=s.serialize(o); CHECK(w==o.str().size(), "serialize reports "<<w<<" bytes, wrote "<<o.str().size()<<" "<<d); S c; c.load(o); c.set_vector(&v); same(D,c,inv,d,"loaded"); break; }
        case 5: { int_vector<> v2(v); S c(s); c.set_vector(&v2); same(D,c,inv,d,"set_vector"); break; }
        default: { S c; c.set_vector(&v); c.swap(s); same(D,c,inv,d,"swapped"); } }
}
int main(int c, char** a) {
    Drv D(c,a);
    while (D.more()) {
        uint64_t n = D.r(10)==0 ? D.r(4) : D.r(12)==0 ? 1000+D.r(5000) : 1+D.r(D.r(3)?80:400); P p(n); for (uint64_t i=0;i<n;++i) p[i]=i; int kind=D.r(6);
        if (kind==0) for (uint64_t i=n;i>1;--i) std::swap(p[i-1],p[D.r(i)]);
        else if (kind==1) { uint64_t s=n?D.r(n):0; for (uint64_t i=0;i<n;++i) p[i]=(i+s)%n; }                 // rotations
        else if (kind==2) { for (uint64_t i=0;i<n;++i) p[i]=n-1-i; }
        else if (kind==3) { for (uint64_t i=0;i<n;) { uint64_t l=std::min<uint64_t>(n-i, (uint64_t[]){1,2,3,7,8,9,14,15,31,32,33,34,63,64,65,96,97}[D.r(17)]); for (uint64_t j=0;j<l;++j) p[i+j]=i+(j+1)%l; i+=l; } }
        else if (kind==4) { P q(p); for (uint64_t i=n;i>1;--i) std::swap(q[i-1],q[D.r(i)]); for (uint64_t i=0;i<n;) { uint64_t l=std::min<uint64_t>(n-i, 30+D.r(6)+32*D.r(3)); for (uint64_t j=0;j<l;++j) p[q[i+j]]=q[i+(j+1)%l]; i+=l; } }
        else { for (uint64_t i=n;i-->1;) p[i]=i-1; if (n) p[0]=n-1; }
        P inv(n); for (uint64_t i=0;i<n;++i) inv[p[i]]=i;
        uint8_t w=D.r(2)?64:bits::hi(n?n:1)+1; int_vector<> v(n,0,w); for (uint64_t i=0;i<n;++i) v[i]=p[i];
        std::string d=STR("permutation kind="<<kind<<" n="<<n<<" width="<<(int)w<<" state="<<D.s<<" :"); for (uint64_t i=0;i<n&&i<100;++i) d+=STR(" "<<p[i]);
        printf("CASE %s\n", d.substr(0,200).c_str()); D.count(d);
        one<inv_perm_support<>>(D,v,inv,"t_s=32 "+d); one<inv_perm_support<1>>(D,v,inv,"t_s=1 "+d); one<inv_perm_support<2>>(D,v,inv,"t_s=2 "+d); one<inv_perm_support<7>>(D,v,inv,"t_s=7 "+d);
        one<inv_perm_support<8,bit_vector,rank_support_v5<>>>(D,v,inv,"t_s=8 v5 "+d);
        if (n) one<inv_perm_support<5,rrr_vector<>,rrr_vector<>::rank_1_type>>(D,v,inv,"t_s=5 rrr "+d);
        one<inv_perm_support<3,bit_vector_il<>,bit_vector_il<>::rank_1_type>>(D,v,inv,"t_s=3 il "+d);
    }
    return D.done();
}
