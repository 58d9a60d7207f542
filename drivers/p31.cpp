// alphabet structures against counting the text
#include "common.hpp"
#include <map>
#include <sdsl/csa_alphabet_strategy.hpp>
#include <sdsl/int_vector_buffer.hpp>
#include <sdsl/rrr_vector.hpp>
#include <sdsl/bit_vector_il.hpp>
using namespace sdsl;
typedef std::map<uint64_t,uint64_t> M;
template<class A> void same(Drv& D, const A& a, const M& m, uint64_t n, const std::string& d, const char* how) {
    uint64_t s=0, k=0, mx=m.empty()?0:m.rbegin()->first;
    CHECK((uint64_t)a.sigma==m.size(), how<<": sigma "<<(uint64_t)a.sigma<<" instead of "<<m.size()<<" "<<d); if (m.empty()) return;
    for (auto& x: m) { CHECK((uint64_t)a.char2comp[x.first]==k, how<<": char2comp["<<x.first<<"]="<<(uint64_t)a.char2comp[x.first]<<" instead of "<<k<<" "<<d); CHECK((uint64_t)a.comp2char[k]==x.first, how<<": comp2char["<<k<<"]="<<(uint64_t)a.comp2char[k]<<" instead of "<<x.first<<" "<<d);
        CHECK((uint64_t)a.C[k]==s, how<<": C["<<k<<"]="<<(uint64_t)a.C[k]<<" instead of "<<s<<" "<<d); s+=x.second; ++k; }
    CHECK((uint64_t)a.C[k]==n, how<<": C[sigma]="<<(uint64_t)a.C[k]<<" instead of "<<n<<" "<<d);
    auto abs=[&](uint64_t c){ if (!m.count(c)) CHECK((uint64_t)a.char2comp[c]==0, how<<": char2comp["<<c<<"]="<<(uint64_t)a.char2comp[c]<<" of an absent symbol "<<d); };
    if (A::int_width==8) for (int c=0;c<256;++c) abs(c); else for (int i=0;i<40;++i) { abs(D.r(mx+3)); abs(mx+1+i); abs(i); abs(D.r()); abs(1ULL<<D.r(64)); }
}
template<class A, class B> void one(Drv& D, B& buf, const M& m, uint64_t n, uint64_t m_n, const std::string& d) {
    A a(buf,n); same(D,a,m,n,d,"constructed"); (void)m_n;
    { A c(a); same(D,c,m,n,d,"copied"); } { A c; c=a; same(D,c,m,n,d,"assigned"); } same(D,a,m,n,d,"original");
    switch (D.r(5)) {
        case 0: { A c(std::move(a)); same(D,c,m,n,d,"moved"); break; } case 1: { A c; c=std::move(a); same(D,c,m,n,d,"move assigned"); break; }
        case 2: { std::stringstream o; uint64_t w=a.serialize(o); CHECK(w==o.str().size(), "serialize reports "<<w<<" bytes, wrote "<<o.str().size()<<" "<<d); A c; c.load(o); same(D,c,m,n,d,"loaded"); CHECK((uint64_t)o.tellg()==w,"load consumes "<<o.tellg()<<" of "<<w<<" bytes "<<d); break; }
        case 3: { A c; c.swap(a); same(D,c,m,n,d,"swapped"); same(D,a,M(),0,d,"swapped with"); break; }
        default: { A c(a), e; e=c; c=A(); same(D,e,m,n,d,"assigned from a dead copy"); same(D,c,M(),0,d,"emptied"); } }
}
int main(int c, char** a) {
    Drv D(c,a);
    while (D.more()) {
        uint64_t n=D.r(15)==0?0:D.r(6)==0?1+D.r(3000):1+D.r(100), sg=1+D.r(D.r(3)?12:255), base=D.r(3)?1:1+D.r(255); bool wide=D.r(2);
        std::string d=STR("text n="<<n<<" wide="<<wide<<" state="<<D.s<<" :");
        if (!wide) {
            int_vector<8> t(n,0); M m; for (uint64_t i=0;i+1<n;++i) { t[i]=std::min<uint64_t>(255,base+D.r(sg)); } uint64_t len=n; for (uint64_t i=0;i<len;++i) { m[t[i]]++; if (i<80) d+=STR(" "<<(int)t[i]); }
            if (n>=255 && D.r(2)) { for (uint64_t i=0;i<255;++i) { m[t[i]]--; if (!m[t[i]]) m.erase(t[i]); t[i]=i+1; m[t[i]]++; } d+=" all symbols"; }
            printf("CASE %s\n", d.substr(0,200).c_str()); D.count(d); store_to_file(t,"@p31_8"); { int_vector_buffer<8> b("@p31_8");
            one<byte_alphabet>(D,b,m,len,n,"byte_alphabet "+d); one<succinct_byte_alphabet<>>(D,b,m,len,n,"succinct_byte_alphabet "+d); if (n) one<succinct_byte_alphabet<bit_vector,rank_support_v5<>,select_support_scan<>,int_vector<>>>(D,b,m,len,n,"succinct_byte_alphabet<v5,scan> "+d); }
        } else {
            uint64_t top=D.r(3)==0?sg:1+D.r(1ULL<<(4+D.r(16))); int_vector<> t(n,0,D.r(2)?64:bits::hi(top)+1); M m; bool cont=D.r(3)==0; for (uint64_t i=0;i+1<n;++i) t[i]=cont?1+i%std::min<uint64_t>(n-1,sg):1+D.r(top); if (cont) util::bit_compress(t); if (!cont && t.width()<64) { for (uint64_t i=0;i+1<n;++i) if (!t[i]) t[i]=1; }
            for (uint64_t i=0;i<n;++i) { m[t[i]]++; if (i<80) d+=STR(" "<<(uint64_t)t[i]); }
            printf("CASE %s\n", d.substr(0,200).c_str()); D.count(d); store_to_file(t,"@p31_0"); { int_vector_buffer<0> b("@p31_0");
            one<int_alphabet<>>(D,b,m,n,n,"int_alphabet<> "+d); if (n) { one<int_alphabet<bit_vector,rank_support_v<>,select_support_mcl<>,int_vector<>>>(D,b,m,n,n,"int_alphabet<bit_vector> "+d); one<int_alphabet<rrr_vector<>,rrr_vector<>::rank_1_type,rrr_vector<>::select_1_type,int_vector<>>>(D,b,m,n,n,"int_alphabet<rrr> "+d); } }
        }
    }
    return D.done();
}
