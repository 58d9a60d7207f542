// compressed suffix arrays against the naive suffix array: every index type, sampling strategy and density
#include "sfx.hpp"
#include <sdsl/suffix_arrays.hpp>
#include <memory>
#include <sstream>
using namespace sdsl;
template<class C> void mk(C& c, const Text& T, byte_alphabet_tag) { std::string s; for (uint64_t i=0;i+1<T.n;++i) s.push_back((char)T.t[i]); construct_im(c,s,1); }
template<class C> void mk(C& c, const Text& T, int_alphabet_tag) { int_vector<> v(T.n-1,0,64); for (uint64_t i=0;i+1<T.n;++i) v[i]=T.t[i]; util::bit_compress(v); construct_im(c,v); }
template<class C> void chk(Drv& D, const C& csa, const Text& T, uint64_t maxc, const std::string& d, int few) {
    typedef typename C::char_type Ch; uint64_t n=T.n;
    CHECK(csa.size()==n && !csa.empty() && csa.sigma==T.sigma, "size/sigma "<<d);
    for (uint64_t j=0;j<(few?std::min<uint64_t>(n,40):n);++j) { uint64_t i=few?D.r(n):j;
        CHECK(csa[i]==T.sa[i], "SA["<<i<<"]="<<csa[i]<<" instead of "<<T.sa[i]<<" "<<d);
        CHECK(csa.isa[i]==T.isa[i], "ISA["<<i<<"]="<<csa.isa[i]<<" instead of "<<T.isa[i]<<" "<<d);
        CHECK(csa.psi[i]==T.psi[i], "psi["<<i<<"]="<<csa.psi[i]<<" instead of "<<T.psi[i]<<" "<<d);
        CHECK(csa.lf[i]==T.lf[i], "lf["<<i<<"]="<<csa.lf[i]<<" instead of "<<T.lf[i]<<" "<<d);
        CHECK((uint64_t)csa.bwt[i]==T.bwt[i] && (uint64_t)csa.L[i]==T.bwt[i], "bwt["<<i<<"]="<<(uint64_t)csa.bwt[i]<<" instead of "<<T.bwt[i]<<" "<<d);
        CHECK((uint64_t)csa.F[i]==T.t[T.sa[i]], "F["<<i<<"]="<<(uint64_t)csa.F[i]<<" instead of "<<T.t[T.sa[i]]<<" "<<d);
        CHECK((uint64_t)csa.text[i]==T.t[i], "text["<<i<<"]="<<(uint64_t)csa.text[i]<<" instead of "<<T.t[i]<<" "<<d);
    }
    for (int k=0;k<(few?8:40);++k) { uint64_t i=D.r(4)?D.r(n+1):n, c=D.r(4)?T.syms[D.r(T.sigma)]:D.r(maxc+1);
        CHECK(csa.bwt.rank(i,(Ch)c)==T.rank(i,c), "bwt.rank("<<i<<","<<c<<")="<<csa.bwt.rank(i,(Ch)c)<<" instead of "<<T.rank(i,c)<<" "<<d);
        uint64_t tot=T.rank(n,c); if (tot) { uint64_t q=1+D.r(tot), p=0; for (uint64_t z=0;;++p) if (T.bwt[p]==c && ++z==q) break;
            CHECK(csa.bwt.select(q,(Ch)c)==p, "bwt.select("<<q<<","<<c<<")="<<csa.bwt.select(q,(Ch)c)<<" instead of "<<p<<" "<<d); }
        uint64_t b=D.r(n), e=D.r(3)?b+D.r(std::min<uint64_t>(n-b,20)):b+D.r(n-b); auto s=extract(csa,b,e); CHECK(s.size()==e-b+1, "extract size "<<d);
        for (uint64_t j=0;j<=e-b;++j) { uint64_t g=sizeof(s[0])==1?(uint64_t)(uint8_t)s[j]:(uint64_t)s[j]; CHECK(g==T.t[b+j], "extract("<<b<<","<<e<<")["<<j<<"]="<<g<<" instead of "<<T.t[b+j]<<" "<<d); }
        VV p; uint64_t m=1+D.r(6), at=D.r(n); for (uint64_t j=0;j<m && at+j<n-1;++j) p.push_back(T.t[at+j]); if (D.r(5)==0 && p.size()) p[D.r(p.size())]=1+D.r(maxc);
        std::vector<Ch> q(p.begin(),p.end()); auto w=T.iv(p); CHECK(count(csa,q.begin(),q.end())==w.second-w.first, "count "<<d);
        auto oc=locate(csa,q.begin(),q.end()); std::vector<uint64_t> o(oc.begin(),oc.end()), x(T.sa.begin()+w.first,T.sa.begin()+w.second); std::sort(o.begin(),o.end()); std::sort(x.begin(),x.end()); CHECK(o==x, "locate "<<d);
    }
    if (!few) { uint64_t i=0; for (auto it=csa.begin(); it!=csa.end(); ++it,++i) CHECK(*it==T.sa[i], "iterator "<<d); CHECK(i==n, "iterator end "<<d);
        CHECK(csa.psi.size()==n && csa.lf.size()==n && csa.bwt.size()==n && csa.isa.size()==n && csa.text.size()==n && csa.F.size()==n && !csa.lf.empty() && !csa.psi.empty() && !csa.bwt.empty() && !csa.text.empty() && !csa.F.empty(), "member sizes "<<d); }
}
template<class C> void go(Drv& D, const Text& T, uint64_t maxc, const char* nm) {
    std::string d=STR(nm<<" "<<T.d); std::unique_ptr<C> a(new C); mk(*a,T,typename C::alphabet_category()); chk(D,*a,T,maxc,d,0);
    Text U; U.t.assign(T.t.begin(),T.t.end()-1); std::reverse(U.t.begin(),U.t.end()); if (U.t.size()>3) U.t.resize(U.t.size()-2); U.t.push_back(0); U.d="shorter reverse"; U.fill();
    switch (D.r(7)) {
        case 0: { std::unique_ptr<C> b(new C(*a)); a.reset(); chk(D,*b,T,maxc,"copy "+d,1); break; }
        case 1: { std::unique_ptr<C> b(new C); mk(*b,U,typename C::alphabet_category()); *b=*a; a.reset(); chk(D,*b,T,maxc,"assigned "+d,1); break; }
        case 2: { std::unique_ptr<C> b(new C(std::move(*a))); a.reset(); chk(D,*b,T,maxc,"moved "+d,1); break; }
        case 3: { std::unique_ptr<C> b(new C); mk(*b,U,typename C::alphabet_category()); *b=std::move(*a); a.reset(); chk(D,*b,T,maxc,"move-assigned "+d,1); break; }
        case 4: { std::unique_ptr<C> b(new C); mk(*b,U,typename C::alphabet_category()); b->swap(*a); chk(D,*b,T,maxc,"swapped "+d,1); chk(D,*a,U,maxc,"swapped partner "+d,1); std::unique_ptr<C> c(new C(*b)); b.reset(); chk(D,*a,U,maxc,"swapped partner gone "+d,1); break; }
        case 5: { std::stringstream ss; auto w=a->serialize(ss); CHECK((uint64_t)w==ss.str().size(), "serialize size "<<d); std::unique_ptr<C> b(new C); if (D.r(2)) mk(*b,U,typename C::alphabet_category()); a.reset(); b->load(ss); chk(D,*b,T,maxc,"loaded "+d,1);
            std::stringstream s2; b->serialize(s2); CHECK(s2.str()==ss.str(), "second serialization differs "<<d); break; }
        default: { a->swap(*a); C& r=*a; *a=r; chk(D,*a,T,maxc,"self "+d,1); std::vector<C> v; v.push_back(*a); v.push_back(*a); v.push_back(std::move(*a)); for (auto& x: v) chk(D,x,T,maxc,"in vector "+d,1); }
    }
}
typedef text_order_sa_sampling<> TO; typedef text_order_sa_sampling<bit_vector> TOb; typedef fuzzy_sa_sampling<> FZ; typedef sa_order_sa_sampling<> SO; typedef isa_sampling<> IS;
int main(int c, char** a) {
    Drv D(c,a);
#ifdef DEEP
#define X(...) B(__VA_ARGS__)
#define Y(...) I(__VA_ARGS__)
#else
#define X(...) (void)0
#define Y(...) (void)0
#endif
#define B(...) do { typedef __VA_ARGS__ Idx; go<Idx>(D,T,255,#__VA_ARGS__); } while (0)
#define I(...) do { typedef __VA_ARGS__ Idx; go<Idx>(D,T,1100,#__VA_ARGS__); } while (0)
    while (D.more()) {
        { Text T=text(D,255); printf("CASE %s\n", T.d.substr(0,200).c_str()); D.count(T.d);
        switch (D.r(8)) {
            case 0: B(csa_wt<>); B(csa_sada<enc_vector<>,4,5>); break;
            case 1: X(csa_sada<>); B(csa_wt<wt_huff<rrr_vector<63>>,7,3,TO,IS>); break;
            case 2: B(csa_bitcompressed<>); B(csa_sada<enc_vector<coder::elias_delta,3>,7,3,TOb,IS,succinct_byte_alphabet<>>); break;
            case 3: B(csa_wt<wt_blcd<>,4,4,TO,text_order_isa_sampling_support<>>); B(csa_sada<enc_vector<>,3,1,FZ,IS>); break;
            case 4: X(csa_wt<wt_hutu<bit_vector_il<>>,5,5,FZ,fuzzy_isa_sampling_support<>>); X(csa_sada<enc_vector<coder::fibonacci,64>,32,64>); break;
            case 5: B(csa_sada<enc_vector<>,3,3,FZ,fuzzy_isa_sampling_support<>>); X(csa_wt<wt_rlmn<>,2,1>); break;
            case 6: X(csa_sada<enc_vector<>,8,8,TOb,text_order_isa_sampling_support<inv_perm_support<3>>>); B(csa_wt<wt_huff<>,6,9,SO,IS,succinct_byte_alphabet<>>); break;
            default: X(csa_wt<wt_huff<>,1,1,FZ,fuzzy_isa_sampling_support<>>); X(csa_bitcompressed<succinct_byte_alphabet<>>); B(csa_wt<wt_huff<>,3,8,sa_bwt_sampling<>,IS>); } }
        { Text T=text(D,D.r(2)?1000:30,60); printf("CASE %s\n", T.d.substr(0,200).c_str()); D.count(T.d);
        switch (D.r(3)) {
            case 0: I(csa_wt<wt_int<>,8,8,SO,IS,int_alphabet<>>); I(csa_bitcompressed<int_alphabet<>>); break;
            case 1: Y(csa_sada<enc_vector<>,8,8,SO,IS,int_alphabet<>>); I(csa_wt<wm_int<>,4,4,FZ,fuzzy_isa_sampling_support<>,int_alphabet<>>); break;
            default: I(csa_sada<enc_vector<coder::elias_gamma,16>,5,5,TO,text_order_isa_sampling_support<>,int_alphabet<>>); I(csa_wt<wt_huff_int<>,3,4,TO,IS,int_alphabet<>>); } }
    }
    return D.done();
}
