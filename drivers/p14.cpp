// wavelet trees: access, rank, select, inverse_select against the sequence
#include "seqs.hpp"
#include <sdsl/wavelet_trees.hpp>
#include <sdsl/rrr_vector.hpp>
#include <sdsl/bit_vector_il.hpp>
#include <sdsl/hyb_vector.hpp>
using namespace sdsl;
template<class W> void mk(W& w, const Seq& S, byte_alphabet_tag) { int_vector<8> v(S.n); for (uint64_t i=0;i<S.n;++i) v[i]=S.v[i]; store_to_file(v,"@p14seq"); construct(w,"@p14seq",0); sdsl::remove("@p14seq"); }
template<class W> void mk(W& w, const Seq& S, int_alphabet_tag) { int_vector<> v(S.n,0,64); for (uint64_t i=0;i<S.n;++i) v[i]=S.v[i]; util::bit_compress(v); construct_im(w,v); }
template<class W> auto iter(Drv& D, const W& w, const Seq& S, const std::string& d, int) -> decltype(w.begin(),void()) { uint64_t i=0; for (auto it=w.begin();it!=w.end();++it,++i) CHECK(i<S.n && *it==S.v[i], "iterator at "<<i<<" "<<d); CHECK(i==S.n, "iterator length "<<d); }
template<class W> void iter(Drv& D, const W& w, const Seq& S, const std::string& d, long) {}
template<class W> void all(Drv& D, const W& w, const Seq& S, uint64_t maxq, const std::string& d) {
    CHECK(w.size()==S.n && !w.empty(), "size "<<w.size()<<" "<<d); CHECK(w.sigma==S.syms.size(), "sigma "<<w.sigma<<" "<<d);
    std::map<uint64_t,uint64_t> cnt;
    for (uint64_t i=0;i<S.n;++i) { uint64_t c=S.v[i]; CHECK(w[i]==c, "["<<i<<"] is "<<w[i]<<" instead of "<<c<<" "<<d); auto x=w.inverse_select(i); CHECK(x.first==cnt[c] && x.second==c, "inverse_select("<<i<<") is ("<<x.first<<","<<x.second<<") instead of ("<<cnt[c]<<","<<c<<") "<<d); ++cnt[c]; uint64_t s=w.select(cnt[c],c); CHECK(s==i, "select("<<cnt[c]<<","<<c<<") is "<<s<<" instead of "<<i<<" "<<d); }
    for (auto c: probes(D,S,maxq)) { uint64_t k=0; for (uint64_t i=0;;++i) { if (S.n<80||i%7==0||D.r(8)==0||i==S.n) { uint64_t g=w.rank(i,c); CHECK(g==k, "rank("<<i<<","<<c<<") is "<<g<<" instead of "<<k<<" "<<d); } if (i==S.n) break; k+=S.v[i]==c; } }
    iter(D,w,S,d,0);
}
template<class W> void go(Drv& D, const Seq& S, uint64_t maxq, const char* nm) {
    std::string d=STR(nm<<" "<<S.d); W w; mk(w,S,typename W::alphabet_category()); all(D,w,S,maxq,d);
    switch (D.r(6)) {
        case 0: { W x(w); { W y; w.swap(y); } all(D,x,S,maxq,"copy "+d); break; }
        case 1: { W x; x=w; { W y(std::move(w)); all(D,y,S,maxq,"moved "+d); } all(D,x,S,maxq,"assigned "+d); break; }
        case 2: { W x; x=std::move(w); all(D,x,S,maxq,"move-assigned "+d); break; }
        case 3: { Seq T=seq(D,std::min<uint64_t>(maxq,200),30); W x; mk(x,T,typename W::alphabet_category()); x.swap(w); all(D,x,S,maxq,"swapped "+d); all(D,w,T,maxq,"swapped (other) "+d+" with "+T.d); break; }
        case 4: { std::stringstream ss; uint64_t b=w.serialize(ss); CHECK(ss.str().size()==b, "serialize wrote "<<ss.str().size()<<" and returned "<<b<<" "<<d); W x; x.load(ss); all(D,x,S,maxq,"loaded "+d); CHECK((uint64_t)ss.tellg()==b || ss.peek()==EOF, "load consumed "<<ss.tellg()<<" of "<<b<<" "<<d); break; }
        default: { Seq T=seq(D,std::min<uint64_t>(maxq,200),30); W x; mk(x,T,typename W::alphabet_category()); x=w; all(D,x,S,maxq,"assigned over "+d+" onto "+T.d); } }
}
template<class W> void empt(Drv& D, const char* nm) { W w; CHECK(w.size()==0 && w.empty(), nm<<" default constructed: size");  }
#define IT bit_vector, rank_support_v<>, select_support_mcl<1>, select_support_mcl<0>, int_tree<>
typedef rrr_vector<63> R63;
int main(int c, char** a) {
    Drv D(c,a);
    empt<wt_blcd<>>(D,"wt_blcd"); empt<wt_huff<R63>>(D,"wt_huff<rrr>"); empt<wt_rlmn<>>(D,"wt_rlmn"); empt<wt_int<>>(D,"wt_int"); empt<wm_int<>>(D,"wm_int"); empt<wt_ap<>>(D,"wt_ap"); empt<wt_gmr<>>(D,"wt_gmr"); empt<wt_gmr_rs<>>(D,"wt_gmr_rs"); empt<wt_hutu<IT>>(D,"wt_hutu int");
    while (D.more()) {
        Seq B=seq(D,255); D.count(B.d); printf("CASE %s\n", B.d.substr(0,150).c_str());
        switch (D.r(13)) {
            case 0: go<wt_blcd<>>(D,B,255,"wt_blcd"); break; case 1: go<wt_huff<>>(D,B,255,"wt_huff"); break; case 2: go<wt_hutu<>>(D,B,255,"wt_hutu"); break; case 3: go<wt_huff<R63>>(D,B,255,"wt_huff<rrr>"); break;
            case 4: go<wt_blcd<bit_vector_il<>>>(D,B,255,"wt_blcd<il>"); break; case 5: go<wt_rlmn<>>(D,B,255,"wt_rlmn"); break; case 6: go<wt_rlmn<bit_vector>>(D,B,255,"wt_rlmn<bit_vector>"); break; case 7: go<wt_hutu<bit_vector,rank_support_v5<>>>(D,B,255,"wt_hutu<v5>"); break;
            case 8: go<wt_huff<bit_vector,rank_support_v<>,select_support_mcl<1>,select_support_mcl<0>,byte_tree<true>>>(D,B,255,"wt_huff<dfs>"); break; case 9: go<wt_gmr_rs<>>(D,B,255,"wt_gmr_rs"); break; case 10: go<wt_blcd<R63>>(D,B,255,"wt_blcd<rrr>"); break;
            case 11: go<wt_int<>>(D,B,255,"wt_int bytes"); break; default: go<wm_int<>>(D,B,255,"wm_int bytes"); }
        bool wide=D.r(3)==0; uint64_t mx= wide ? (D.r(3)?~0ULL>>D.r(40):~0ULL) : D.r(2)?1000:30; int k= wide?D.r(4):D.r(12); Seq I=seq(D,mx); uint64_t mq= wide&&k<4?~0ULL:mx+100; D.count(I.d); printf("CASE %s\n", I.d.substr(0,150).c_str());
        switch (k) {
            case 0: go<wt_int<>>(D,I,mq,"wt_int"); break; case 1: go<wm_int<>>(D,I,mq,"wm_int"); break; case 2: go<wt_int<rrr_vector<15>>>(D,I,mq,"wt_int<rrr15>"); break; case 3: go<wm_int<R63>>(D,I,mq,"wm_int<rrr>"); break;
            case 4: go<wt_blcd<IT>>(D,I,mq,"wt_blcd int"); break; case 5: go<wt_huff<IT>>(D,I,mq,"wt_huff int"); break; case 6: go<wt_hutu<IT>>(D,I,mq,"wt_hutu int"); break;
            case 7: go<wt_gmr<>>(D,I,mq,"wt_gmr"); break; case 8: go<wt_ap<>>(D,I,mq,"wt_ap"); break; case 9: go<wt_rlmn<bit_vector,rank_support_v5<>,select_support_mcl<1>,wt_int<>>>(D,I,mq,"wt_rlmn int"); break; case 10: go<wt_gmr_rs<>>(D,I,mq,"wt_gmr_rs int"); break; default: go<wt_huff<bit_vector,rank_support_v<>,select_support_mcl<1>,select_support_mcl<0>,int_tree<true>>>(D,I,mq,"wt_huff int dfs"); }
    }
    return D.done();
}
