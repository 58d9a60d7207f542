// wavelet trees: range queries against a scan of the range
#include "seqs.hpp"
#include <sdsl/wavelet_trees.hpp>
#include <sdsl/wt_algorithm.hpp>
#include <sdsl/rrr_vector.hpp>
#include <set>
using namespace sdsl;
template<class W> void mk(W& w, const Seq& S, byte_alphabet_tag) { int_vector<8> v(S.n); for (uint64_t i=0;i<S.n;++i) v[i]=S.v[i]; store_to_file(v,"@p15seq"); construct(w,"@p15seq",0); sdsl::remove("@p15seq"); }
template<class W> void mk(W& w, const Seq& S, int_alphabet_tag) { int_vector<> v(S.n,0,64); for (uint64_t i=0;i<S.n;++i) v[i]=S.v[i]; util::bit_compress(v); construct_im(w,v); }
typedef std::pair<uint64_t,uint64_t> P;
struct Rg { uint64_t i,j; };
Rg range(Drv& D, uint64_t n) { uint64_t i=D.r(n+1), j; switch (D.r(5)) { case 0: j=i; break; case 1: j=std::min(n,i+1+D.r(3)); break; case 2: j=n; break; case 3: i=D.r(4)?i:0; j=i+D.r(n+1-i); break; default: j=i+D.r(n+1-i); } return {i,j}; }
std::map<uint64_t,uint64_t> scan(const Seq& S, uint64_t i, uint64_t j) { std::map<uint64_t,uint64_t> m; for (;i<j;++i) ++m[S.v[i]]; return m; }

template<class W> void syms(Drv& D, const W& w, const Seq& S, uint64_t maxq, const std::string& d, bool lex) {
    std::vector<typename W::value_type> cs(w.sigma); std::vector<typename W::size_type> ri(w.sigma), rj(w.sigma); 
    for (int t=0;t<25;++t) { Rg r=range(D,S.n); auto m=scan(S,r.i,r.j); typename W::size_type k=D.r(100); sdsl::interval_symbols(w,r.i,r.j,k,cs,ri,rj);
        CHECK(k==m.size(), "interval_symbols("<<r.i<<","<<r.j<<") found "<<k<<" symbols instead of "<<m.size()<<" "<<d);
        std::set<uint64_t> seen;
        for (uint64_t p=0;p<k;++p) { uint64_t c=cs[p]; CHECK(m.count(c) && seen.insert(c).second, "interval_symbols("<<r.i<<","<<r.j<<") reports symbol "<<c<<" "<<d); uint64_t a=S.rank(r.i,c), b=a+m[c]; CHECK(ri[p]==a && rj[p]==b, "interval_symbols("<<r.i<<","<<r.j<<") symbol "<<c<<" ranks ("<<ri[p]<<","<<rj[p]<<") instead of ("<<a<<","<<b<<") "<<d); CHECK(!lex || !p || cs[p-1]<cs[p], "interval_symbols not ascending "<<d); } }
}
template<class W> void isect(Drv& D, const W& w, const Seq& S, const std::string& d, bool lex) {
    for (int t=0;t<12;++t) { std::vector<range_type> rs; uint64_t n=D.r(6)?1+D.r(4):0; std::vector<std::map<uint64_t,uint64_t>> ms; std::string q; for (uint64_t x=0;x<n;++x) { Rg r=range(D,S.n); if (r.i==r.j) { if (r.i==S.n) continue; ++r.j; } rs.push_back({{r.i,r.j-1}}); ms.push_back(scan(S,r.i,r.j)); q+=STR("["<<r.i<<","<<r.j-1<<"]"); }
        uint64_t th=D.r(rs.size()+2), T=th?th:rs.size(); std::map<uint64_t,P> all; for (auto& m: ms) for (auto& x: m) { ++all[x.first].first; all[x.first].second+=x.second; }
        auto g=intersect(w,rs,th); std::map<uint64_t,uint64_t> e; if (rs.size()) for (auto& x: all) if (x.second.first>=T) e[x.first]=x.second.second;
        CHECK(g.size()==e.size(), "intersect "<<q<<" t="<<th<<" has "<<g.size()<<" symbols instead of "<<e.size()<<" "<<d); std::set<uint64_t> seen; uint64_t last=0;
        for (auto& x: g) { CHECK(e.count(x.first) && seen.insert(x.first).second && e[x.first]==x.second, "intersect "<<q<<" t="<<th<<" reports ("<<x.first<<","<<x.second<<") "<<d); CHECK(!lex || seen.size()==1 || last<x.first, "intersect not ascending "<<d); last=x.first; } }
}
template<class W> void lex(Drv& D, const W& w, const Seq& S, uint64_t maxq, const std::string& d) {
    auto q=probes(D,S,maxq);
    for (auto c: q) { auto ge=std::lower_bound(S.syms.begin(),S.syms.end(),c); auto le=std::upper_bound(S.syms.begin(),S.syms.end(),c); auto g=symbol_gte(w,c); auto l=symbol_lte(w,c);
        CHECK(g.first==(ge!=S.syms.end()) && (!g.first || g.second==*ge), "symbol_gte("<<c<<") is ("<<g.first<<","<<g.second<<") "<<d); CHECK(l.first==(le!=S.syms.begin()) && (!l.first || l.second==*(le-1)), "symbol_lte("<<c<<") is ("<<l.first<<","<<l.second<<") "<<d); }
    for (int t=0;t<60;++t) { Rg r=range(D,S.n); uint64_t c=q[D.r(q.size())], sm=0,gr=0,ps=0; for (uint64_t x=0;x<r.j;++x) { if (x>=r.i) { sm+=S.v[x]<c; gr+=S.v[x]>c; } ps+=S.v[x]<c; }
        auto x=w.lex_count(r.i,r.j,c); uint64_t a=S.rank(r.i,c); CHECK(std::get<0>(x)==a && std::get<1>(x)==sm && std::get<2>(x)==gr, "lex_count("<<r.i<<","<<r.j<<","<<c<<") is ("<<std::get<0>(x)<<","<<std::get<1>(x)<<","<<std::get<2>(x)<<") instead of ("<<a<<","<<sm<<","<<gr<<") "<<d);
        auto y=w.lex_smaller_count(r.j,c); uint64_t b=S.rank(r.j,c); CHECK(std::get<0>(y)==b && std::get<1>(y)==ps, "lex_smaller_count("<<r.j<<","<<c<<") is ("<<std::get<0>(y)<<","<<std::get<1>(y)<<") instead of ("<<b<<","<<ps<<") "<<d); }
    for (int t=0;t<30;++t) { Rg r=range(D,S.n); if (r.i==r.j) continue; VV v(S.v.begin()+r.i,S.v.begin()+r.j); std::sort(v.begin(),v.end()); uint64_t k=D.r(v.size()); auto x=quantile_freq(w,r.i,r.j-1,k); uint64_t f=std::count(v.begin(),v.end(),v[k]); CHECK(x.first==v[k] && x.second==f, "quantile_freq("<<r.i<<","<<r.j-1<<","<<k<<") is ("<<x.first<<","<<x.second<<") instead of ("<<v[k]<<","<<f<<") "<<d);
        uint64_t lo=q[D.r(q.size())], hi=q[D.r(q.size())]; if (lo>hi && D.r(4)) std::swap(lo,hi); if (D.r(5)==0) hi=lo; v.erase(std::unique(v.begin(),v.end()),v.end()); VV e; for (auto s: v) if (s>=lo && s<=hi) e.push_back(s);
        auto g=restricted_unique_range_values(w,r.i,r.j-1,lo,hi); bool ok=g.size()==e.size(); for (uint64_t i=0;ok&&i<e.size();++i) ok=g[i]==e[i]; CHECK(ok, "restricted_unique_range_values("<<r.i<<","<<r.j-1<<","<<lo<<","<<hi<<") has "<<g.size()<<" values, expected "<<e.size()<<" "<<d); }
}
template<class W> void two(Drv& D, const W& w, const Seq& S, uint64_t maxq, const std::string& d) {
    auto q=probes(D,S,maxq); q.push_back(~0ULL); q.push_back(1ULL<<63); q.push_back(D.word());
    for (int t=0;t<40;++t) { Rg r=range(D,S.n); if (r.i==r.j) { if (!r.i) continue; r.i=r.j; } uint64_t lb=r.i, rb=r.j-1, lo=q[D.r(q.size())], hi=q[D.r(q.size())]; if (lo>hi && D.r(4)) std::swap(lo,hi); if (D.r(5)==0) hi=lo; if (D.r(6)==0) hi=~0ULL;
        std::vector<P> e; for (uint64_t i=lb;i<=rb&&i<S.n;++i) if (S.v[i]>=lo && S.v[i]<=hi) e.push_back({i,S.v[i]});
        auto x=w.range_search_2d(lb,rb,lo,hi); auto y=w.range_search_2d(lb,rb,lo,hi,false); std::vector<P> g; for (auto& p: x.second) g.push_back({p.first,p.second}); std::sort(g.begin(),g.end());
        CHECK(x.first==e.size() && g==e, "range_search_2d("<<lb<<","<<rb<<","<<lo<<","<<hi<<") found "<<x.first<<" points ("<<g.size()<<" reported) instead of "<<e.size()<<" "<<d); CHECK(y.first==e.size() && y.second.empty(), "range_search_2d("<<lb<<","<<rb<<","<<lo<<","<<hi<<") without report counts "<<y.first<<" instead of "<<e.size()<<" "<<d); }
}
enum { I=1, X=2, L=4, R=8, O=16 };
template<bool> struct Do { template<class W> static void lx(Drv& D, const W& w, const Seq& S, uint64_t m, const std::string& d) {} template<class W> static void is(Drv&, const W&, const Seq&, const std::string&, bool) {} template<class W> static void t2(Drv&, const W&, const Seq&, uint64_t, const std::string&) {} };
template<> struct Do<true> { template<class W> static void lx(Drv& D, const W& w, const Seq& S, uint64_t m, const std::string& d) { lex(D,w,S,m,d); } template<class W> static void is(Drv& D, const W& w, const Seq& S, const std::string& d, bool o) { isect(D,w,S,d,o); } template<class W> static void t2(Drv& D, const W& w, const Seq& S, uint64_t m, const std::string& d) { two(D,w,S,m,d); } };
template<int F, class W> void go(Drv& D, const Seq& S, uint64_t maxq, const char* nm) { std::string d=STR(nm<<" "<<S.d); W w; mk(w,S,typename W::alphabet_category()); if (F&I) syms(D,w,S,maxq,d,F&O); Do<(F&X)!=0>::is(D,w,S,d,F&O); Do<(F&L)!=0>::lx(D,w,S,maxq,d); Do<(F&R)!=0>::t2(D,w,S,maxq,d); }
#define IT bit_vector, rank_support_v<>, select_support_mcl<1>, select_support_mcl<0>, int_tree<>
typedef rrr_vector<63> R63;
int main(int c, char** a) {
    Drv D(c,a);
    while (D.more()) {
        Seq B=seq(D,255); D.count(B.d); printf("CASE %s\n", B.d.substr(0,150).c_str());
        switch (D.r(8)) {
            case 0: go<I|X,wt_blcd<>>(D,B,255,"wt_blcd"); break; case 1: go<I|X,wt_huff<>>(D,B,255,"wt_huff"); break; case 2: case 3: go<I|X|L|O,wt_hutu<>>(D,B,255,"wt_hutu"); break; case 4: go<I|X,wt_huff<R63>>(D,B,255,"wt_huff<rrr>"); break;
            case 5: go<I|X|L|R|O,wt_int<>>(D,B,255,"wt_int bytes"); break; case 6: go<I|X|L|O,wt_blcd<>>(D,B,255,"wt_blcd"); break; default: go<I|X|R,wm_int<>>(D,B,255,"wm_int bytes"); }
        bool wide=D.r(3)==0; uint64_t mx= wide ? (D.r(3)?~0ULL>>D.r(40):~0ULL) : D.r(2)?1000:30; int k= wide?D.r(4):D.r(9); Seq S=seq(D,mx); uint64_t mq= wide&&k<4?~0ULL:mx+100; D.count(S.d); printf("CASE %s\n", S.d.substr(0,150).c_str());
        switch (k) {
            case 0: case 1: go<I|X|L|R|O,wt_int<>>(D,S,mq,"wt_int"); break; case 2: go<I|X|R,wm_int<>>(D,S,mq,"wm_int"); break; case 3: go<I|X|L|R|O,wt_int<rrr_vector<15>>>(D,S,mq,"wt_int<rrr15>"); break;
            case 4: go<I|X|L|O,wt_blcd<IT>>(D,S,mq,"wt_blcd int"); break; case 5: go<I|X,wt_huff<IT>>(D,S,mq,"wt_huff int"); break; case 6: go<I|X|L|O,wt_hutu<IT>>(D,S,mq,"wt_hutu int"); break; default: go<I|X|R,wm_int<R63>>(D,S,mq,"wm_int<rrr>"); }
    }
    return D.done();
}
