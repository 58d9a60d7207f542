// balanced parentheses supports against the nesting computed with a stack
#include "common.hpp"
#include <sdsl/bp_support.hpp>
#include <sdsl/rrr_vector.hpp>
#include <sdsl/int_vector_buffer.hpp>
using namespace sdsl;
struct Ref { uint64_t n; std::vector<uint64_t> match, enc, rank, sel; std::vector<int64_t> ex; };
static Ref build(const bit_vector& b) {
    Ref r; r.n=b.size(); r.match.assign(r.n,0); r.enc.assign(r.n,r.n); r.rank.assign(r.n,0); r.ex.assign(r.n,0); std::vector<uint64_t> st; uint64_t ones=0; int64_t e=0;
    for (uint64_t i=0;i<r.n;++i) { if (b[i]) { r.enc[i]=st.empty()?r.n:st.back(); st.push_back(i); ++ones; ++e; r.sel.push_back(i); } else { uint64_t o=st.back(); st.pop_back(); r.match[i]=o; r.match[o]=i; r.enc[i]=o; --e; } r.rank[i]=ones; r.ex[i]=e; }
    return r;
}
static uint64_t anc(const Ref& R, uint64_t i, uint64_t d) { while (d && i!=R.n) { i=R.enc[i]; --d; } return i; }
template<class S> auto lvl(Drv& D, const S& s, const Ref& R, uint64_t i, const std::string& d, int) -> decltype(s.level_anc(0,0), void()) {
    uint64_t k=D.r(3)==0?D.r(4):D.r(uint64_t(R.ex[i])+3), g=s.level_anc(i,k), w=anc(R,i,k); CHECK(g==w, "level_anc("<<i<<","<<k<<")="<<g<<" instead of "<<w<<" "<<d); }
template<class S> void lvl(Drv&, const S&, const Ref&, uint64_t, const std::string&, long) {}
template<class S> void same(Drv& D, const S& s, const bit_vector& b, const Ref& R, const std::string& d) {
    uint64_t n=R.n; CHECK(s.size()==n, "size() "<<s.size()<<" "<<d);
    uint64_t q = n<=300 ? n : 150;
    for (uint64_t t=0;t<q;++t) {
        uint64_t i = n<=300 ? t : D.r(4)==0?(D.r(2)?D.r(70):n-1-D.r(70)):D.r(n);
        CHECK(int64_t(s.excess(i))==R.ex[i], "excess("<<i<<")="<<int64_t(s.excess(i))<<" instead of "<<R.ex[i]<<" "<<d);
        CHECK(s.rank(i)==R.rank[i], "rank("<<i<<")="<<s.rank(i)<<" "<<d);
        uint64_t wc=b[i]?R.match[i]:i, wo=b[i]?i:R.match[i], g;
        g=s.find_close(i); CHECK(g==wc, "find_close("<<i<<")="<<g<<" instead of "<<wc<<" "<<d);
        g=s.find_open(i); CHECK(g==wo, "find_open("<<i<<")="<<g<<" instead of "<<wo<<" "<<d);
        g=s.enclose(i); CHECK(g==R.enc[i], "enclose("<<i<<")="<<g<<" instead of "<<R.enc[i]<<" "<<d);
        if (b[i]) lvl(D,s,R,i,d,0);
        uint64_t k=D.r(R.sel.size()); CHECK(s.select(k+1)==R.sel[k], "select("<<k+1<<")="<<s.select(k+1)<<" "<<d);
        uint64_t pc=0; while (pc<i && !b[i-1-pc]) ++pc; g=s.preceding_closing_parentheses(i); CHECK(g==pc, "preceding_closing_parentheses("<<i<<")="<<g<<" instead of "<<pc<<" "<<d);
    }
    for (uint64_t t=0;t<(n<=300?n:80);++t) {      // two openings i, j with i closed before j
        uint64_t i=R.sel[D.r(R.sel.size())]; if (D.r(3)==0) { uint64_t tries=0; while (R.match[i]-i>200 && tries++<50) i=R.sel[D.r(R.sel.size())]; }
        uint64_t lo=R.rank[R.match[i]], m=R.sel.size()-lo; if (!m) continue;
        uint64_t j=R.sel[lo+(D.r(3)==0?D.r(std::min<uint64_t>(m,40)):D.r(m))];
        uint64_t best=n, k=j; while ((k=R.enc[k])!=n && k>R.match[i]) best=k;
        uint64_t g=s.rr_enclose(i,j); CHECK(g==best, "rr_enclose("<<i<<","<<j<<")="<<g<<" instead of "<<best<<" "<<d);
        if (n<=300) { g=s.rr_enclose_naive(i,j); CHECK(g==best, "rr_enclose_naive("<<i<<","<<j<<")="<<g<<" "<<d); }
        uint64_t w=R.enc[best==n?j:best]; g=s.double_enclose(i,j); CHECK(g==w, "double_enclose("<<i<<","<<j<<")="<<g<<" instead of "<<w<<" "<<d);
    }
    for (uint64_t t=0;t<(n<=300?n:80);++t) {
        uint64_t l=D.r(n), r=l+D.r(D.r(3)==0?std::min<uint64_t>(60,n-l):n-l); 
        uint64_t best=n; if (l<r) { uint64_t k=b[r]?R.enc[r]:R.match[r]; while (k!=n && k>=l) { best=k; k=R.enc[k]; } }
        uint64_t g=s.rmq_open(l,r); CHECK(g==best, "rmq_open("<<l<<","<<r<<")="<<g<<" instead of "<<best<<" "<<d);
        uint64_t m=l; for (uint64_t x=l;x<=r;++x) if (R.ex[x]<=R.ex[m]) m=x;
        if (r+1<n) { g=s.rmq(l,r); CHECK(g>=l && g<=r && R.ex[g]==R.ex[m], "rmq("<<l<<","<<r<<")="<<g<<" with excess "<<(g<n?R.ex[g]:-1)<<" instead of "<<m<<" with "<<R.ex[m]<<" "<<d); }
    }
}
template<class S> void go(Drv& D, const bit_vector& b, const Ref& R, std::string d) {
    S s(&b); int how=D.r(6); d=STR(d<<" form "<<how);
    switch (how) {
        case 0: { S c(s); s=S(); same(D,c,b,R,d); break; }
        case 1: { S c(std::move(s)); same(D,c,b,R,d); break; }
        case 2: { S c; c=s; s=S(); same(D,c,b,R,d); break; }
        case 3: { S c; c=std::move(s); same(D,c,b,R,d); break; }
        case 4: { std::stringstream ss; uint64_t w=s.serialize(ss); CHECK(w==ss.str().size(), "serialize reports "<<w<<" bytes of "<<ss.str().size()<<" "<<d); S c; c.load(ss,&b); same(D,c,b,R,d); break; }
        default: { bit_vector b2; if (D.r(2)) { b2=b; s.set_vector(&b2); } same(D,s,b,R,d); } }
}
#define G(...) do { typedef __VA_ARGS__ Sup; go<Sup>(D,b,R,STR(#__VA_ARGS__<<" "<<d)); } while (0)
int main(int c, char** a) {
    Drv D(c,a);
    while (D.more()) {
        uint64_t m = D.r(8)==0 ? 1+D.r(3) : D.r(5)==0 ? 2000+D.r(30000) : D.r(3)==0 ? 200+D.r(1500) : 1+D.r(130), n=2*m; int kind=D.r(7); uint64_t s0=D.s;
        bit_vector b(n,0); uint64_t open=0, ones=0; uint64_t runlen=0; bool cur=true;
        for (uint64_t i=0;i<n;++i) {
            bool o;
            switch (kind) {
                case 0: o=D.r(2); break;                                             // random walk
                case 1: o=i<m; break;                                                // one deep nest
                case 2: o=!(i&1); break;                                             // flat
                case 3: if (!runlen) { cur=!cur; runlen=1+D.r(D.r(3)?12:900); } --runlen; o=cur; break;      // long runs
                case 4: o=D.r(100)<(i<n/2?80u:20u); break;                            // hill
                case 5: o= i==0 || (open>1 ? D.r(2) : 1); break;                     // one root
                default: o=D.r(100)<(((i>>9)&1)?25u:75u); }
            if (ones==m) o=false; if (open==0) o=true;
            if (o) { b[i]=1; ++ones; ++open; } else --open;
        }
        Ref R=build(b); std::string d=STR("n="<<n<<" kind="<<kind<<" state="<<s0); if (n<=140) { d+=" bp="; for (uint64_t i=0;i<n;++i) d+=b[i]?'(':')'; }
        D.count(d);
        switch (D.r(4)) {
            case 0: G(bp_support_sada<>); G(bp_support_g<>); G(bp_support_gg<>); break;
            case 1: G(bp_support_sada<8,2>); G(bp_support_g <nearest_neighbour_dictionary<30>,rank_support_v5<>,select_support_mcl<>,range_maximum_support_sparse_table<>,16>); G(bp_support_gg<nearest_neighbour_dictionary<30>,rank_support_v5<>,select_support_mcl<>,16>); break;
            case 2: G(bp_support_sada<64,4,rank_support_v<>,select_support_scan<>>); G(bp_support_gg<nearest_neighbour_dictionary<4>,rank_support_v<>,select_support_mcl<>,100>); G(bp_support_g <nearest_neighbour_dictionary<4>,rank_support_v<>,select_support_scan<>,range_maximum_support_sparse_table<>,100>); break;
            default: G(bp_support_sada<37,3>); G(bp_support_g <nearest_neighbour_dictionary<8>,rank_support_v5<>,select_support_mcl<>,range_maximum_support_sparse_table<>,7>); G(bp_support_gg<nearest_neighbour_dictionary<8>,rank_support_v5<>,select_support_mcl<>,7>); }
    }
    return D.done();
}
