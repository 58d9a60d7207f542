// backward, forward and bidirectional search against a naive suffix array
#include "sfx.hpp"
#include <sdsl/suffix_arrays.hpp>
using namespace sdsl;
template<class C> void mk(C& c, const Text& T, byte_alphabet_tag) { std::string s; for (uint64_t i=0;i+1<T.n;++i) s.push_back((char)T.t[i]); construct_im(c,s,1); }
template<class C> void mk(C& c, const Text& T, int_alphabet_tag) { int_vector<> v(T.n-1,0,64); for (uint64_t i=0;i+1<T.n;++i) v[i]=T.t[i]; util::bit_compress(v); construct_im(c,v); }
template<class C> void go(Drv& D, const Text& T, uint64_t maxc, const char* nm) {
    C csa; mk(csa,T,typename C::alphabet_category()); std::string d=STR(nm<<" "<<T.d);
    typedef typename C::size_type S; typedef typename C::char_type Ch; CHECK(csa.size()==T.n, "size "<<d);
    auto sym=[&]{ return D.r(4)?T.syms[D.r(T.sigma)]:D.r(maxc+1); };
    for (int k=0;k<60;++k) {
        S l=D.r(T.n), r=l+D.r(T.n-l); if (D.r(5)==0) { l=0; r=T.n-1; } if (D.r(6)==0) r=T.n-1; uint64_t c=sym(); S a=77,b=77;
        uint64_t cnt=T.rank(r+1,c)-T.rank(l,c); auto g=backward_search(csa,l,r,(Ch)c,a,b);
        CHECK(g==cnt, "backward_search ["<<l<<","<<r<<"] "<<c<<" returns "<<g<<" instead of "<<cnt<<" "<<d);
        if (T.has(c)) { uint64_t cb=T.C[T.comp(c)]; CHECK(a==cb+T.rank(l,c) && b+1==cb+T.rank(r+1,c), "backward_search ["<<l<<","<<r<<"] "<<c<<" gives ["<<a<<","<<b<<"] "<<d); } else CHECK(b+1==a && a<=T.n, "absent character "<<c<<" gives ["<<a<<","<<b<<"] "<<d);
    }
    for (int k=0;k<25;++k) {
        VV p; uint64_t m=D.r(3)?D.r(7):D.r(40), s=D.r(T.n); for (uint64_t i=0;i<m && s+i<T.n-1;++i) p.push_back(T.t[s+i]); if (D.r(4)==0 && p.size()) p[D.r(p.size())]=sym(); if (D.r(8)==0) p.push_back(sym()); if (D.r(30)==0) while (p.size()<=T.n+D.r(2)) p.push_back(T.syms[D.r(T.sigma)]);
        { auto z=std::find(p.begin(),p.end(),0); if (z!=p.end()) p.erase(z+1,p.end()); } // the sentinel only ends a pattern
        std::string pd; for (auto x: p) pd+=STR(" "<<x); std::vector<Ch> q(p.begin(),p.end()); auto w=T.iv(p); uint64_t cnt=w.second-w.first; S a=5,b=5;
        auto g=backward_search(csa,0,csa.size()-1,q.begin(),q.end(),a,b); CHECK(g==cnt, "backward_search of"<<pd<<" returns "<<g<<" instead of "<<cnt<<" "<<d);
        if (cnt) CHECK(a==w.first && b+1==w.second, "interval of"<<pd<<" is ["<<a<<","<<b<<"] "<<d); else CHECK(b+1==a && a<=T.n, "empty interval of"<<pd<<" is ["<<a<<","<<b<<"] "<<d);
        CHECK(count(csa,q.begin(),q.end())==cnt, "count of"<<pd<<" "<<d);
        auto lx=lex_interval(csa,q.begin(),q.end()); CHECK(lx[1]+1-lx[0]==cnt && (!cnt || lx[0]==w.first), "lex_interval of"<<pd<<" "<<d);
        if (p.size() < T.n && !std::count(p.begin(),p.end(),0)) { S L=D.r(T.n), R=L+D.r(T.n-L); if (D.r(2)) { L=0; R=T.n-1; } S fa=9,fb=9; uint64_t wl=std::max<uint64_t>(L,w.first), wr=std::min<uint64_t>(R+1,w.second), fc=wr>wl?wr-wl:0;
            g=forward_search(csa,L,R,q.begin(),q.end(),fa,fb); CHECK(g==fc, "forward_search of"<<pd<<" in ["<<L<<","<<R<<"] returns "<<g<<" instead of "<<fc<<" "<<d); if (fc) CHECK(fa==wl && fb+1==wr, "forward_search of"<<pd<<" in ["<<L<<","<<R<<"] gives ["<<fa<<","<<fb<<"] "<<d); }
        auto oc=locate(csa,q.begin(),q.end()); CHECK(oc.size()==cnt,"locate count of"<<pd<<" "<<d); std::vector<uint64_t> o(oc.begin(),oc.end()), e(T.sa.begin()+w.first,T.sa.begin()+w.second); std::sort(o.begin(),o.end()); std::sort(e.begin(),e.end()); CHECK(o==e,"locate of"<<pd<<" "<<d);
    }
}
template<class C> void bi(Drv& D, const Text& T, const char* nm) {
    C f,b; mk(f,T,typename C::alphabet_category()); Text R; R.t.assign(T.t.begin(),T.t.end()-1); std::reverse(R.t.begin(),R.t.end()); R.t.push_back(0); R.fill(); mk(b,R,typename C::alphabet_category()); std::string d=STR(nm<<" "<<T.d);
    typedef typename C::char_type Ch;
    for (int k=0;k<25;++k) {
        VV p; uint64_t l1=0,r1=T.n-1,l2=0,r2=T.n-1; uint64_t s=D.r(T.n), m=D.r(8); std::string pd;
        for (uint64_t i=0;i<m;++i) {
            bool back=D.r(2); uint64_t c=T.syms[D.r(T.sigma)]; if (p.size() && D.r(4)) { auto w=T.iv(p); uint64_t q=T.sa[w.first+D.r(w.second-w.first)]; c= back ? (q?T.t[q-1]:c) : (q+p.size()<T.n?T.t[q+p.size()]:c); } if (!c) continue;
            pd+=STR(" "<<(back?"<":">")<<c); uint64_t a1,b1,a2,b2,g;
            if (D.r(2)) { Ch x[1]={(Ch)c}; g = back ? bidirectional_search_backward(f,b,l1,r1,l2,r2,x,x+1,a1,b1,a2,b2) : bidirectional_search_forward(f,b,l1,r1,l2,r2,x,x+1,a1,b1,a2,b2); }
            else g = back ? bidirectional_search(f,l1,r1,l2,r2,(Ch)c,a1,b1,a2,b2) : bidirectional_search(b,l2,r2,l1,r1,(Ch)c,a2,b2,a1,b1);
            if (back) p.insert(p.begin(),c); else p.push_back(c); VV q(p.rbegin(),p.rend()); auto w=T.iv(p), v=R.iv(q); uint64_t cnt=w.second-w.first;
            CHECK(g==cnt, "bidirectional search"<<pd<<" returns "<<g<<" instead of "<<cnt<<" "<<d); if (!cnt) break;
            CHECK(a1==w.first && b1+1==w.second && a2==v.first && b2+1==v.second, "bidirectional search"<<pd<<" gives ["<<a1<<","<<b1<<"] ["<<a2<<","<<b2<<"] "<<d); l1=a1;r1=b1;l2=a2;r2=b2; }
        (void)s;
    }
}
int main(int c, char** a) {
    Drv D(c,a);
    while (D.more()) {
        Text T=text(D,255); printf("CASE %s\n", T.d.substr(0,200).c_str()); D.count(T.d);
        switch (D.r(4)) { case 0: go<csa_wt<>>(D,T,255,"csa_wt<>"); break; case 1: go<csa_sada<>>(D,T,255,"csa_sada<>"); break; case 2: go<csa_bitcompressed<>>(D,T,255,"csa_bitcompressed<>"); break; default: go<csa_wt<wt_blcd<>,4,4>>(D,T,255,"csa_wt<wt_blcd>"); }
        bi<csa_wt<wt_blcd<>>>(D,T,"csa_wt<wt_blcd>"); bi<csa_wt<wt_hutu<>>>(D,T,"csa_wt<wt_hutu>");
        Text I=text(D,D.r(2)?1000:30,60); printf("CASE %s\n", I.d.substr(0,200).c_str()); D.count(I.d);
        switch (D.r(2)) { case 0: go<csa_wt<wt_int<>,8,8,sa_order_sa_sampling<>,isa_sampling<>,int_alphabet<>>>(D,I,1100,"csa_wt<wt_int>"); break; default: go<csa_sada<enc_vector<>,8,8,sa_order_sa_sampling<>,isa_sampling<>,int_alphabet<>>>(D,I,1100,"csa_sada int"); }
    }
    return D.done();
}
