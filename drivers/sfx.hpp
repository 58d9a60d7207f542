// texts with their naive suffix array, BWT, psi, LF, LCP (shared by the drivers of the text indexes)
#pragma once
#include "common.hpp"
#include <algorithm>
#include <numeric>
typedef std::vector<uint64_t> VV;
struct Text {                         // t ends with a unique 0
    VV t, sa, isa, bwt, psi, lf, lcp, plcp, C, syms; std::string d; uint64_t n, sigma;
    uint64_t comp(uint64_t c) const { return std::lower_bound(syms.begin(),syms.end(),c)-syms.begin(); }
    bool has(uint64_t c) const { return std::binary_search(syms.begin(),syms.end(),c); }
    void fill() {
        n=t.size(); sa.resize(n); isa.resize(n); bwt.resize(n); psi.resize(n); lf.resize(n); lcp.assign(n,0); plcp.assign(n,0);
        // prefix doubling
        std::iota(sa.begin(),sa.end(),0); VV rk(t), tmp(n);
        for (uint64_t k=0;;k=k?2*k:1) {
            auto key=[&](uint64_t i){ return std::make_pair(rk[i], k? (i+k<n?rk[i+k]+1:0) : 0); };
            std::sort(sa.begin(),sa.end(),[&](uint64_t a, uint64_t b){ return key(a)<key(b); });
            if (n) tmp[sa[0]]=0; for (uint64_t i=1;i<n;++i) tmp[sa[i]]=tmp[sa[i-1]]+(key(sa[i-1])<key(sa[i]));
            rk=tmp; if (!n || rk[sa[n-1]]==n-1) break; }
        for (uint64_t i=0;i<n;++i) isa[sa[i]]=i;
        for (uint64_t i=0;i<n;++i) { bwt[i]=t[sa[i]?sa[i]-1:n-1]; psi[i]=isa[(sa[i]+1)%n]; lf[i]=isa[sa[i]?sa[i]-1:n-1]; }
        for (uint64_t i=0,h=0;i<n;++i) { if (!isa[i]) { h=0; continue; } uint64_t j=sa[isa[i]-1]; while (i+h<n && j+h<n && t[i+h]==t[j+h]) ++h; lcp[isa[i]]=h; plcp[i]=h; if (h) --h; }
        syms=t; std::sort(syms.begin(),syms.end()); C.assign(1,0); VV s2; for (uint64_t i=0;i<n;++i) { if (s2.empty()||s2.back()!=syms[i]) { if (i) C.push_back(i); s2.push_back(syms[i]); } } C.push_back(n); syms=s2; sigma=syms.size();
    }
    uint64_t rank(uint64_t i, uint64_t c) const { uint64_t k=0; for (uint64_t j=0;j<i;++j) k+=bwt[j]==c; return k; }
    // interval [l,r) of the suffixes starting with p
    std::pair<uint64_t,uint64_t> iv(const VV& p) const {
        auto cmp=[&](uint64_t s){ for (uint64_t k=0;k<p.size();++k) { if (s+k>=n) return -1; if (t[s+k]!=p[k]) return t[s+k]<p[k]?-1:1; } return 0; };
        uint64_t l=0; while (l<n && cmp(sa[l])<0) ++l; uint64_t r=l; while (r<n && cmp(sa[r])==0) ++r; return {l,r}; }
};
inline Text text(Drv& D, uint64_t maxsym, uint64_t maxn=120) {
    Text T; uint64_t n=D.r(8)==0?D.r(4):D.r(6)==0?D.r(5*maxn):D.r(maxn); int kind=D.r(9); uint64_t a=1+D.r(D.r(3)?4:maxsym), base=D.r(3)?(maxsym<200?1:D.r(2)?97:1):1+D.r(maxsym); if (base+a>maxsym) base=maxsym-a+1; if (base<1) base=1;
    VV f1{1}, f2{1,2}; for (uint64_t i=0;i<n;++i) { uint64_t c=0; switch (kind) {
        case 0: c=base; break; case 1: c=base+i%a; break; case 2: c=base+D.r(a); break; case 3: c=base+(D.r(10)?0:D.r(a)); break;
        case 4: { while (f2.size()<=i) { VV g=f2; g.insert(g.end(),f1.begin(),f1.end()); f1=f2; f2=g; } c=base+(f2[i]-1)*(a>1); break; }
        case 5: c=base+(i<(n+1)/2?D.r(a):T.t[i-(n+1)/2]-base); break; case 6: c=1+D.r(maxsym); break; case 7: c=D.r(2)?1:maxsym; break; default: c=base+std::min<uint64_t>(a-1,(i/7)%a); } T.t.push_back(c); }
    T.t.push_back(0); T.d=STR("text kind="<<kind<<" n="<<n+1<<" state="<<D.s<<" :"); for (uint64_t i=0;i<=n&&i<150;++i) T.d+=STR(" "<<T.t[i]); T.fill(); return T; }
