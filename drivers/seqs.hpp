// sequences for the drivers of the wavelet trees
#pragma once
#include "common.hpp"
#include <algorithm>
#include <map>
typedef std::vector<uint64_t> VV;
struct Seq { VV v, syms; std::string d; uint64_t n;
    uint64_t rank(uint64_t i, uint64_t c) const { return std::count(v.begin(),v.begin()+i,c); }
    uint64_t sel(uint64_t k, uint64_t c) const { for (uint64_t j=0;j<n;++j) if (v[j]==c && !--k) return j; return n; }
    bool has(uint64_t c) const { return std::binary_search(syms.begin(),syms.end(),c); } };
inline Seq seq(Drv& D, uint64_t maxsym, uint64_t maxn=200) {
    Seq S; S.n = D.r(10)==0 ? 1+D.r(3) : D.r(6)==0 ? 1+D.r(4*maxn) : 1+D.r(maxn); int kind=D.r(8), ak=D.r(6); VV al; uint64_t a=1+D.r(D.r(2)?5:ak==5?300:40);
    for (uint64_t i=0;i<a;++i) switch (ak) { case 0: al.push_back(std::min(maxsym,i)); break; case 1: al.push_back(maxsym-std::min(maxsym,i)); break; case 2: { uint64_t b=maxsym/2+i; al.push_back(std::min(maxsym,b)); break; }
        case 3: al.push_back(std::min(maxsym,D.word())); break; case 4: al.push_back(i&1?maxsym-std::min(maxsym,i/2):std::min(maxsym,i)); break; default: al.push_back(maxsym==~0ULL?D.r():D.r(maxsym+1)); }
    for (uint64_t i=0;i<S.n;++i) { uint64_t x; switch (kind) { case 0: x=i%a; break; case 1: x=D.r(a); break; case 2: x=D.r(10)?0:D.r(a); break; case 3: x=(i/9)%a; break; case 4: x=(a-1)-i*a/S.n; break; case 5: x=std::min<uint64_t>(a-1,__builtin_ctzll(D.r()|1ULL<<40)); break; case 6: x=D.r(5)?i?~0ULL:0:D.r(a); break; default: x=i*a/S.n; }
        S.v.push_back(x==~0ULL?S.v[i-1]:al[x]); }
    S.syms=S.v; std::sort(S.syms.begin(),S.syms.end()); S.syms.erase(std::unique(S.syms.begin(),S.syms.end()),S.syms.end());
    S.d=STR("sequence kind="<<kind<<" alphabet="<<ak<<" n="<<S.n<<" sigma="<<S.syms.size()<<" state="<<D.s<<" :"); for (uint64_t i=0;i<S.n&&i<120;++i) S.d+=STR(" "<<S.v[i]); return S; }
// symbols worth asking for: those of the sequence and the ones around them
inline VV probes(Drv& D, const Seq& S, uint64_t maxsym) { VV q; for (auto c: S.syms) { q.push_back(c); if (c) q.push_back(c-1); if (c<maxsym) q.push_back(c+1); } q.push_back(0); q.push_back(maxsym); q.push_back(maxsym==~0ULL?D.r():D.r(maxsym+1)); std::sort(q.begin(),q.end()); q.erase(std::unique(q.begin(),q.end()),q.end()); while (q.size()>60) q.erase(q.begin()+D.r(q.size())); return q; }
