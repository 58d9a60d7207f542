// wide integers (class version and the one over native 128-bit integers) against 32-bit limb arithmetic
#include "common.hpp"
#include <iostream>
#include <sdsl/bits.hpp>
#define MODE_TI
#define uint128_t ti128
#define uint256_t ti256
#include <sdsl/uint256_t.hpp>
#include <../lib/uint128_t.cpp>
#include <../lib/uint256_t.cpp>
#undef uint128_t
#undef uint256_t
#undef MODE_TI
#undef INCLUDED_SDSL_UINT128
#undef INCLUDED_SDSL_UINT256
#include <sdsl/uint256_t.hpp>
using namespace sdsl;
typedef std::vector<uint64_t> V;     // little endian words
template<class T> struct mk;
template<> struct mk<uint128_t> { static const int n=2; static uint128_t to(const V& v){ return uint128_t(v[0],v[1]); } };
template<> struct mk<ti128> { static const int n=2; static ti128 to(const V& v){ return ((ti128)v[1]<<64)|v[0]; } };
template<> struct mk<uint256_t> { static const int n=4; static uint256_t to(const V& v){ return uint256_t(v[0],v[1],uint128_t(v[2],v[3])); } };
template<> struct mk<ti256> { static const int n=4; static ti256 to(const V& v){ return ti256(v[0],v[1],((ti128)v[3]<<64)|v[2]); } };
template<class T> V un(const T& x) { V v(mk<T>::n); memcpy(v.data(), &x, 8*mk<T>::n); return v; }
std::string hex(const V& v) { std::string s; char b[20]; for (size_t k=v.size(); k-->0;) { sprintf(b,"%016llx",(unsigned long long)v[k]); s+=b; } return s; }
V add(const V& a, const V& b, bool neg=false) {
    V r(a.size()); unsigned long long c = neg;
    for (size_t k=0; k<a.size(); ++k) for (int h=0; h<2; ++h) {
        unsigned long long x = (a[k]>>(32*h))&0xFFFFFFFFULL, y = ((neg?~b[k]:b[k])>>(32*h))&0xFFFFFFFFULL, s = x+y+c; r[k] |= (s&0xFFFFFFFFULL)<<(32*h); c = s>>32; }
    return r;
}
bool gb(const V& a, long i) { return i>=0 && i<(long)(64*a.size()) && (a[i/64]>>(i%64)&1); }
V sh(const V& a, long s) { V r(a.size()); for (long i=0; i<(long)(64*a.size()); ++i) if (gb(a,i-s)) r[i/64] |= 1ULL<<(i%64); return r; }
int cmp(const V& a, const V& b) { for (size_t k=a.size(); k-->0;) if (a[k]!=b[k]) return a[k]<b[k]?-1:1; return 0; }
V rnd(Drv& D, int n) { V v(n); for (auto& x: v) x=D.word(); return v; }
template<class T> void arith(Drv& D, const char* nm, int maxshift) {
    const int n = mk<T>::n;
    V a=rnd(D,n), b=D.r(8)?rnd(D,n):a; if (!D.r(6)) { b=a; b[D.r(n)]^=1ULL<<D.r(64); }
    D.count(STR(nm<<" "<<hex(a)<<" "<<hex(b)));
    T x=mk<T>::to(a), y=mk<T>::to(b); T t=x;
#define Q(e, v, what) do { V g_ = un<T>(e); V w_ = (v); if (g_!=w_) D.fail(STR(nm<<" "<<what<<" a="<<hex(a)<<" b="<<hex(b)<<" gives "<<hex(g_)<<" instead of "<<hex(w_))); } while(0)
    Q(x+y, add(a,b), "a+b"); Q(x-y, add(a,b,true), "a-b"); t=x; t+=y; Q(t, add(a,b), "a+=b"); t=x; t-=y; Q(t, add(a,b,true), "a-=b");
    V o(n), d(n); for (int k=0;k<n;++k) { o[k]=a[k]|b[k]; d[k]=a[k]&b[k]; }
    Q(x|y, o, "a|b"); Q(x&y, d, "a&b"); t=x; t|=y; Q(t,o,"a|=b");
    int s = D.r(3) ? D.r(maxshift+1) : (int[]){0,1,63,64,65,127,128,129,191,192,255}[D.r(11)]; if (s>maxshift) s=maxshift;
    Q(x<<s, sh(a,s), "a<<"<<s); Q(x>>s, sh(a,-s), "a>>"<<s);
    Q(x<<0, a, "a<<0"); Q(x>>0, a, "a>>0");
    int c=cmp(a,b);
    CHECK((x==y)==(c==0) && (x!=y)==(c!=0) && (x<y)==(c<0) && (x>y)==(c>0) && (x<=y)==(c<=0) && (x>=y)==(c>=0), nm<<" comparison of "<<hex(a)<<" and "<<hex(b)<<" wrong: ==,!=,<,>,<=,>= are "<<(x==y)<<(x!=y)<<(x<y)<<(x>y)<<(x<=y)<<(x>=y));
    uint64_t u=b[0]; V uv(n); uv[0]=u; bool g=cmp(a,uv)>0;
    CHECK((x>u)==g, nm<<" a>uint64 a="<<hex(a)<<" u="<<u); t=x; t=u; Q(t, uv, "a=uint64"); CHECK((uint64_t)x==a[0], nm<<" conversion to uint64 of "<<hex(a));
    T m=x; T m2(std::move(m)); Q(m2,a,"move"); T m3; m3=std::move(m2); Q(m3,a,"move assignment"); T m4(x); Q(m4,a,"copy");
    std::ostringstream os; os << x; if (sizeof(T)==32 || true) CHECK(os.str()==hex(a), nm<<" printing "<<hex(a)<<" gives "<<os.str());
}
template<class T> void count(Drv& D, const char* nm) {
    const int n = mk<T>::n; V a=rnd(D,n); if (!D.r(3)) { a.assign(n,0); a[D.r(n)]=D.word(); }
    D.count(STR(nm<<" count "<<hex(a))); T x=mk<T>::to(a); unsigned p=0; int h=0; std::vector<int> pos;
    for (int i=0;i<64*n;++i) if (gb(a,i)) { ++p; h=i; pos.push_back(i); }
    CHECK(x.popcount()==p, nm<<" popcount of "<<hex(a)<<" is "<<x.popcount()<<" instead of "<<p); CHECK(x.hi()==h, nm<<" hi of "<<hex(a)<<" is "<<x.hi()<<" instead of "<<h);
    for (unsigned i=1; i<=p; ++i) CHECK(x.select(i)==pos[i-1], nm<<" select("<<i<<") of "<<hex(a)<<" is "<<x.select(i)<<" instead of "<<pos[i-1]);
}
namespace std { }
int main(int c, char** v) {
    Drv D(c,v);
    for (long it=0; D.more(); ++it) {
        arith<uint128_t>(D,"uint128_t (class)",128); arith<uint256_t>(D,"uint256_t (class)",255);
        arith<ti256>(D,"uint256_t (native)",255);
        { V a=rnd(D,2); ti128 x=mk<ti128>::to(a); std::ostringstream os; os << x; CHECK(os.str()==hex(a), "uint128_t (native) printing "<<hex(a)<<" gives "<<os.str()); }
        { V a=rnd(D,2), w(2); uint64_t u=w[0]=D.word(); uint128_t x=mk<uint128_t>::to(a); V o=a; o[0]|=u; V n_={~a[0],~a[1]};
          CHECK(un(x+u)==add(a,w), "uint128_t+uint64 "<<hex(a)<<" "<<u); CHECK(un(x|u)==o, "uint128_t|uint64 "<<hex(a)<<" "<<u); uint128_t t=x; t+=u; CHECK(un(t)==add(a,w), "uint128_t+=uint64 "<<hex(a)<<" "<<u);
          CHECK(un(~x)==n_, "~uint128_t "<<hex(a)); CHECK((x==u)==(a==w), "uint128_t==uint64 "<<hex(a)); }
        if (it%4==0) { count<uint128_t>(D,"uint128_t"); count<uint256_t>(D,"uint256_t (class)"); count<ti256>(D,"uint256_t (native)"); }
    }
    return D.done();
}
