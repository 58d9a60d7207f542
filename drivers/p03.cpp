#include "common.hpp"
#include <sdsl/int_vector.hpp>
#include <algorithm>
using namespace sdsl;
typedef std::vector<uint64_t> M;
static inline uint64_t msk(int w){ return w==64?~0ULL:((1ULL<<w)-1); }
template<class V> void all(Drv& D, V& v, const M& m, int w, const std::string& d){
    CHECK(v.size()==m.size(),d<<" size "<<v.size());
    const V& cv=v;
    for(size_t i=0;i<m.size();++i){ CHECK((uint64_t)cv[i]==m[i],d<<" const [] at "<<i<<" got "<<(uint64_t)cv[i]<<" want "<<m[i]); CHECK((uint64_t)v[i]==m[i],d<<" [] at "<<i<<" got "<<(uint64_t)v[i]<<" want "<<m[i]); }
    size_t k=0; for(auto it=cv.begin();it!=cv.end();++it,++k) { CHECK(k<m.size()&&(uint64_t)*it==m[k],d<<" const iteration at "<<k); } CHECK(k==m.size(),d<<" const iteration length "<<k);
    k=0; for(auto it=v.begin();it!=v.end();it++,++k) { CHECK(k<m.size()&&(uint64_t)*it==m[k],d<<" iteration at "<<k); } CHECK(k==m.size(),d<<" iteration length "<<k);
    k=m.size(); if(k){ auto it=cv.end(); while(it!=cv.begin()){ --it; --k; CHECK((uint64_t)*it==m[k],d<<" backward iteration at "<<k); } }
}
template<class It> void iters(Drv& D, It b, It e, const M& m, const std::string& d){
    int64_t n=m.size(); CHECK((int64_t)(e-b)==n,d<<" end-begin "<<(int64_t)(e-b)<<" want "<<n);
    for(int t=0;t<30;++t){ int64_t i=D.r(n+1), j=D.r(n+1); It x=b+i, y=e; y-=(n-j); std::string q=STR(d<<" i="<<i<<" j="<<j);
        CHECK((int64_t)(x-y)==i-j,"iterator difference "<<q<<" got "<<(int64_t)(x-y)); CHECK((x<y)==(i<j)&&(x>y)==(i>j)&&(x<=y)==(i<=j)&&(x>=y)==(i>=j)&&(x==y)==(i==j)&&(x!=y)==(i!=j),"iterator comparison "<<q);
        It z=x; z+=(j-i); CHECK(z==y,"+= "<<q); z-=(j-i); CHECK(z==x,"-= "<<q); CHECK(x+(j-i)==y,"+ "<<q); CHECK((j-i)+x==y,"n+it "<<q); CHECK(x-(i-j)==y,"- "<<q);
        if(j<n){ CHECK((uint64_t)x[j-i]==m[j],"it[d] "<<q<<" got "<<(uint64_t)x[j-i]<<" want "<<m[j]); CHECK((uint64_t)*y==m[j],"*it "<<q); It u=y; It o=u++; CHECK(o==y&&u==b+(j+1),"it++ "<<q); }
        if(j>0){ It u=y; It o=u--; CHECK(o==y&&u==b+(j-1),"it-- "<<q); } }
}
template<class V> void rmw(Drv& D, V& v, M& m, int w, const std::string& d){
    size_t n=m.size(); uint64_t K=msk(w);
    for(int t=0;t<40;++t){ size_t i=D.r(n), j=D.r(n); uint64_t x=D.word(); std::string q=STR(d<<" i="<<i<<" j="<<j<<" x="<<x);
        switch(D.r(10)){
            case 0: v[i]=x; m[i]=x&K; break;
            case 1: ++v[i]; m[i]=(m[i]+1)&K; break;
            case 2: { uint64_t o=v[i]++; CHECK(o==m[i],"post ++ "<<q<<" got "<<o); m[i]=(m[i]+1)&K; break; }
            case 3: --v[i]; m[i]=(m[i]-1)&K; break;
            case 4: { uint64_t o=v[i]--; CHECK(o==m[i],"post -- "<<q<<" got "<<o); m[i]=(m[i]-1)&K; break; }
            case 5: v[i]+=x; m[i]=(m[i]+x)&K; break;
            case 6: v[i]-=x; m[i]=(m[i]-x)&K; break;
            case 7: v[i]=v[j]; m[i]=m[j]; break;
            case 8: { using std::swap; swap(v[i],v[j]); std::swap(m[i],m[j]); break; }
            default: CHECK((v[i]==v[j])==(m[i]==m[j])&&(v[i]<v[j])==(m[i]<m[j]),"reference comparison "<<q);
        }
        CHECK((uint64_t)v[i]==m[i]&&(uint64_t)v[j]==m[j],q<<" after update got "<<(uint64_t)v[i]<<","<<(uint64_t)v[j]<<" want "<<m[i]<<","<<m[j]); }
}
static void bitrmw(Drv& D, bit_vector& v, M& m, const std::string& d){
    size_t n=m.size();
    for(int t=0;t<40;++t){ size_t i=D.r(n), j=D.r(n); std::string q=STR(d<<" i="<<i<<" j="<<j);
        switch(D.r(6)){ case 0: { bool b=D.r(2); v[i]=b; m[i]=b; break; } case 1: v[i]=v[j]; m[i]=m[j]; break; case 2: { swap(v[i],v[j]); std::swap(m[i],m[j]); break; }
            case 3: { bool b=D.r(2); uint64_t o=m[i]; m[i]=b; if(D.r(2)) swap(v[i],b); else swap(b,v[i]); CHECK(b==(bool)o,"swap bool "<<q); break; }
            default: CHECK((v[i]==v[j])==(m[i]==m[j])&&(v[i]<v[j])==(m[i]<m[j]),"bit reference comparison "<<q); }
        CHECK((uint64_t)v[i]==m[i]&&(uint64_t)v[j]==m[j],q<<" after update"); }
}
template<class V> void common(Drv& D, V& v, M& m, int w, const std::string& d){
    all(D,v,m,w,d); const V& cv=v; iters(D,cv.begin(),cv.end(),m,d+" const_iterator"); iters(D,v.begin(),v.end(),m,d+" iterator");
    uint64_t bits=m.size()*(uint64_t)w; CHECK(v.bit_size()==bits&&v.capacity()==(bits+63)/64*64&&v.empty()==(bits==0)&&v.width()==w,d<<" bit_size/capacity/empty/width");
    for(int t=0;t<20&&bits;++t){ uint64_t p=D.r(bits); int l=1+D.r(std::min<uint64_t>(64,bits-p)); uint64_t f=0; for(int b=0;b<l;++b){ uint64_t q=p+b; f|=((m[q/w]>>(q%w))&1)<<b; }
        CHECK(cv.get_int(p,l)==(typename V::value_type)f,d<<" get_int("<<p<<","<<l<<") got "<<(uint64_t)cv.get_int(p,l)<<" want "<<f);
        uint64_t x=D.word(); if(w==0) x=0; if(sizeof(typename V::value_type)<8) continue; v.set_int(p,x,l); for(int b=0;b<l;++b){ uint64_t q=p+b; m[q/w]=(m[q/w]&~(1ULL<<(q%w)))|(((x>>b)&1)<<(q%w)); } }
    all(D,v,m,w,d+" after set_int");
}
static M fill(Drv& D, size_t n, int w){ M m(n); int k=D.r(3); for(auto&x:m) x=(k==0?D.word():k==1?D.r():(D.r(2)?~0ULL:0))&msk(w); return m; }
template<int W> void fixed(Drv& D, size_t n){
    M m=fill(D,n,W); std::string d=STR("int_vector<"<<W<<"> n="<<n<<" seed="<<D.s); D.count(d); int_vector<W> v(n); for(size_t i=0;i<n;++i) v[i]=m[i];
    common(D,v,m,W,d);
}
template<int W> void fixedr(Drv& D, size_t n){
    M m=fill(D,n,W); std::string d=STR("int_vector<"<<W<<"> rmw n="<<n<<" seed="<<D.s); int_vector<W> v(n); for(size_t i=0;i<n;++i) v[i]=m[i]; if(n) rmw(D,v,m,W,d); all(D,v,m,W,d+" after updates");
}
int main(int c,char**a){
    Drv D(c,a);
    { // vectors longer than 2^32 bits would be too slow; large indices in the sanitised run are left out
        for(int w: {1,7,64}) { size_t n=(1<<20)/w*8+3; int_vector<> v(n,0,w); v[n-1]=1; v[n-2]=0; v[n/2]=1; CHECK(v[n-1]==1&&v[n/2]==1&&v[n-2]==0&&v[0]==0,"large vector width "<<w); { const int_vector<>& cv=v; CHECK((size_t)(cv.end()-cv.begin())==n,"large vector length"); } } }
    while(D.more()){
        size_t n=D.r(4)?D.r(70):D.r(400); int w=1+D.r(64);
        { M m=fill(D,n,w); std::string d=STR("int_vector<0> width="<<w<<" n="<<n<<" seed="<<D.s); D.count(d); int_vector<> v(n,0,w); for(size_t i=0;i<n;++i) v[i]=m[i];
          common(D,v,m,w,d); if(n) rmw(D,v,m,w,d); all(D,v,m,w,d+" after updates");
          if(n){ uint64_t x=D.word(); size_t i=D.r(n); uint64_t o=m[i]; m[i]=x&msk(w); if(D.r(2)) swap(v[i],x); else swap(x,v[i]); CHECK(x==o,d<<" swap with a value"); all(D,v,m,w,d+" after swap"); }
          int_vector<>::const_iterator ci(v.begin()); CHECK(ci==((const int_vector<>&)v).begin(),d<<" iterator conversion"); }
        switch(D.r(9)){ case 0: { fixed<1>(D,n); bit_vector b(n); M m=fill(D,n,1); for(size_t i=0;i<n;++i) b[i]=m[i]; if(n) bitrmw(D,b,m,STR("bit_vector n="<<n<<" seed="<<D.s)); all(D,b,m,1,"bit_vector after updates"); break; }
            case 1: fixed<3>(D,n); fixedr<3>(D,n); break; case 2: fixed<8>(D,n); fixedr<8>(D,n); break; case 3: fixed<13>(D,n); fixedr<13>(D,n); break; case 4: fixed<16>(D,n); fixedr<16>(D,n); break;
            case 5: fixed<32>(D,n); fixedr<32>(D,n); break; case 6: fixed<33>(D,n); fixedr<33>(D,n); break; case 7: fixed<63>(D,n); fixedr<63>(D,n); break; default: fixed<64>(D,n); fixedr<64>(D,n); }
    }
    return D.done();
}
