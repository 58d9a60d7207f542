#include "common.hpp"
#include <sdsl/int_vector.hpp>
#include <algorithm>
using namespace sdsl;
typedef std::vector<uint64_t> M;
static inline uint64_t msk(int w){ return w==64?~0ULL:((1ULL<<w)-1); }
template<class V> void same(Drv& D, const V& v, const M& m, int w, const std::string& d){
    CHECK(v.size()==m.size(),d<<": size "<<v.size()<<" want "<<m.size()); CHECK(v.width()==w,d<<": width "<<(int)v.width()<<" want "<<w);
    CHECK(v.bit_size()==m.size()*(uint64_t)w,d<<": bit_size "<<v.bit_size());
    for(size_t i=0;i<m.size();++i) CHECK((uint64_t)v[i]==m[i],d<<": element "<<i<<" is "<<(uint64_t)v[i]<<" want "<<m[i]);
    // the padding word that rank structures read has to be allocated (checked by the sanitised build)
    if(v.data()){ volatile uint64_t x=v.data()[v.bit_size()>>6]; (void)x; }
}
static M fill(Drv& D, size_t n, int w){ M m(n); int k=D.r(4); uint64_t c=D.word(); for(auto&x:m) x=(k==0?D.word():k==1?D.r():k==2?c:(D.r(2)?~0ULL:0))&msk(w); return m; }
template<class V> V mk(const M& m, int w){ V v(m.size(),0,w); for(size_t i=0;i<m.size();++i) v[i]=m[i]; return v; }
// dirty: unused bits behind the last element
template<class V> void dirty(Drv& D, V& v){ uint64_t b=v.bit_size()&63; if(b && D.r(2)){ uint64_t g=D.r(); v.data()[v.bit_size()>>6]=(v.data()[v.bit_size()>>6]&((1ULL<<b)-1))|(g<<b); } }
static int cmp(const M& a, const M& b){ return a<b?-1:(b<a?1:0); }
template<class V> void life(Drv& D, size_t n, int w, const char* nm){
    M m=fill(D,n,w); std::string d=STR(nm<<" width="<<w<<" n="<<n<<" seed="<<D.s); D.count(d);
    V v=mk<V>(m,w); same(D,v,m,w,d+" after construction");
    for(int t=0;t<6;++t){ size_t k=D.r(3)?D.r(2*n+3):(D.r(8)*64/w); size_t o=m.size(); dirty(D,v); v.resize(k); m.resize(k); for(size_t i=o;i<k;++i){ uint64_t x=D.word()&msk(w); v[i]=x; m[i]=x; } same(D,v,m,w,STR(d<<" after resize "<<o<<"->"<<k)); }
    { V c(v); same(D,c,m,w,d+" copy"); same(D,v,m,w,d+" copied"); if(m.size()){ c[0]=~(uint64_t)c[0]; same(D,v,m,w,d+" original after the copy changed"); } }
    { M m2=fill(D,D.r(2*n+2),w); V c=mk<V>(m2,w); c=v; same(D,c,m,w,d+" copy assignment"); V& cr=c; c=cr; same(D,c,m,w,d+" self assignment"); same(D,v,m,w,d+" source of the assignment");
      M m3=fill(D,D.r(90),w); V e=mk<V>(m3,w); e.swap(c); same(D,e,m,w,d+" swap a"); same(D,c,m3,w,d+" swap b"); e.swap(e); same(D,e,m,w,d+" self swap");
      V g(std::move(e)); same(D,g,m,w,d+" move construction"); CHECK(e.size()==0&&e.empty(),d<<" moved-from vector not empty"); V h=mk<V>(m3,w); h=std::move(g); same(D,h,m,w,d+" move assignment"); e=h; same(D,e,m,w,d+" assignment to a moved-from vector"); }
    { uint64_t x=D.word(); V f(m.size(),x,w); same(D,f,M(m.size(),x&msk(w)),w,STR(d<<" construction with value "<<x)); uint64_t y=D.word()&msk(w); dirty(D,f); util::set_to_value(f,y); same(D,f,M(m.size(),y),w,STR(d<<" set_to_value "<<y));
      V z(m.size(),0,w); same(D,z,M(m.size(),0),w,d+" zero construction"); if(w<64){ util::set_to_value(f,msk(w)); same(D,f,M(m.size(),msk(w)),w,d+" set_to_value all ones"); }
      util::set_to_value(f,0); same(D,f,M(m.size(),0),w,d+" set_to_value 0"); util::set_to_id(f); M id(m.size()); for(size_t i=0;i<id.size();++i) id[i]=(w==1&&V::fixed_int_width==1)?(i!=0):(i&msk(w)); same(D,f,id,w,d+" set_to_id");
      util::_set_one_bits(f); same(D,f,M(m.size(),msk(w)),w,d+" _set_one_bits"); util::_set_zero_bits(f); same(D,f,M(m.size(),0),w,d+" _set_zero_bits");
      V q(v); uint64_t mod=1+D.r()%1000; util::mod(q,mod); M mm(m); for(auto& u:mm) u%=mod; same(D,q,mm,w,STR(d<<" mod "<<mod)); }
    { M a=m, b=fill(D,m.size(),w); V x=mk<V>(a,w), y=mk<V>(b,w); dirty(D,x); dirty(D,y); V p(x); p&=y; M r(a); for(size_t i=0;i<a.size();++i) r[i]=a[i]&b[i]; same(D,p,r,w,d+" &="); p=x; p|=y; for(size_t i=0;i<a.size();++i) r[i]=a[i]|b[i]; same(D,p,r,w,d+" |="); p=x; p^=y; for(size_t i=0;i<a.size();++i) r[i]=a[i]^b[i]; same(D,p,r,w,d+" ^="); same(D,y,b,w,d+" right operand"); }
    for(int t=0;t<4;++t){ M b=m; if(D.r(3)==0&&b.size()) b[D.r(b.size())]^=1ULL<<D.r(w); if(D.r(4)==0) b.resize(D.r(b.size()+1)); if(D.r(4)==0) b.push_back(D.word()&msk(w)); if(D.r(5)==0&&b.size()) b.back()^=1ULL<<D.r(w);
      V x=mk<V>(m,w), y=mk<V>(b,w); dirty(D,x); dirty(D,y); int c=cmp(m,b); std::string q=STR(d<<" compared with a vector of size "<<b.size()<<" order "<<c);
      CHECK((x==y)==(c==0),"== "<<q); CHECK((x!=y)==(c!=0),"!= "<<q); CHECK((x<y)==(c<0),"< "<<q); CHECK((x>y)==(c>0),"> "<<q); CHECK((x<=y)==(c<=0),"<= "<<q); CHECK((x>=y)==(c>=0),">= "<<q); }
}
int main(int c,char**a){
    Drv D(c,a);
    while(D.more()){
        size_t n=D.r(4)?D.r(150):(D.r(3)?64*D.r(5):D.r(1500)); int w=1+D.r(64);
        life<int_vector<0>>(D,n,w,"int_vector<0>");
        switch(D.r(7)){ case 0: case 1: { life<bit_vector>(D,n,1,"bit_vector"); M m=fill(D,n,1); bit_vector b=mk<bit_vector>(m,1); dirty(D,b); b.flip(); for(auto& x:m) x^=1; same(D,b,m,1,STR("flip of a bit_vector of "<<n<<" bits")); bit_vector u(n,1); same(D,u,M(n,1),1,"bit_vector(n,1)"); break; }
            case 2: life<int_vector<8>>(D,n,8,"int_vector<8>"); break; case 3: life<int_vector<16>>(D,n,16,"int_vector<16>"); break; case 4: life<int_vector<32>>(D,n,32,"int_vector<32>"); break; case 5: life<int_vector<64>>(D,n,64,"int_vector<64>"); break; default: life<int_vector<5>>(D,n,5,"int_vector<5>"); }
        { // vectors of different widths
            int w2=1+D.r(64); M m=fill(D,n,w), q=fill(D,D.r(100),w2); if(D.r(2)&&w2>=w) q=m; int_vector<> x=mk<int_vector<>>(m,w), y=mk<int_vector<>>(q,w2); std::string d=STR("widths "<<w<<" and "<<w2<<" sizes "<<n<<","<<q.size()); D.count(d);
            CHECK((x<y)==(m<q),"< "<<d); CHECK((x>y)==(q<m),"> "<<d); if(w==w2||n!=q.size()||n==0) CHECK(n==0&&q.size()==0?true:(x==y)==(m==q&&w==w2),"== "<<d);
            int_vector<> z(x); z=y; same(D,z,q,w2,"assignment changes the width, "+d); y.swap(x); same(D,y,m,w,"swap of "+d); same(D,x,q,w2,"swap of "+d); x=std::move(y); same(D,x,m,w,"move of "+d); }
        { // equal bit patterns in different widths are different vectors
            uint64_t b=8*(1+D.r(40)); int_vector<> x(b/4,5,4), y(b/8,0x55,8); CHECK(!(x==y)&&(x!=y),"== of "<<b<<" equal bits as widths 4 and 8"); }
        { M m=fill(D,n,w); if(D.r(2)) for(auto& x:m) x&=msk(1+D.r(w)); std::string d=STR("width "<<w<<" n="<<n<<" seed="<<D.s); int_vector<> v=mk<int_vector<>>(m,w); uint64_t mx=0; for(auto x:m) mx=std::max(mx,x); int nw=1; while(nw<64&&(mx>>nw)) ++nw; util::bit_compress(v); same(D,v,m,std::min(w,nw),"bit_compress "+d);
          int ew=v.width()+D.r(65-v.width()); util::expand_width(v,ew); same(D,v,m,ew,STR("expand_width "<<ew<<" "<<d)); }
        { int_vector<> v({(uint64_t)1,(uint64_t)2,(uint64_t)3,(uint64_t)n}); CHECK(v.size()==4&&v[0]==1&&v[3]==n,"initializer list"); bit_vector b({1,0,1}); CHECK(b.size()==3&&b[0]==1&&b[1]==0&&b[2]==1,"bit_vector initializer list"); }
    }
    return D.done();
}
