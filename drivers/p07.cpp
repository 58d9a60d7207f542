#include "bits.hpp"
#include <sdsl/select_support.hpp>
using namespace sdsl;
typedef std::vector<uint64_t> P;
static P occs(const bit_vector& b, int pat, int len){ P r; for(uint64_t i=0;i<b.size();++i){ bool o; if(len==1) o=(b[i]==(pat==1)); else { if(i==0) continue; bool x=b[i-1],y=b[i]; o=pat==10?(x&&!y):pat==1?(!x&&y):pat==11?(x&&y):(!x&&!y); } if(o) r.push_back(i); } return r; }
template<class S> void check(Drv& D, const S& s, const P& p, const std::string& q, const char* how){
    uint64_t n=p.size(), step=n>20000?1+n/20000:1;
    for(uint64_t i=0;i<n;i+=1+(step>1?D.r(2*step):0)){ uint64_t g=s.select(i+1); CHECK(g==p[i],q<<" "<<how<<" select("<<i+1<<")="<<g<<" want "<<p[i]<<" of "<<n); if((i&31)==0) CHECK(s(i+1)==p[i],q<<" "<<how<<" operator()"); }
    if(n) CHECK(s.select(n)==p[n-1],q<<" "<<how<<" last select="<<s.select(n)<<" want "<<p[n-1]); }
template<class S> void one(Drv& D, const bit_vector& b, int pat, int len, const char* name, const std::string& d){
    P p=occs(b,pat,len); std::string q=STR(name<<" "<<d); S s(&b); check(D,s,p,q,"constructed");
    switch(D.r(8)){
        case 0: { S c(s); check(D,c,p,q,"copied"); check(D,s,p,q,"source of copy"); break; }
        case 1: { bit_vector o(5000,1); S c(&o); c=s; check(D,c,p,q,"assigned"); break; }
        case 2: { S c(std::move(s)); check(D,c,p,q,"moved"); break; }
        case 3: { bit_vector o(9000,0); o[5]=o[6]=o[8999]=1; S c(&o); c=std::move(s); check(D,c,p,q,"move assigned"); break; }
        case 4: { bit_vector b2(b); S c(s); c.set_vector(&b2); check(D,c,p,q,"set_vector"); break; }
        case 5: case 6: { std::stringstream o; s.serialize(o,nullptr,""); S c; c.load(o,&b); check(D,c,p,q,"loaded"); S e(c); check(D,e,p,q,"copy of loaded"); std::stringstream o2; e.serialize(o2,nullptr,""); CHECK(o.str()==o2.str(),q<<" serialization of the loaded copy differs"); break; }
        default: { S c(&b), e; e.swap(c); e.set_vector(&b); check(D,e,p,q,"swapped"); } } }
#define MCL(B,L) one<select_support_mcl<B,L>>(D,b,B,L,"select_support_mcl<" #B "," #L ">",d);
#define SCAN(B,L) if(n<5000) one<select_support_scan<B,L>>(D,b,B,L,"select_support_scan<" #B "," #L ">",d);
static void all(Drv& D, const bit_vector& b, const std::string& d){
    uint64_t n=b.size(); D.count(d);
    MCL(1,1) MCL(0,1) MCL(10,2) MCL(01,2) MCL(11,2) MCL(00,2) SCAN(1,1) SCAN(0,1) SCAN(10,2) SCAN(01,2) SCAN(00,2)
}
int main(int c,char**a){
    Drv D(c,a); int big=0;
    while(D.more()){
        std::string d; uint64_t n=rlen(D); bit_vector b=rbits(D,n,d); all(D,b,d);
        if(D.r(40)==0||big<2){ ++big; // vectors beyond 100000 bits use the other construction; long superblocks need sparse ones
            uint64_t m=100000+D.r(3)*64+D.r(130000); b=bit_vector(m,0); int k=D.r(5); uint64_t v=(k&1); d=STR("long vector n="<<m<<" kind="<<k<<" state="<<D.s);
            if(k<2) { b=bit_vector(m,v); for(uint64_t i=0;i<4100;++i) b[D.r(m)]=!v; } else if(k==2){ uint64_t i=D.r(3000); for(uint64_t j=0;j<4096+D.r(200)&&i<m;++j,i+=1+D.r(12)) b[i]=1; b[m-1]=1; }
            else if(k==3){ for(uint64_t i=0;i<m;++i) b[i]=(i/5000)%2?D.r(2):D.r(300)==0; } else { for(uint64_t i=0;i<m;++i) b[i]=D.r(3)==0; }
            all(D,b,d); }
        if(D.r(15)==0||big<6){ ++big; // block ends next to powers of two: entry widths are tight
            static const uint64_t J0[]={0,63,64,4031,4032,4033,4095,4096,4097,8128,8191}; uint64_t J=J0[1+D.r(10)], base=D.r(3)?0:D.r(5000), T=(1ULL<<(13+D.r(6)))-1-D.r(3); std::vector<uint64_t> p;
            if(D.r(3)==0){ T+=base; } else if(base>=T) base=0;
            uint64_t last=0; if(T<J+base) T=J+base; for(uint64_t i=0;i<=J;++i) p.push_back(last=base+(unsigned __int128)i*(T-base)/J); uint64_t g=1+D.r(D.r(2)?4:150), e=D.r(3)?D.r(200):D.r(5000); while(e--&&last<900000) p.push_back(last+=g);
            uint64_t m=last+1+D.r(70); if(D.r(3)) m=std::max<uint64_t>(m,100001+D.r(300000)); b=bit_vector(m,0); for(auto x:p) b[x]=1; if(D.r(6)==0) b[m-1]=1; d=STR("tight vector n="<<m<<" J="<<J<<" base="<<base<<" T="<<T<<" gap="<<g<<" state="<<D.s); D.count(d);
            if(D.r(4)==0) b.flip();
            MCL(1,1) MCL(0,1) if(D.r(3)==0){ MCL(10,2) MCL(01,2) } }
        if(D.r(150)==0){ uint64_t m=1500000+D.r(1000); b=bit_vector(m,0); for(uint64_t i=0;i<4096+D.r(3);++i) b[i<4096?(i*330+D.r(300)):m-1-D.r(50000)]=1; d=STR("sparse long vector n="<<m<<" state="<<D.s); D.count(d);
            one<select_support_mcl<1,1>>(D,b,1,1,"select_support_mcl<1,1>",d); one<select_support_mcl<10,2>>(D,b,10,2,"select_support_mcl<10,2>",d); }
    }
    return D.done();
}
