#include "bits.hpp"
#include <sdsl/rank_support.hpp>
using namespace sdsl;
template<class R> void one(Drv& D, const bit_vector& b, int pat, int len, const char* name, const std::string& d){
    uint64_t n=b.size(); std::string q=STR(name<<" "<<d); R r(&b);
    auto occ=[&](uint64_t i)->bool { if(len==1) return b[i]==(pat==1); if(i==0) return false; bool x=b[i-1],y=b[i]; return pat==10?(x&&!y):pat==1?(!x&&y):pat==11?(x&&y):(!x&&!y); };
    auto check=[&](const R& s, const char* how){ uint64_t c=0; CHECK(s.size()==n,q<<" "<<how<<" size()"); for(uint64_t i=0;i<=n;++i){ uint64_t g=s.rank(i); CHECK(g==c,q<<" "<<how<<" rank("<<i<<")="<<g<<" want "<<c); if((i&15)==0) CHECK(s(i)==c,q<<" "<<how<<" operator()"); if(i<n&&occ(i)) ++c; } };
    check(r,"constructed"); const rank_support& vs=r; CHECK(vs.rank(n)==r.rank(n),q<<" virtual");
    switch(D.r(7)){
        case 0: { R c(r); check(c,"copied"); break; } case 1: { bit_vector o(300,1); R c(&o); c=r; check(c,"assigned"); break; }
        case 2: { R c(std::move(r)); check(c,"moved"); break; } case 3: { bit_vector o(700,1); R c(&o); c=std::move(r); check(c,"move assigned"); break; }
        case 4: { bit_vector b2(b); R c(r); c.set_vector(&b2); check(c,"set_vector"); break; }
        case 5: { std::stringstream s; r.serialize(s,nullptr,""); R c; c.load(s,&b); check(c,"loaded"); break; }
        default: { R c(&b), e; e.set_vector(&b); c.swap(e); c.set_vector(&b); e.set_vector(&b); check(e,"swapped"); } } }
#define ALL(B,L) one<rank_support_v<B,L>>(D,b,B,L,"rank_support_v<" #B "," #L ">",d); one<rank_support_v5<B,L>>(D,b,B,L,"rank_support_v5<" #B "," #L ">",d); if(n<3000) one<rank_support_scan<B,L>>(D,b,B,L,"rank_support_scan<" #B "," #L ">",d);
int main(int c,char**a){
    Drv D(c,a);
    { bit_vector b(1<<22,1); for(uint64_t i=0;i<b.size();i+=3) b[i]=0; rank_support_v<> r(&b); rank_support_v5<> s(&b); CHECK(r(b.size())==b.size()-(b.size()+2)/3&&s(b.size())==r(b.size()),"long vector"); }
    while(D.more()){
        std::string d; uint64_t n=rlen(D); bit_vector b=rbits(D,n,d); D.count(d);
        ALL(1,1) ALL(0,1) ALL(10,2) ALL(01,2) ALL(11,2) ALL(00,2)
    }
    return D.done();
}
