#include "bvfam.hpp"
#include <sdsl/sd_vector.hpp>
typedef sd_vector<> SD; typedef sd_vector<rrr_vector<63>> SDR; typedef sd_vector<bit_vector,select_support_mcl<1>,select_support_scan<0>> SDS; typedef sd_vector<bit_vector_il<512>> SDI;
// builder and sorted list: same vector as from the bits (the list form has length last+1)
template<class S> void built(Drv& D, const bit_vector& b, const std::string& q, const char* nm){
    Truth t(b); std::string d=q+" "+nm;
    if(t.n>0){ sd_vector_builder s(t.n,t.one.size()); CHECK(s.size()==t.n&&s.capacity()==t.one.size()&&s.items()==0&&s.tail()==0,d<<" builder state"); uint64_t k=0; for(uint64_t p: t.one){ s.set(p); ++k; CHECK(s.items()==k&&s.tail()==p+1,d<<" builder items/tail"); }
        S v(s); full<S,typename S::rank_1_type,typename S::rank_0_type,typename S::select_1_type,typename S::select_0_type>(D,t,v,d+" from builder");
        CHECK(s.items()==0&&s.capacity()==0&&s.size()==0,d<<" builder not cleared"); }
    if(t.n&&t.one.size()){ S v(t.one.begin(),t.one.end()); bit_vector c(b); c.resize(t.one.back()+1); Truth t2(c); full<S,typename S::rank_1_type,typename S::rank_0_type,typename S::select_1_type,typename S::select_0_type>(D,t2,v,d+" from list");
        if(t.one.size()>1){ std::vector<uint64_t> w(t.one); std::swap(w[0],w[w.size()-1]); bool th=false; try{ S x(w.begin(),w.end()); } catch(const std::runtime_error&){ th=true; } CHECK(th,d<<" unsorted list accepted"); }
        if(t.one.size()>1){ sd_vector_builder s(t.n,t.one.size()); for(uint64_t i=0;i+1<t.one.size();++i) s.set(t.one[i]); bool th=false; try{ S x(s); } catch(const std::runtime_error&){ th=true; } CHECK(th,d<<" partly filled builder accepted"); } } }
int main(int c,char**a){
    Drv D(c,a); { bool th=false; try{ sd_vector_builder s(5,6); } catch(const std::runtime_error&){ th=true; } CHECK(th,"builder capacity > size accepted"); }
    for(uint64_t k=0;D.more();++k){
        std::string d; uint64_t n=rlen(D,4000); bit_vector b=rbits(D,n,d); 
        if(k%23==22){ n=1+D.r(1ULL<<22); b=bit_vector(n,0); uint64_t m=D.r(300); for(uint64_t i=0;i<m;++i) b[D.r(n)]=1; if(D.r(2)) { uint64_t p=D.r(n); for(uint64_t i=0;i<500&&p+i<n;++i) b[p+i]=1; } d=STR("sparse n="<<n<<" m="<<m<<" k="<<k); }
        D.count(d);
        family<SD>(D,b,"sd_vector<>",d); 
        switch(D.r(5)){ case 0: family<SDR>(D,b,"sd_vector<rrr>",d); break; case 1: if(n<5000) family<SDS>(D,b,"sd_vector<scan>",d); break; case 2: family<SDI>(D,b,"sd_vector<il>",d); break;
            case 3: family<SD,SD::rank_1_type,SD::rank_0_type,SD::select_1_type,select_0_support_sd<SD>>(D,b,"sd_vector<> select_0_support_sd",d); break; default: break; }
        built<SD>(D,b,d,"sd_vector<>"); if(D.r(4)==0) built<SDR>(D,b,d,"sd_vector<rrr>"); if(D.r(4)==0) built<SDI>(D,b,d,"sd_vector<il>");
    }
    return D.done(); }
