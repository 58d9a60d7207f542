#include "bvfam.hpp"
template<class V> void one(Drv& D, const bit_vector& b, const char* nm, const std::string& d){ family<V>(D,b,nm,d); }
typedef int_vector<> IV0;
#define R(B,K) one<rrr_vector<B,IV0,K>>(D,b,"rrr_vector<" #B ",int_vector<>," #K ">",d);
int main(int c,char**a){
    Drv D(c,a);
    for(uint64_t k=0;D.more();++k){
        std::string d; uint64_t n=rlen(D,3000); bit_vector b=rbits(D,n,d); D.count(d);
        switch(k%6){
        case 0: R(63,32) R(15,32) R(3,2) R(64,5) break;
        case 1: R(15,8) R(15,32) R(31,7) R(127,16) R(7,32) break;
        case 2: R(255,32) R(256,3) R(63,8) break;
        case 3: R(129,4) R(191,5) R(62,32) R(15,5) break;
        case 4: R(63,2) R(16,3) R(128,32) R(192,32) break;
        default: R(65,9) R(33,64) R(5,6) R(15,64) break; } }
    return D.done(); }
