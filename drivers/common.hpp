// shared by the native drivers: seeded random numbers, time budget, failure reporting
#pragma once
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <set>
#include <sstream>
#include <string>
#include <vector>
struct Drv {
    uint64_t s; double secs; std::chrono::steady_clock::time_point t0; uint64_t cases, distinct; std::set<uint64_t> seen; int samples;
    Drv(int c, char** v): s(c>1?strtoull(v[1],0,10):1), secs(c>2?atof(v[2]):5), t0(std::chrono::steady_clock::now()), cases(0), distinct(0), samples(0) {
        s = s*0x9E3779B97F4A7C15ULL + 88172645463325252ULL; setvbuf(stdout,0,_IOLBF,4096);
    }
    uint64_t r() { s ^= s<<13; s ^= s>>7; s ^= s<<17; return s*0x2545F4914F6CDD1DULL; }
    uint64_t r(uint64_t n) { return n ? r()%n : 0; }          // [0..n)
    // words that are interesting: sparse, dense, runs, extremes
    uint64_t word() {
        switch (r(10)) {
            case 0: return 0; case 1: return ~0ULL; case 2: return 1ULL<<r(64); case 3: return ~(1ULL<<r(64));
            case 4: return r()&r()&r()&r(); case 5: return r()|r()|r()|r(); case 6: { int k=r(65); return k==64?~0ULL:((1ULL<<k)-1); }
            case 7: { int k=r(65); return k==64?~0ULL:~((1ULL<<k)-1); } case 8: return r()&r(); default: return r(); }
    }
    double left() { return secs - std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(); }
    bool more() { return left() > 0; }
    bool more(double frac) { return left() > secs*(1-frac); }  // until frac of the budget is used
    void count(const std::string& d) {
        ++cases; uint64_t h=1469598103934665603ULL; for (char c: d) { h^=(unsigned char)c; h*=1099511628211ULL; }
        if (seen.size()<2000000 && seen.insert(h).second) ++distinct;
        if (samples<3) { ++samples; printf("SAMPLE %s\n", d.substr(0,300).c_str()); }
    }
    void fail(const std::string& d) { printf("FAIL %s\n", d.substr(0,4000).c_str()); printf("CASES %llu DISTINCT %llu\n",(unsigned long long)cases,(unsigned long long)distinct); fflush(stdout); exit(1); }
    int done() { printf("CASES %llu DISTINCT %llu\n",(unsigned long long)cases,(unsigned long long)distinct); return 0; }
};
#define STR(x) ([&]{ std::ostringstream os_; os_ << x; return os_.str(); }())
#define CHECK(c, msg) do { if (!(c)) D.fail(STR(msg)); } while (0)
