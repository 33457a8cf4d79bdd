// Test cases, scenarios and the executing interface between driver and scenarios.
#pragma once
#include "simrt.h"
#include <map>
#include <string>
#include <vector>

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) {}
    uint64_t next()
    {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t) (next() % (uint64_t) (hi - lo + 1)); }
    bool chance(int num, int den) { return (int64_t) (next() % (uint64_t) den) < num; }
    double unit() { return (double) (next() >> 11) / 9007199254740992.0; }
    template <typename T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
};

struct Op {
    int tid = 0;
    int code = 0;
    int64_t a[8] = {0, 0, 0, 0, 0, 0, 0, 0};
};

struct Case {
    std::string scenario;
    uint64_t seed = 0;
    int faults = 0; // fault-injecting configuration?
    std::map<std::string, int64_t> p;
    std::vector<Op> ops;
    SimHeapCfg heap;
    SimIoCfg io;
    SimSchedCfg sched;
    std::vector<SimSchedEnt> explicit_sched;
    bool use_explicit = false;
    int64_t get(const char* k, int64_t d = 0) const
    {
        auto it = p.find(k);
        return it == p.end() ? d : it->second;
    }
    std::string text() const;
    static Case parse(const char* s);
};

struct RunCtx {
    const Case& c;
    int phase;
    const SimResult* const* prev; // results of the earlier phases
};

struct Scenario {
    const char* name;
    const char* what;
    std::vector<const char*> op_names;
    void (*generate)(Rng&, Case&);
    int (*phases)(const Case&); // number of phases (processes)
    void (*body)(const RunCtx&);
    int sched_phase; // the phase whose schedule is searched
    std::vector<const char*> probes;
    // parameters the minimiser may try to set to zero
    std::vector<const char*> shrink;
};

struct RegisterScenario {
    static std::vector<const Scenario*>& all();
    explicit RegisterScenario(const Scenario* s) { all().push_back(s); }
};

// common generation helpers
void gen_heap(Rng& r, Case& c);
void gen_sched(Rng& r, Case& c, bool single_task = false);

// serialisation of results
struct OutBuf {
    std::vector<unsigned char> b;
    void u8(uint8_t v) { b.push_back(v); }
    void u32(uint32_t v) { raw(&v, 4); }
    void u64(uint64_t v) { raw(&v, 8); }
    void f64(double v) { raw(&v, 8); }
    void str(const std::string& s)
    {
        u32((uint32_t) s.size());
        raw(s.data(), s.size());
    }
    void raw(const void* p, size_t n)
    {
        auto* q = (const unsigned char*) p;
        b.insert(b.end(), q, q + n);
    }
};
struct InBuf {
    const unsigned char* p;
    const unsigned char* e;
    InBuf(const void* q, size_t n) : p((const unsigned char*) q), e(p + n) {}
    void raw(void* d, size_t n)
    {
        if ((size_t) (e - p) < n) sim_error("result buffer underrun");
        __builtin_memcpy(d, p, n);
        p += n;
    }
    uint8_t u8() { uint8_t v; raw(&v, 1); return v; }
    uint32_t u32() { uint32_t v; raw(&v, 4); return v; }
    uint64_t u64() { uint64_t v; raw(&v, 8); return v; }
    double f64() { double v; raw(&v, 8); return v; }
    std::string str()
    {
        uint32_t n = u32();
        std::string s(n, '\0');
        if (n) raw(&s[0], n);
        return s;
    }
    bool done() const { return p == e; }
};
