// plan.h - plans: the text form of one simulated execution
#pragma once
#include <stdint.h>
#include <string>
#include <utility>
#include <vector>

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) {}
    uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int a, int b) { return a + (int) below(b - a + 1); }
    bool chance(int pct) { return (int) below(100) < pct; }
    uint32_t frac() { return below(1000000); }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

inline uint64_t hash64(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ull) {
    const unsigned char* c = (const unsigned char*) p;
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 0x100000001b3ull; }
    h ^= h >> 32; h *= 0x9e3779b97f4a7c15ull; h ^= h >> 29;
    return h;
}
inline uint64_t hash64(const std::string& s, uint64_t h = 0xcbf29ce484222325ull) { return hash64(s.data(), s.size(), h ^ (s.size() * 31)); }
inline uint64_t comb(uint64_t a, uint64_t b) { uint64_t x[2] = {a, b}; return hash64(x, 16); }

struct Op {
    std::string name;
    std::vector<std::pair<std::string, std::string>> kv;
    Op() {}
    explicit Op(const std::string& n) : name(n) {}
    Op& add(const std::string& k, const std::string& v) { kv.emplace_back(k, v); return *this; }
    Op& add(const std::string& k, long long v) { return add(k, std::to_string(v)); }
    const std::string* find(const std::string& k) const { for (auto& p : kv) if (p.first == k) return &p.second; return nullptr; }
    std::string str(const std::string& k, const std::string& d = "") const { auto p = find(k); return p ? *p : d; }
    long long num(const std::string& k, long long d = 0) const { auto p = find(k); return p ? atoll(p->c_str()) : d; }
    std::vector<std::string> all(const std::string& k) const { std::vector<std::string> r; for (auto& p : kv) if (p.first == k) r.push_back(p.second); return r; }
};

struct Plan {
    std::string prop; uint64_t seed = 0;
    std::vector<Op> ops;
    std::string text() const;
    bool parse(const std::string& t);
};

std::string esc(const std::string&);
std::string unesc(const std::string&);

// generators (gen.cc)
Plan genPlan(const std::string& prop, uint64_t seed);

// "seed:n:len" - n entries with data of about len bytes, for dictionaries too big to be spelt out
std::vector<std::pair<std::string, std::string>> bulkEntries(const std::string& spec);
std::vector<std::string> massWords(const std::string& spec);       // "seed:from:count"
