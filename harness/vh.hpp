// Shared runtime of all monitors: PRNG, trace of the running case (survives a crash because it
// lives in a file mapping), violation reporting, statistics and the monitored allocator.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <map>
#include <string>
#include <vector>
#include <unordered_set>
#include <unordered_map>
#include <algorithm>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int64_t i64; typedef int32_t i32;

struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s(seed) { next(); next(); }
    u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
                 z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    u64 range(u64 a, u64 b) { return a + below(b - a + 1); }        // inclusive
    bool chance(u32 num, u32 den) { return below(den) < num; }
    template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
    u8 byte() { return (u8)(next() >> 24); }
};

inline u64 mix64(u64 a, u64 b) { Rng r(a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15)); return r.next(); }
inline u64 hash_bytes(const void* p, size_t n, u64 h = 0xcbf29ce484222325ull) {
    const u8* b = (const u8*)p; for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 0x100000001b3ull; } return h; }
inline u64 hash_str(const std::string& s) { return hash_bytes(s.data(), s.size()); }

// ---- trace -------------------------------------------------------------------------------------
struct TraceMap { volatile u64 case_idx; volatile u64 in_case; volatile u64 len; volatile u64 ops; char text[1]; };
extern TraceMap* g_tr;
extern u64 g_tr_cap;
extern u64 g_trace_hash;       // running hash of everything traced in this case
void trace_begin(u64 idx);
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// ---- violations --------------------------------------------------------------------------------
[[noreturn]] void violation(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void harness_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
#define REQ(cond, key, ...) do { if (!(cond)) violation(key, __VA_ARGS__); } while (0)

// ---- statistics --------------------------------------------------------------------------------
struct Stats {
    std::map<std::string, u64> cnt;
    std::unordered_set<u64> distinct;     // distinct non-trivial cases
    std::unordered_set<u64> states;       // distinct observed abstract states
    std::vector<std::string> samples;
    u64 evals = 0;
};
extern Stats g_st;
inline u64& ctr(const char* n) { return g_st.cnt[n]; }
#define COUNT(n) do { static u64& c_ = g_st.cnt[n]; ++c_; } while (0)
#define COUNTN(n, k) do { static u64& c_ = g_st.cnt[n]; c_ += (k); } while (0)
inline void saw_state(u64 h) { if (g_st.states.size() < 200000) g_st.states.insert(h); }

extern u64 g_seed; extern bool g_thorough; extern u64 g_total_cases; extern bool g_verbose;

// ---- to be provided by the property module -----------------------------------------------------
// Runs case `idx`; returns true if the case is non-trivial (counted as distinct by its trace hash).
bool prop_case(u64 idx, Rng& rng);
void prop_begin();
void prop_end();

#ifdef ZYCORE_ALLOCATOR_H
#error "include vh.hpp before Zycore headers"
#endif
