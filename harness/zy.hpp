// Zycore headers for C++ harnesses and the monitored allocator.
#pragma once
#include "vh.hpp"
#include <Zycore/Allocator.h>
#include <Zycore/ArgParse.h>
#include <Zycore/Bitset.h>
#include <Zycore/Format.h>
#include <Zycore/List.h>
#include <Zycore/String.h>
#include <Zycore/Vector.h>

static const u64 UMAX = (ZyanUSize)-1, UTOP = UMAX / 2 + 1;   // largest index, its highest bit

inline const char* st_name(ZyanStatus s) {
    switch (s) {
    case ZYAN_STATUS_SUCCESS: return "SUCCESS"; case ZYAN_STATUS_FAILED: return "FAILED";
    case ZYAN_STATUS_TRUE: return "TRUE"; case ZYAN_STATUS_FALSE: return "FALSE";
    case ZYAN_STATUS_INVALID_ARGUMENT: return "INVALID_ARGUMENT"; case ZYAN_STATUS_INVALID_OPERATION: return "INVALID_OPERATION";
    case ZYAN_STATUS_OUT_OF_RANGE: return "OUT_OF_RANGE"; case ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE: return "INSUFFICIENT_BUFFER_SIZE";
    case ZYAN_STATUS_NOT_ENOUGH_MEMORY: return "NOT_ENOUGH_MEMORY"; case ZYAN_STATUS_OUT_OF_RESOURCES: return "OUT_OF_RESOURCES";
    case ZYAN_STATUS_BAD_SYSTEMCALL: return "BAD_SYSTEMCALL"; case ZYAN_STATUS_ACCESS_DENIED: return "ACCESS_DENIED"; }
    static char b[4][24]; static int k; k = (k + 1) & 3; snprintf(b[k], 24, "0x%08X", s); return b[k];
}

// Status used for injected failures (allocator requests, constructors, byte operations): proves that *that* failure is reported. It differs from
// case to case, so that a status that is treated specially is met as well.
inline ZyanStatus odd_failure(u64 salt) {
    static const ZyanStatus pool[] = { ZYAN_MAKE_STATUS(1u, ZYAN_MODULE_USER, 0x4242u), ZYAN_STATUS_NOT_ENOUGH_MEMORY, ZYAN_STATUS_OUT_OF_RESOURCES, ZYAN_STATUS_FAILED, ZYAN_STATUS_INVALID_ARGUMENT, ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE,
        ZYAN_STATUS_INVALID_OPERATION, ZYAN_STATUS_OUT_OF_RANGE, ZYAN_STATUS_NOT_FOUND, ZYAN_STATUS_ACCESS_DENIED, ZYAN_MAKE_STATUS(1u, ZYAN_MODULE_USER, 0u), 0xFFFFFFFFu, 0x80000000u, ZYAN_MAKE_STATUS(1u, ZYAN_MODULE_USER + 7, 1u) };
    u64 k = mix64(g_tr->case_idx, salt); return pool[k % 3 ? (k / 3) % (sizeof pool / sizeof *pool) : 0];
}
// Success is any status without the failure flag.
inline ZyanStatus odd_success(u64 salt) { static const ZyanStatus pool[] = { ZYAN_STATUS_TRUE, ZYAN_STATUS_FALSE, ZYAN_MAKE_STATUS(0u, ZYAN_MODULE_USER, 0x11u), 0x7FFFFFFFu, 1u }; return pool[mix64(g_tr->case_idx, salt) % (sizeof pool / sizeof *pool)]; }
#define INJECTED_STATUS odd_failure(0x4242u)

// Called by the monitors' callbacks (see nested.hpp).
typedef void (*CallbackHook)();
inline CallbackHook& callback_hook() { static CallbackHook h; return h; }
inline void in_callback() { if (callback_hook()) callback_hook()(); }

// Memory that comes back: in half of the cases released blocks are handed out again at once for requests of the same size (with the
// sanitizer's poison in between), so that different contents appear at the same address - the quarantine of the sanitizer would prevent that.
#if defined(__SANITIZE_ADDRESS__)
#define VH_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VH_ASAN 1
#endif
#endif
#ifdef VH_ASAN
#include <sanitizer/asan_interface.h>
#endif
struct Recycler {
    std::unordered_map<size_t, std::vector<void*>> pool; u64 cur = ~0ull; bool on = false;
    static void mark(void* p, size_t n, bool bad) { (void)p; (void)n; (void)bad;
#ifdef VH_ASAN
        if (bad) __asan_poison_memory_region(p, n); else __asan_unpoison_memory_region(p, n);
#endif
    }
    // In a quarter of the cases bytes and texts start at odd addresses (a canary in front of them); `al` is the alignment the contents need.
    std::unordered_map<void*, u8> shifted; u64 seq = 0; bool skew = false;
    void release(void* p, size_t n) { mark(p, n, false); auto it = shifted.find(p); if (it == shifted.end()) { free(p); return; } u8* b = (u8*)p - it->second; for (u8* c = b; c < (u8*)p; ++c) if (*c != 0xC5) violation("underrun", "byte %d in front of a block of %zu bytes was overwritten", (int)((u8*)p - c), n); shifted.erase(it); free(b); }
    void enter() { if (g_tr->case_idx == cur) return; for (auto& l : pool) for (void* p : l.second) release(p, l.first >> 5); pool.clear(); cur = g_tr->case_idx; seq = 0; on = mix64(cur, 0x5EC) & 1; skew = mix64(cur, 0xA11) % 4 == 0; }
    void* fresh(size_t n, size_t al) { if (!skew || al >= 16) return malloc(n ? n : 1); u8 off = (u8)(mix64(cur, ++seq * 77) % 16 / al * al); if (!off) return malloc(n ? n : 1);
        u8* b = (u8*)malloc(n + off); if (!b) return b; memset(b, 0xC5, off); shifted[b + off] = off; ++moved(); return b + off; }
    void* get(size_t n, size_t al = 16) { enter(); if (on) { auto it = pool.find(n << 5 | al); if (it != pool.end() && !it->second.empty()) { void* p = it->second.back(); it->second.pop_back(); mark(p, n, false); ++reused(); return p; } } return fresh(n, al); }
    void put(void* p, size_t n, size_t al = 16) { enter(); if (!p) return; if (!on || !n || n > (1u << 16)) { release(p, n); return; } auto& l = pool[n << 5 | al]; if (l.size() >= 64) { release(p, n); return; } mark(p, n, true); l.push_back(p); }
    static u64& moved() { static u64 n; return n; }
    static u64& reused() { static u64 n; return n; }
};
inline Recycler& recycler() { static Recycler* r = new Recycler; return *r; }

struct BlockInfo { ZyanUSize es, n; u64 serial; };

// Allocator that records every request, hands out exact-size heap blocks (red zones by ASan), fills
// fresh memory with changing garbage, always moves on reallocate and can fail chosen requests.
struct MonAlloc {
    ZyanAllocator base;             // must be first
    u64 magic = 0x4D4F4E414C4C4F43ull;
    std::unordered_map<void*, BlockInfo> live;
    u64 n_alloc = 0, n_realloc = 0, n_free = 0, serial = 0, failed = 0;
    u64 last_n = 0, last_es = 0; void* last_p = nullptr;
    i64 fail_at = -1;               // fail the request with this number (0-based, counted in `req`)
    bool fail_persist = false;      // ... and all following ones
    u64 req = 0;
    bool fail_all = false;
    ZyanStatus ok_status = ZYAN_STATUS_SUCCESS;   // what satisfied requests report
    ZyanUSize cap_bytes = 1u << 26; // larger requests fail as lack of memory
    bool in_place = false;          // reallocate may keep the address
    u8 fill = 0xA5;
    const char* name = "A";

    static MonAlloc* self(ZyanAllocator* a) {
        MonAlloc* m = (MonAlloc*)a;
        if (!m || m->magic != 0x4D4F4E414C4C4F43ull) violation("alloc-foreign", "allocator callback called with a foreign allocator object");
        return m;
    }
    bool should_fail() {
        u64 r = req++;
        if (fail_all) return true;
        if (fail_at >= 0 && ((i64)r == fail_at || (fail_persist && (i64)r > fail_at))) return true;
        return false;
    }
    ZyanStatus do_alloc(void** p, ZyanUSize es, ZyanUSize n) {
        in_callback();
        if (!p) violation("alloc-null-out", "allocate called without result pointer");
        if (!es || !n) violation("alloc-zero", "allocate called with element size %zu count %zu", (size_t)es, (size_t)n);
        if (should_fail()) { ++failed; return INJECTED_STATUS; }
        if (n > cap_bytes / es) { ++failed; return ZYAN_STATUS_NOT_ENOUGH_MEMORY; }
        void* q = recycler().get(es * n, es == 1 ? 1 : 16); if (!q) harness_error("malloc failed");
        fill = (u8)(fill * 5 + 0x33); memset(q, fill, es * n);
        live[q] = BlockInfo{es, n, ++serial};
        *p = q; ++n_alloc; last_n = n; last_es = es; last_p = q;
        return ok_status;
    }
    static ZyanStatus s_alloc(ZyanAllocator* a, void** p, ZyanUSize es, ZyanUSize n) { return self(a)->do_alloc(p, es, n); }
    static ZyanStatus s_realloc(ZyanAllocator* a, void** p, ZyanUSize es, ZyanUSize n) {
        MonAlloc* m = self(a); in_callback();
        if (!p || !*p) violation("realloc-null", "reallocate called without block");
        auto it = m->live.find(*p);
        if (it == m->live.end()) violation("realloc-foreign", "allocator %s: reallocate of a block it does not own", m->name);
        if (!es || !n) violation("realloc-zero", "reallocate called with element size %zu count %zu", (size_t)es, (size_t)n);
        if (es != it->second.es) violation("realloc-es", "reallocate with element size %zu, block was obtained with %zu", (size_t)es, (size_t)it->second.es);
        if (m->should_fail()) { ++m->failed; return INJECTED_STATUS; }
        if (n > m->cap_bytes / es) { ++m->failed; return ZYAN_STATUS_NOT_ENOUGH_MEMORY; }
        ZyanUSize old = it->second.es * it->second.n, nw = es * n;
        void* o = *p;
        void* q = recycler().get(nw, es == 1 ? 1 : 16); if (!q) harness_error("malloc failed");
        m->fill = (u8)(m->fill * 5 + 0x33); memset(q, m->fill, nw);
        memcpy(q, o, old < nw ? old : nw);
        memset(o, 0xDD, old);
        m->live.erase(it); recycler().put(o, old, es == 1 ? 1 : 16);
        m->live[q] = BlockInfo{es, n, ++m->serial};
        *p = q; ++m->n_realloc; m->last_n = n; m->last_es = es; m->last_p = q;
        return m->ok_status;
    }
    static ZyanStatus s_free(ZyanAllocator* a, void* p, ZyanUSize es, ZyanUSize n) {
        MonAlloc* m = self(a); in_callback();
        auto it = m->live.find(p);
        if (it == m->live.end()) violation("free-foreign", "allocator %s: deallocate of a block it does not own (double free or foreign block)", m->name);
        if (it->second.es != es || it->second.n != n)
            violation("free-size", "deallocate described as %zu x %zu, block is %zu x %zu", (size_t)es, (size_t)n, (size_t)it->second.es, (size_t)it->second.n);
        memset(p, 0xDD, it->second.es * it->second.n);
        m->live.erase(it); recycler().put(p, (size_t)es * n, es == 1 ? 1 : 16); ++m->n_free;
        return m->ok_status;
    }
    MonAlloc() {
        if (ZyanAllocatorInit(&base, s_alloc, s_realloc, s_free) != ZYAN_STATUS_SUCCESS) violation("allocator-init", "allocator initialization failed");
    }
    ~MonAlloc() { for (auto& b : live) recycler().release(b.first, 0); }
    MonAlloc(const MonAlloc&) = delete;
    ZyanAllocator* get() { return &base; }
    u64 calls() const { return n_alloc + n_realloc + n_free; }
    void require_empty(const char* what) {
        if (!live.empty()) violation("leak", "%s: %zu block(s) still allocated (e.g. %zu x %zu)", what, live.size(),
            (size_t)live.begin()->second.es, (size_t)live.begin()->second.n);
    }
};

// Buffer with exact-size heap storage: any access outside is caught by ASan.
struct HeapBuf {
    size_t al; u8* p; size_t n;
    explicit HeapBuf(size_t k, u8 fillv = 0x77, size_t align = 16) : al(align), p((u8*)recycler().get(k, al)), n(k) { if (!p) harness_error("malloc"); memset(p, fillv, n); static u64& e = g_st.cnt["blocks at odd addresses"]; e = Recycler::moved(); }
    HeapBuf(const HeapBuf&) = delete;
    ~HeapBuf() { recycler().put(p, n, al); }
};
typedef std::vector<u8> Bytes;
inline size_t natural(u64 es) { return es ? std::min<u64>(es & -es, 16) : 16; }   // alignment of elements of that size
inline std::string hexs(const Bytes& b, size_t max = 40) {
    std::string s; char t[4]; for (size_t i = 0; i < b.size() && i < max; ++i) { snprintf(t, 4, "%02x", b[i]); s += t; }
    if (b.size() > max) s += "..(" + std::to_string(b.size()) + ")"; return s; }
inline std::string quote(const Bytes& b, size_t max = 60) {
    std::string s = "\""; char t[8];
    for (size_t i = 0; i < b.size() && i < max; ++i) { u8 c = b[i]; if (c >= 32 && c < 127 && c != '"' && c != '\\') s += (char)c; else { snprintf(t, 8, "\\x%02x", c); s += t; } }
    s += "\""; if (b.size() > max) s += "..(" + std::to_string(b.size()) + ")"; return s; }
