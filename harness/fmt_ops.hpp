// String simulation extended by the number/format appends (independent reference formatter).
#pragma once
#include "str_engine.hpp"

struct NumSpec { bool hex = false, sgn = false, upper = false, force = false, has_prefix = false; u64 value = 0; u8 pad = 0; Bytes prefix; };
inline void rnd_num(Rng& r, NumSpec& q) {
    q.hex = r.chance(1, 2); q.sgn = r.chance(1, 2); q.upper = r.chance(1, 2); q.force = r.chance(1, 2); q.has_prefix = q.sgn && r.chance(1, 2);
    switch (r.below(7)) {
    case 0: q.value = r.below(300); break;
    case 1: q.value = r.next(); break;
    case 2: q.value = r.next() >> r.below(64); break;
    case 3: { u64 p = 1; u64 e = r.below(20); while (e--) p *= 10; q.value = p + r.range(0, 2) - 1; break; }
    case 4: q.value = ((u64)1 << r.below(64)) + r.range(0, 2) - 1; break;
    case 5: q.value = r.pick<u64>({0, ~(u64)0, (u64)1 << 63, ((u64)1 << 63) - 1, 0xFFFFFFFFull, 0x100000000ull, 0xFFFFFFFEull, 9999999999999999999ull, 10000000000000000000ull}); break;
    default: q.value = (u64)0 - (r.next() >> r.below(64)); }
    q.pad = r.chance(1, 3) ? 0 : r.chance(1, 6) ? r.byte() : r.chance(1, 10) ? (u8)r.range(250, 255) : (u8)r.range(1, 26);
    q.prefix = r.chance(1, 8) ? Bytes() : r.chance(1, 2) ? Bytes{'0', 'x'} : rnd_text(r, r.range(1, 9));
}
// digits are produced most significant first by comparison with powers of the base
inline Bytes ref_number(const NumSpec& q) {
    Bytes out; u64 v = q.value; bool neg = q.sgn && (v >> 63);
    if (neg) { v = ~v + 1; out.push_back('-'); } else if (q.sgn && q.force) out.push_back('+');
    if (q.has_prefix) out.insert(out.end(), q.prefix.begin(), q.prefix.end());
    Bytes d;
    if (q.hex) { const char* hi = q.upper ? "0123456789ABCDEF" : "0123456789abcdef"; bool lead = true;
        for (int i = 60; i >= 0; i -= 4) { u8 k = (v >> i) & 15; if (lead && !k && i) continue; lead = false; d.push_back((u8)hi[k]); } }
    else { u64 p = 10000000000000000000ull; bool lead = true;
        for (; p; p /= 10) { int k = 0; while (v >= p) { v -= p; ++k; if (k > 9) harness_error("ref_number"); } if (lead && !k && p > 1) continue; lead = false; d.push_back((u8)('0' + k)); } }
    for (size_t i = d.size(); i < q.pad; ++i) out.push_back('0');
    out.insert(out.end(), d.begin(), d.end());
    return out;
}
inline ZyanStatus call_number(ZyanString* s, const NumSpec& q, const ZyanStringView* pf) {
    if (q.sgn) return q.hex ? ZyanStringAppendHexS(s, (ZyanI64)q.value, q.pad, q.upper, q.force, pf) : ZyanStringAppendDecS(s, (ZyanI64)q.value, q.pad, q.force, pf);
    return q.hex ? ZyanStringAppendHexU(s, q.value, q.pad, q.upper) : ZyanStringAppendDecU(s, q.value, q.pad);
}
inline std::string num_name(const NumSpec& q) {
    char b[200]; snprintf(b, sizeof b, "append_%s%c value=0x%llx pad=%d upper=%d force=%d prefix=%s", q.hex ? "hex" : "dec", q.sgn ? 's' : 'u', (unsigned long long)q.value, q.pad, q.upper, q.force,
        q.has_prefix ? quote(q.prefix, 12).c_str() : "-"); return b; }

struct FmtStrSim : StrSim {
    using StrSim::StrSim;
    void number() { NumSpec q; rnd_num(r, q); number(q); }
    void number(const NumSpec& q) {
        Bytes t = ref_number(q); trace("%s", num_name(q).c_str());
        ViewSrc pf(q.prefix, (int)r.below(2));
        u64 need = n() + 1 + t.size();
        // several steps may each grow the string: only the lower bound is specified then
        CapExp ce = need <= cap ? CapExp::same() : CapExp::atleast(need);
        lenient_cap = true;
        op("append number", Kind::Grow, fit(need), ce, [&] { return call_number(&s, q, q.has_prefix ? pf.v() : nullptr); }, [&] { m.insert(m.end(), t.begin(), t.end()); },
           q.has_prefix && q.prefix.empty() ? (ZyanStatus)ZYAN_STATUS_INVALID_ARGUMENT : NO_ALT);
        lenient_cap = false;
        COUNT("number appends");
    }
    void format() {
        int k = (int)r.below(4); std::string a; char ch = r.chance(1, 3) ? 0 : (char)r.byte(); size_t al = r.chance(1, 3) ? (cap > n() + 1 ? cap - n() - 1 : 0) + r.range(0, 2) : r.range(0, 12); int iv = (int)r.next();
        for (size_t i = 0; i < al; ++i) a += (char)r.range(1, 255);
        char tmp[64]; snprintf(tmp, sizeof tmp, "%d", iv);
        std::string t = k == 0 ? a : k == 1 ? a + tmp : k == 2 ? std::string(tmp) + "%" + a : a + ch + tmp;
        trace("append_format %d len=%zu", k, t.size());
        Bytes tb(t.begin(), t.end()); u64 need = n() + 1 + tb.size();
        skip_heapwatch = true;
        op("AppendFormat", Kind::Grow, fit(need), grow(need), [&] { return k == 0 ? ZyanStringAppendFormat(&s, "%s", a.c_str()) : k == 1 ? ZyanStringAppendFormat(&s, "%s%d", a.c_str(), iv) : k == 2 ? ZyanStringAppendFormat(&s, "%d%%%s", iv, a.c_str()) : ZyanStringAppendFormat(&s, "%s%c%d", a.c_str(), ch, iv); },
            [&] { m.insert(m.end(), tb.begin(), tb.end()); });
        skip_heapwatch = false;
        COUNT("format appends");
    }
    void large_step(u64 maxn) { step2(maxn); }
    void step2(u64 maxn) { if (n() <= maxn && r.chance(1, 6)) number(); else if (n() <= maxn && r.chance(1, 10)) format(); else step(maxn); }
};
