// C22: every call that must be refused, against objects with random contents. Each refused call must report the right class
// of failure and leave every object (control data, contents, foreign memory) as it was; the address sanitizer watches the rest.
#include "zy.hpp"
#include <functional>

static const ZyanUSize MAXV = (ZyanUSize)-1, BITS = 8 * sizeof(ZyanUSize), TOO_BIG = sizeof(ZyanUSize) == 8 ? (ZyanUSize)(1ull << 40) : MAXV / 2 + 1, TOO_MANY_BITS = sizeof(ZyanUSize) == 8 ? (ZyanUSize)(1ull << 34) : (ZyanUSize)1 << 30;
enum Want { INV, RANGE, FAIL, MEM };
static void dummy_dtor(void*) { violation("destroyed", "a refused call destroyed an element"); }
static ZyanStatus dummy_ctor(void*) { violation("constructed", "a refused call constructed an element"); }
static ZyanBool never_eq(const void*, const void*) { violation("compared", "a refused call compared elements"); }
static ZyanI32 never_cmp(const void*, const void*) { violation("compared", "a refused call compared elements"); }

struct VecState { const void* data; ZyanUSize size, cap, es; const void* al; u8 g, s; const void* d; Bytes b;
    static VecState of(const ZyanVector& v, bool view = false) { VecState x{ v.data, v.size, v.capacity, v.element_size, v.allocator, v.growth_factor, v.shrink_threshold, (const void*)v.destructor, {} }; x.b.assign((u8*)v.data, (u8*)v.data + (v.size - view) * v.element_size); return x; /* a view's terminator may not exist */ }
    bool is(const ZyanVector& v, bool view) const { return data == v.data && size == v.size && cap == v.capacity && es == v.element_size && al == v.allocator && g == v.growth_factor && s == v.shrink_threshold && d == (const void*)v.destructor && (b.empty() || !memcmp(b.data(), v.data, b.size())); } };
struct ListState { const void *al, *h, *t, *buf, *fu; ZyanUSize size, es, cap; Bytes b; std::vector<const void*> nodes;
    static ListState of(const ZyanList& l) { ListState x{ l.allocator, l.head, l.tail, l.buffer, l.first_unused, l.size, l.element_size, l.capacity, {}, {} };
        for (const ZyanListNode* n = l.head; n; n = n->next) { x.nodes.push_back(n); x.nodes.push_back(n->prev); const u8* d = (const u8*)(n + 1); x.b.insert(x.b.end(), d, d + l.element_size); } return x; }
    bool operator==(const ListState& o) const { return al == o.al && h == o.h && t == o.t && buf == o.buf && fu == o.fu && size == o.size && es == o.es && cap == o.cap && b == o.b && nodes == o.nodes; } };

// large objects: sizes around 2^8, 2^15, 2^16 and 2^17, where a narrowed index or size shows
#ifdef VH_LARGE
static const bool LARGE = true;
#else
static const bool LARGE = false;
#endif
static ZyanUSize large_n(Rng& q) { switch (q.below(6)) { case 0: return q.range(250, 262); case 1: return q.range(32760, 32775); case 2: return q.range(131066, 131080); case 3: return q.pick<u64>({ 256, 32768, 65536, 131072 }) - q.below(2); default: return q.range(65530, 65545); } }
struct World {
    MonAlloc A; Rng& r; ZyanUSize es, n, ln, bcap;
    ZyanVector vd, vf; HeapBuf* vb; ZyanString sd, sf; HeapBuf* sb; ZyanList ld, lf; HeapBuf* lb; ZyanBitset bd, bf; HeapBuf* bb;
    std::string text; HeapBuf* raw; ZyanStringView view, lit; HeapBuf* el;
    std::vector<VecState> vs; std::vector<ListState> ls; ZyanUSize bsz[2]; u64 calls0; Bytes rawb, elb;
    static void ok(ZyanStatus s, const char* w) { REQ(s == ZYAN_STATUS_SUCCESS, "setup", "%s reports %s", w, st_name(s)); }
    explicit World(Rng& q) : r(q) {
        es = q.pick({ 1, 4, 8, 8, 24, 3, 16 }); ln = q.below(12); n = LARGE && q.chance(1, 2) ? large_n(q) : ln; bcap = LARGE && q.chance(1, 2) ? q.range(8180, 8210) : 16; if (n > 20) es = q.pick({ 1, 3, 4 }); if (LARGE) COUNT(n > 20 ? "large objects" : "small objects"); el = new HeapBuf(es, q.byte()); u8 g = (u8)q.pick({ 1, 2, 2, 3, 255 }), s = (u8)q.pick({ 0, 1, 4, 4, 255 });
        vb = new HeapBuf(es * (n + q.below(5) + 1)); ok(ZyanVectorInitEx(&vd, es, q.below(20), dummy_dtor, A.get(), g, s), "InitEx"); ok(ZyanVectorInitCustomBuffer(&vf, es, vb->p, vb->n / es, dummy_dtor), "InitCustomBuffer");
        if (n > 20) ok(ZyanVectorReserve(&vd, n + q.below(20)), "Reserve");
        for (ZyanUSize i = 0; i < n; ++i) { for (size_t k = 0; k < es; ++k) el->p[k] = q.byte(); ok(ZyanVectorPushBack(&vd, el->p), "PushBack"); ok(ZyanVectorPushBack(&vf, el->p), "PushBack"); }
        for (u64 k = LARGE && q.chance(1, 2) ? large_n(q) : q.below(20); k; --k) text += (char)q.byte(); raw = new HeapBuf(text.size() ? text.size() : 1); memcpy(raw->p, text.data(), text.size());
        sb = new HeapBuf(text.size() + 1 + q.below(6)); ok(ZyanStringInitEx(&sd, q.below(40), A.get(), g, s), "StringInitEx"); ok(ZyanStringInitCustomBuffer(&sf, (char*)sb->p, sb->n), "StringInitCustomBuffer");
        ok(ZyanStringViewInsideBuffer(&lit, "literal"), "ViewInsideBuffer");
        if (!text.empty()) { ok(ZyanStringViewInsideBufferEx(&view, (char*)raw->p, text.size()), "View"); ok(ZyanStringAppend(&sd, &view), "Append"); ok(ZyanStringAppend(&sf, &view), "Append"); } else view = *ZYAN_STRING_TO_VIEW(&sd);
        lb = new HeapBuf((sizeof(ZyanListNode) + 8) * (ln + 1 + q.below(3))); ok(ZyanListInitEx(&ld, es, dummy_dtor, A.get()), "ListInitEx"); ok(ZyanListInitCustomBuffer(&lf, 8, dummy_dtor, lb->p, lb->n), "ListInit");
        u64 e8; for (ZyanUSize i = 0; i < ln; ++i) { for (size_t k = 0; k < es; ++k) el->p[k] = q.byte(); e8 = q.next(); ok(ZyanListPushBack(&ld, el->p), "ListPush"); ok(ZyanListPushBack(&lf, &e8), "ListPush"); }
        bb = new HeapBuf(bcap); ok(ZyanBitsetInitEx(&bd, bcap > 16 ? large_n(q) : q.below(70), A.get(), g, s), "BitsetInitEx"); ok(ZyanBitsetInitBuffer(&bf, bcap > 16 ? bcap * 8 - q.below(40) : q.below(100), bb->p, bcap), "BitsetInitBuffer");
        snap();
    }
    std::vector<const ZyanVector*> vecs() { return { &vd, &vf, &sd.vector, &sf.vector, &bd.bits, &bf.bits, &view.string.vector, &lit.string.vector }; }
    void snap() { vs.clear(); ls.clear(); for (auto v : vecs()) vs.push_back(VecState::of(*v, vs.size() >= 6)); ls.push_back(ListState::of(ld)); ls.push_back(ListState::of(lf)); bsz[0] = bd.size; bsz[1] = bf.size;
        calls0 = A.live.size(); rawb.assign(raw->p, raw->p + raw->n); elb.assign(el->p, el->p + el->n); }
    void same(const char* what) {
        static const char* N[] = { "vector", "fixed vector", "string", "fixed string", "bitset", "fixed bitset", "view", "literal view" }; auto v = vecs();
        for (size_t i = 0; i < v.size(); ++i) REQ(vs[i].is(*v[i], i >= 6), "changed", "refused %s changed the %s", what, N[i]);
        REQ(ListState::of(ld) == ls[0] && ListState::of(lf) == ls[1], "changed", "refused %s changed a list", what); REQ(bd.size == bsz[0] && bf.size == bsz[1], "changed", "refused %s changed a bitset's size", what);
        REQ(A.live.size() == calls0, "allocated", "refused %s left %zu blocks allocated instead of %llu", what, A.live.size(), (unsigned long long)calls0);
        REQ(!memcmp(raw->p, rawb.data(), raw->n) && !memcmp(el->p, elb.data(), el->n), "changed", "refused %s changed its source", what);
        REQ(vs[2].size && ((const char*)sd.vector.data)[sd.vector.size - 1] == 0 && ((const char*)sf.vector.data)[sf.vector.size - 1] == 0, "terminator", "refused %s removed a terminator", what);
        // the free part of the fixed buffers is checked by ASan only where it is outside the buffer; contents there are unspecified
    }
    void expect(const char* what, Want w, ZyanStatus st) {
        COUNT("refused calls"); trace("%s -> %s", what, st_name(st));
        REQ(ZYAN_FAILED(st), "accepted", "%s was not refused: %s", what, st_name(st));
        if (w == INV) REQ(st == ZYAN_STATUS_INVALID_ARGUMENT, "class", "%s reports %s instead of INVALID_ARGUMENT", what, st_name(st));
        if (w == RANGE) REQ(st == ZYAN_STATUS_OUT_OF_RANGE, "class", "%s reports %s instead of OUT_OF_RANGE", what, st_name(st));
        if (w == MEM) REQ(st == ZYAN_STATUS_NOT_ENOUGH_MEMORY || st == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE || st == ZYAN_STATUS_OUT_OF_RANGE, "class", "%s reports %s instead of lack of memory or space", what, st_name(st));
        same(what);
    }
    void null(const char* what, const void* p) { COUNT("refused calls"); trace("%s -> %p", what, p); REQ(!p, "accepted", "%s returned %p", what, p); same(what); }
    // an index that must be refused when 0..limit-1 (or 0..limit if incl) is valid
    ZyanUSize bad_index(ZyanUSize limit, ZyanUSize es_) {
        ZyanUSize v; do { switch (r.below(11)) { case 0: v = limit; break; case 8: v = (ZyanUSize)r.range(1, 40) * 256 + r.below(limit + 1); break; case 9: v = (ZyanUSize)r.range(1, 5) * 65536 + r.below(limit + 1); break; case 1: v = limit + r.below(5); break; case 2: v = MAXV - r.below(4); break; case 3: v = ((ZyanUSize)1 << (BITS - 1)) + (ZyanUSize)r.below(limit + 1); break;
            case 4: v = ((ZyanUSize)1 << (BITS / 2)) + (ZyanUSize)r.below(limit + 1); break; case 5: v = (MAXV / es_) + 1 + r.below(limit + 2); break; case 6: v = (ZyanUSize)0 - r.below(limit + 3); break; case 7: v = (ZyanUSize)r.next(); break; default: v = ((ZyanUSize)1 << r.below(BITS)) + (ZyanUSize)r.below(2); } } while (v < limit);
        return v; }
    // (index, count) outside a sequence of `len` elements
    void bad_range(ZyanUSize len, ZyanUSize es_, ZyanUSize& i, ZyanUSize& c) {
        for (;;) { switch (r.below(7)) { case 0: i = r.below(len + 1); c = len - i + 1 + r.below(3); break; case 1: i = r.below(len + 1); c = MAXV - i + 1 + r.below(len + 2); break; case 2: i = r.below(len + 1); c = MAXV - r.below(3); break;
            case 3: i = bad_index(len + 1, es_); c = r.below(len + 2); break; case 4: i = bad_index(len + 1, es_); c = (ZyanUSize)0 - i + r.below(len + 1); break; case 5: i = r.below(len + 1); c = bad_index(len + 1, es_); break;
            default: i = bad_index(len + 1, es_); c = bad_index(1, es_); }
            if (c && (i > len || c > len - i)) return; } }
    ~World() {
        vd.destructor = vf.destructor = nullptr; ld.destructor = lf.destructor = nullptr;
        ZyanVectorDestroy(&vd); ZyanVectorDestroy(&vf); ZyanStringDestroy(&sd); ZyanStringDestroy(&sf); ZyanListDestroy(&ld); ZyanListDestroy(&lf); ZyanBitsetDestroy(&bd); ZyanBitsetDestroy(&bf);
        delete vb; delete sb; delete lb; delete bb; delete raw; delete el; }
};
#define E(w, call) W.expect(#call, w, call)
#define N0(call) W.null(#call, (const void*)(call))

static void vectors(World& W, Rng& r) {
    ZyanVector* v = r.chance(1, 2) ? &W.vd : &W.vf; ZyanVector* NV = nullptr; const ZyanUSize es = W.es, n = W.n; void* e = W.el->p; void* o = nullptr; const void* co = nullptr; ZyanISize fi = 0; ZyanUSize fu = 0; ZyanUSize i, c; ZyanAllocator* al = W.A.get(); ZyanAllocator* na = nullptr;
    ZyanVector t; memset((void*)&t, r.byte(), sizeof t); HeapBuf buf(es * (n + 1));
    // missing objects
    E(INV, ZyanVectorInitEx(NV, es, 1, nullptr, al, 2, 4)); E(INV, ZyanVectorInitEx(&t, 0, 1, nullptr, al, 2, 4)); E(INV, ZyanVectorInitEx(&t, es, 1, nullptr, na, 2, 4)); E(INV, ZyanVectorInitEx(&t, es, 1, nullptr, al, 0, 4));
    E(INV, ZyanVectorInit(NV, es, 1, nullptr)); E(INV, ZyanVectorInit(&t, 0, 1, nullptr));
    E(INV, ZyanVectorInitCustomBuffer(NV, es, buf.p, 1, nullptr)); E(INV, ZyanVectorInitCustomBuffer(&t, 0, buf.p, 1, nullptr)); E(INV, ZyanVectorInitCustomBuffer(&t, es, nullptr, 1, nullptr)); E(INV, ZyanVectorInitCustomBuffer(&t, es, buf.p, 0, nullptr));
    E(INV, ZyanVectorDestroy(NV)); E(INV, ZyanVectorDuplicate(&t, NV, 1)); E(INV, ZyanVectorDuplicate(NV, v, 1)); E(INV, ZyanVectorDuplicateEx(&t, NV, 1, al, 2, 4)); E(INV, ZyanVectorDuplicateEx(NV, v, 1, al, 2, 4));
    E(INV, ZyanVectorDuplicateEx(&t, v, 1, na, 2, 4)); E(INV, ZyanVectorDuplicateEx(&t, v, 1, al, 0, 4)); E(INV, ZyanVectorDuplicateCustomBuffer(&t, NV, buf.p, n + 1)); E(INV, ZyanVectorDuplicateCustomBuffer(NV, v, buf.p, n + 1)); E(INV, ZyanVectorDuplicateCustomBuffer(&t, v, nullptr, n + 1));
    E(FAIL, ZyanVectorDuplicateCustomBuffer(&t, v, buf.p, 0)); if (n) { ZyanUSize k = r.below(n); E(FAIL, ZyanVectorDuplicateCustomBuffer(&t, v, buf.p, k)); }
    N0(ZyanVectorGet(NV, 0)); N0(ZyanVectorGetMutable(NV, 0)); E(INV, ZyanVectorGetPointer(NV, 0, &co)); E(INV, ZyanVectorGetPointerMutable(NV, 0, &o)); E(INV, ZyanVectorSet(NV, 0, e)); E(INV, ZyanVectorPushBack(NV, e)); E(INV, ZyanVectorPushBack(v, nullptr));
    E(INV, ZyanVectorInsert(NV, 0, e)); E(INV, ZyanVectorInsert(v, 0, nullptr)); E(INV, ZyanVectorInsertRange(NV, 0, e, 1)); E(INV, ZyanVectorInsertRange(v, 0, nullptr, 1)); E(INV, ZyanVectorEmplace(NV, &o, dummy_ctor)); E(INV, ZyanVectorEmplaceEx(NV, 0, &o, dummy_ctor)); E(INV, ZyanVectorEmplace(NV, &o, nullptr)); E(INV, ZyanVectorEmplaceEx(NV, 0, &o, nullptr));
    E(INV, ZyanVectorSwapElements(NV, 0, 0)); E(INV, ZyanVectorDelete(NV, 0)); E(INV, ZyanVectorDeleteRange(NV, 0, 1)); E(INV, ZyanVectorPopBack(NV)); E(INV, ZyanVectorClear(NV)); E(INV, ZyanVectorResize(NV, 1)); E(INV, ZyanVectorResizeEx(NV, 1, e)); E(INV, ZyanVectorReserve(NV, 1)); E(INV, ZyanVectorShrinkToFit(NV));
    E(INV, ZyanVectorGetCapacity(NV, &fu)); E(INV, ZyanVectorGetSize(NV, &fu)); E(INV, ZyanVectorFind(NV, e, &fi, never_eq)); E(INV, ZyanVectorFindEx(NV, e, &fi, never_eq, 0, 0)); E(INV, ZyanVectorBinarySearch(NV, e, &fu, never_cmp)); E(INV, ZyanVectorBinarySearchEx(NV, e, &fu, never_cmp, 0, 0));
    if (n) { E(INV, ZyanVectorSet(v, 0, nullptr)); E(INV, ZyanVectorGetPointer(v, 0, nullptr)); E(INV, ZyanVectorGetPointerMutable(v, 0, nullptr)); } else { E(FAIL, ZyanVectorPopBack(v)); E(RANGE, ZyanVectorDelete(v, 0)); }
    for (int k = 0; k < 6; ++k) {
        i = W.bad_index(n, es); N0(ZyanVectorGet(v, i)); N0(ZyanVectorGetMutable(v, i)); E(RANGE, ZyanVectorGetPointer(v, i, &co)); E(RANGE, ZyanVectorGetPointerMutable(v, i, &o)); E(RANGE, ZyanVectorSet(v, i, e));
        E(RANGE, ZyanVectorDelete(v, i)); ZyanUSize j = n ? r.below(n) : 0; E(RANGE, ZyanVectorSwapElements(v, i, j)); E(RANGE, ZyanVectorSwapElements(v, j, i)); E(RANGE, ZyanVectorSwapElements(v, i, i));
        i = W.bad_index(n + 1, es); E(RANGE, ZyanVectorInsert(v, i, e)); E(RANGE, ZyanVectorInsertRange(v, i, e, 1)); E(RANGE, ZyanVectorEmplaceEx(v, i, &o, dummy_ctor)); E(RANGE, ZyanVectorEmplaceEx(v, i, &o, nullptr));
        W.bad_range(n, es, i, c); E(RANGE, ZyanVectorDeleteRange(v, i, c)); E(RANGE, ZyanVectorFindEx(v, e, &fi, never_eq, i, c)); E(RANGE, ZyanVectorBinarySearchEx(v, e, &fu, never_cmp, i, c));
        // more than exists
        i = r.below(n + 1); c = W.bad_index((ZyanUSize)1 << 30, es); E(MEM, ZyanVectorInsertRange(v, i, e, c)); E(MEM, ZyanVectorResize(v, c)); E(MEM, ZyanVectorResizeEx(v, c, e)); E(MEM, ZyanVectorReserve(v, c)); E(MEM, ZyanVectorInitEx(&t, es, c, nullptr, al, 2, 4)); E(MEM, ZyanVectorDuplicateEx(&t, v, c, al, 2, 4));
        E(MEM, ZyanVectorInit(&t, es, c | TOO_BIG, nullptr)); E(MEM, ZyanVectorDuplicate(&t, v, c | TOO_BIG)); E(MEM, ZyanVectorInit(&t, (MAXV / 2) + 2, 2 + r.below(3), nullptr)); E(MEM, ZyanVectorInitEx(&t, MAXV - r.below(9), 1 + r.below(4), nullptr, al, 1, 1));
    }
    COUNT("vector sweeps");
}
static void strings(World& W, Rng& r) {
    ZyanString* s = r.chance(1, 2) ? &W.sd : &W.sf; ZyanString* NS = nullptr; const ZyanStringView* NV = nullptr; ZyanStringView* NVm = nullptr; const ZyanStringView* v = r.chance(1, 2) ? &W.view : &W.lit; ZyanUSize L = W.text.size(); ZyanAllocator* al = W.A.get(); ZyanAllocator* na = nullptr;
    ZyanString t; memset((void*)&t, r.byte(), sizeof t); ZyanStringView tv; memset((void*)&tv, r.byte(), sizeof tv); HeapBuf buf(64 + 2 * (W.text.size() + 8)); char ch = 0; char* pc = nullptr; const char* cd = nullptr; ZyanISize fi = 0; ZyanUSize sz = 0; ZyanI32 cr = 0; ZyanUSize vl = 0; ZyanStringViewGetSize(v, &vl); ZyanUSize i, c;
    E(INV, ZyanStringInit(NS, 1)); E(INV, ZyanStringInitEx(NS, 1, al, 2, 4)); E(INV, ZyanStringInitEx(&t, 1, na, 2, 4)); E(INV, ZyanStringInitEx(&t, 1, al, 0, 4)); E(INV, ZyanStringInitCustomBuffer(NS, (char*)buf.p, 8)); E(INV, ZyanStringInitCustomBuffer(&t, nullptr, 8)); E(INV, ZyanStringInitCustomBuffer(&t, (char*)buf.p, 0)); E(INV, ZyanStringDestroy(NS));
    E(INV, ZyanStringDuplicate(NS, v, 1)); E(INV, ZyanStringDuplicate(&t, NV, 1)); E(INV, ZyanStringDuplicateEx(NS, v, 1, al, 2, 4)); E(INV, ZyanStringDuplicateEx(&t, NV, 1, al, 2, 4)); E(INV, ZyanStringDuplicateEx(&t, v, 1, na, 2, 4)); E(INV, ZyanStringDuplicateEx(&t, v, 1, al, 0, 4));
    E(INV, ZyanStringDuplicateCustomBuffer(NS, v, (char*)buf.p, buf.n)); E(INV, ZyanStringDuplicateCustomBuffer(&t, NV, (char*)buf.p, buf.n)); E(INV, ZyanStringDuplicateCustomBuffer(&t, v, nullptr, buf.n)); E(FAIL, ZyanStringDuplicateCustomBuffer(&t, v, (char*)buf.p, 0));
    E(INV, ZyanStringConcat(NS, v, v, 1)); E(INV, ZyanStringConcat(&t, NV, v, 1)); E(INV, ZyanStringConcat(&t, v, NV, 1)); E(INV, ZyanStringConcatEx(NS, v, v, 1, al, 2, 4)); E(INV, ZyanStringConcatEx(&t, NV, v, 1, al, 2, 4)); E(INV, ZyanStringConcatEx(&t, v, NV, 1, al, 2, 4)); E(INV, ZyanStringConcatEx(&t, v, v, 1, na, 2, 4)); E(INV, ZyanStringConcatEx(&t, v, v, 1, al, 0, 4));
    E(INV, ZyanStringConcatCustomBuffer(NS, v, v, (char*)buf.p, buf.n)); E(INV, ZyanStringConcatCustomBuffer(&t, NV, v, (char*)buf.p, buf.n)); E(INV, ZyanStringConcatCustomBuffer(&t, v, NV, (char*)buf.p, buf.n)); E(INV, ZyanStringConcatCustomBuffer(&t, v, v, nullptr, buf.n)); E(FAIL, ZyanStringConcatCustomBuffer(&t, v, v, (char*)buf.p, 0));
    E(INV, ZyanStringViewInsideView(NVm, v)); E(INV, ZyanStringViewInsideView(&tv, NV)); E(INV, ZyanStringViewInsideViewEx(NVm, v, 0, 0)); E(INV, ZyanStringViewInsideViewEx(&tv, NV, 0, 0)); E(INV, ZyanStringViewInsideBuffer(NVm, "x")); E(INV, ZyanStringViewInsideBuffer(&tv, nullptr)); E(INV, ZyanStringViewInsideBufferEx(NVm, "x", 1)); E(INV, ZyanStringViewInsideBufferEx(&tv, nullptr, 1));
    E(INV, ZyanStringViewGetSize(NV, &sz)); E(INV, ZyanStringViewGetSize(v, nullptr)); E(INV, ZyanStringViewGetData(NV, &cd)); E(INV, ZyanStringViewGetData(v, nullptr)); E(INV, ZyanStringGetChar(NV, 0, &ch)); E(INV, ZyanStringGetCharMutable(NS, 0, &pc)); E(INV, ZyanStringSetChar(NS, 0, 'x')); if (vl) E(INV, ZyanStringGetChar(v, 0, nullptr));
    E(INV, ZyanStringInsert(NS, 0, v)); E(INV, ZyanStringInsert(s, 0, NV)); E(INV, ZyanStringInsertEx(NS, 0, v, 0, 1)); E(INV, ZyanStringInsertEx(s, 0, NV, 0, 1)); E(INV, ZyanStringAppend(NS, v)); E(INV, ZyanStringAppend(s, NV)); E(INV, ZyanStringAppendEx(NS, v, 0, 1)); E(INV, ZyanStringAppendEx(s, NV, 0, 1));
    E(INV, ZyanStringDelete(NS, 0, 1)); E(INV, ZyanStringTruncate(NS, 0)); E(INV, ZyanStringClear(NS)); E(INV, ZyanStringCompare(NV, v, &cr)); E(INV, ZyanStringCompare(v, NV, &cr)); E(INV, ZyanStringCompareI(NV, v, &cr)); E(INV, ZyanStringCompareI(v, NV, &cr));
    E(INV, ZyanStringToLowerCase(NS)); E(INV, ZyanStringToLowerCaseEx(NS, 0, 0)); E(INV, ZyanStringToUpperCase(NS)); E(INV, ZyanStringToUpperCaseEx(NS, 0, 0)); E(INV, ZyanStringResize(NS, 1)); E(INV, ZyanStringReserve(NS, 1)); E(INV, ZyanStringShrinkToFit(NS)); E(INV, ZyanStringGetCapacity(NS, &sz)); E(INV, ZyanStringGetSize(NS, &sz)); E(INV, ZyanStringGetData(NS, &cd));
#define POS(f) E(INV, f(NV, v, &fi)); E(INV, f(v, NV, &fi)); E(INV, f(v, v, nullptr)); E(INV, f##Ex(NV, v, &fi, 0, 0)); E(INV, f##Ex(v, NV, &fi, 0, 0)); E(INV, f##Ex(v, v, nullptr, 0, 0));
    POS(ZyanStringLPos) POS(ZyanStringLPosI) POS(ZyanStringRPos) POS(ZyanStringRPosI)
    E(INV, ZyanStringAppendDecU(NS, 1, 0)); E(INV, ZyanStringAppendDecS(NS, 1, 0, 0, nullptr)); E(INV, ZyanStringAppendHexU(NS, 1, 0, 0)); E(INV, ZyanStringAppendHexS(NS, 1, 0, 0, 0, nullptr)); E(INV, ZyanStringAppendDecU(NS, ~0ull, 9)); E(INV, ZyanStringAppendDecS(NS, -1, 0, 1, v)); E(INV, ZyanStringAppendHexU(NS, ~0ull, 0, 1)); E(INV, ZyanStringAppendHexS(NS, -77, 0, 0, 1, v));
    E(INV, ZyanStringAppendFormat(NS, "x")); E(INV, ZyanStringAppendFormat(s, nullptr));
    for (int k = 0; k < 6; ++k) {
        i = W.bad_index(vl, 1); E(RANGE, ZyanStringGetChar(v, i, &ch)); i = W.bad_index(L, 1); E(RANGE, ZyanStringGetCharMutable(s, i, &pc)); E(RANGE, ZyanStringSetChar(s, i, 'x'));
        i = W.bad_index(L + 1, 1); E(RANGE, ZyanStringInsert(s, i, v)); E(RANGE, ZyanStringTruncate(s, i)); { ZyanUSize si = r.below(vl + 1), sc = r.below(vl - si + 1); if (sc) E(RANGE, ZyanStringInsertEx(s, i, v, si, sc)); }
        W.bad_range(L, 1, i, c); E(RANGE, ZyanStringDelete(s, i, c)); E(RANGE, ZyanStringToLowerCaseEx(s, i, c)); E(RANGE, ZyanStringToUpperCaseEx(s, i, c));
        W.bad_range(vl, 1, i, c); E(RANGE, ZyanStringViewInsideViewEx(&tv, v, i, c)); E(RANGE, ZyanStringAppendEx(s, v, i, c)); { ZyanUSize di = r.below(L + 1); E(RANGE, ZyanStringInsertEx(s, di, v, i, c)); } E(RANGE, ZyanStringLPosEx(v, &W.lit, &fi, i, c)); E(RANGE, ZyanStringLPosIEx(v, &W.lit, &fi, i, c));
        { ZyanUSize ri, rc; if (r.chance(1, 2)) { ri = r.below(vl + 1); rc = W.bad_index(ri + 1, 1); } else { ri = W.bad_index(vl + 1, 1); rc = r.below(3) ? r.below(vl + 1) : ri; } E(RANGE, ZyanStringRPosEx(v, &W.lit, &fi, ri, rc)); E(RANGE, ZyanStringRPosIEx(v, &W.lit, &fi, ri, rc)); }
        c = W.bad_index((ZyanUSize)1 << 30, 1); E(MEM, ZyanStringResize(s, c)); E(MEM, ZyanStringReserve(s, c)); E(MEM, ZyanStringInitEx(&t, c, al, 2, 4)); E(MEM, ZyanStringInit(&t, c | TOO_BIG)); E(MEM, ZyanStringDuplicateEx(&t, v, c, al, 2, 4)); E(MEM, ZyanStringConcatEx(&t, v, v, c, al, 2, 4)); E(MEM, ZyanStringDuplicate(&t, v, c | TOO_BIG)); E(MEM, ZyanStringConcat(&t, v, v, c | TOO_BIG));
        { ZyanUSize small = r.below(vl + 1); E(FAIL, ZyanStringDuplicateCustomBuffer(&t, v, (char*)buf.p, small)); { small = r.below(2 * vl + 1); E(FAIL, ZyanStringConcatCustomBuffer(&t, v, v, (char*)buf.p, small)); } }
    }
    COUNT("string sweeps");
}
static void lists(World& W, Rng& r) {
    bool fixed = r.chance(1, 2); ZyanList* l = fixed ? &W.lf : &W.ld; ZyanList* NL = nullptr; ZyanListNode* NN = nullptr; const ZyanListNode* nn = nullptr; const ZyanListNode* any = l->head; void* o = nullptr; const void* co = nullptr; ZyanUSize sz = 0; ZyanList t; memset((void*)&t, r.byte(), sizeof t); u8 e[64] = {}; ZyanAllocator* al = W.A.get(); ZyanAllocator* na = nullptr; HeapBuf buf(256);
    E(INV, ZyanListInit(NL, 8, nullptr)); E(INV, ZyanListInit(&t, 0, nullptr)); E(INV, ZyanListInitEx(NL, 8, nullptr, al)); E(INV, ZyanListInitEx(&t, 0, nullptr, al)); E(INV, ZyanListInitEx(&t, 8, nullptr, na)); E(INV, ZyanListInitCustomBuffer(NL, 8, nullptr, buf.p, 256)); E(INV, ZyanListInitCustomBuffer(&t, 0, nullptr, buf.p, 256)); E(INV, ZyanListInitCustomBuffer(&t, 8, nullptr, nullptr, 256)); E(INV, ZyanListInitCustomBuffer(&t, 8, nullptr, buf.p, 0));
    E(INV, ZyanListDestroy(NL)); E(INV, ZyanListGetHeadNode(NL, &nn)); E(INV, ZyanListGetTailNode(NL, &nn)); nn = nullptr; E(INV, ZyanListGetPrevNode(&nn)); E(INV, ZyanListGetNextNode(&nn)); E(INV, ZyanListGetPrevNode(nullptr)); E(INV, ZyanListGetNextNode(nullptr)); N0(ZyanListGetNodeData(NN)); N0(ZyanListGetNodeDataMutable(NN)); E(INV, ZyanListGetNodeDataEx(NN, &co)); E(INV, ZyanListGetNodeDataMutableEx(NN, &o));
    E(INV, ZyanListSetNodeData(l, NN, e)); if (any) { E(INV, ZyanListSetNodeData(NL, any, e)); E(INV, ZyanListSetNodeData(l, any, nullptr)); E(INV, ZyanListRemove(NL, any)); E(INV, ZyanListRemoveRange(NL, any, any)); E(INV, ZyanListRemoveRange(l, NN, any)); E(INV, ZyanListRemoveRange(l, any, NN)); }
    E(INV, ZyanListPushBack(NL, e)); E(INV, ZyanListPushBack(l, nullptr)); E(INV, ZyanListPushFront(NL, e)); E(INV, ZyanListPushFront(l, nullptr)); E(INV, ZyanListEmplaceBack(NL, &o, dummy_ctor)); E(INV, ZyanListEmplaceFront(NL, &o, dummy_ctor)); E(INV, ZyanListEmplaceBack(NL, &o, nullptr)); E(INV, ZyanListEmplaceFront(NL, &o, nullptr)); E(INV, ZyanListPopBack(NL)); E(INV, ZyanListPopFront(NL)); E(INV, ZyanListRemove(l, NN)); E(INV, ZyanListRemoveRange(l, NN, NN));
    E(INV, ZyanListClear(NL)); E(INV, ZyanListResize(NL, 1)); E(INV, ZyanListResizeEx(NL, 1, e)); E(INV, ZyanListGetSize(NL, &sz)); if (!W.ln) { E(FAIL, ZyanListPopBack(l)); E(FAIL, ZyanListPopFront(l)); }
    // more elements than memory
    if (fixed) { ZyanUSize c = W.bad_index((ZyanUSize)1 << 20, 24); ZyanMemberProcedure d = l->destructor; l->destructor = nullptr; ZyanStatus st = ZyanListResizeEx(l, c, e); l->destructor = d; W.ls[1].fu = W.lf.first_unused; /* slots tried may stay in the free list */ W.expect("ZyanListResizeEx beyond the buffer", MEM, st); }
    else { ZyanUSize c = W.ln + 41 + (ZyanUSize)(r.next() >> r.below(60)) / 2; W.A.fail_at = (i64)(W.A.req + r.below(40)); W.A.fail_persist = true; ZyanMemberProcedure d = l->destructor; l->destructor = nullptr; ZyanStatus st = ZyanListResize(l, c); l->destructor = d; W.A.fail_at = -1; W.expect("ZyanListResize beyond the memory", FAIL, st); }
    { ZyanList h; ZyanUSize es = MAXV - r.below(40); if (ZyanListInitEx(&h, es, nullptr, al) == ZYAN_STATUS_SUCCESS) { W.expect("ZyanListEmplaceBack of a huge element", MEM, ZyanListEmplaceBack(&h, &o, nullptr)); W.expect("ZyanListResize with huge elements", MEM, ZyanListResize(&h, 1)); REQ(!h.head && !h.tail && !h.size, "changed", "list of huge elements is not empty"); }
      ZyanListNode* nb = (ZyanListNode*)buf.p; if (ZyanListInitCustomBuffer(&h, es, nullptr, nb, 256) == ZYAN_STATUS_SUCCESS) { W.expect("ZyanListEmplaceFront of a huge element", MEM, ZyanListEmplaceFront(&h, &o, nullptr)); REQ(!h.head && !h.size, "changed", "list of huge elements is not empty"); } }
    COUNT("list sweeps");
}

static ZyanStatus byte_op(ZyanU8* a, const ZyanU8*) { *a = (ZyanU8)~*a; return ZYAN_STATUS_SUCCESS; }
static void bitsets(World& W, Rng& r) {
    ZyanBitset* b = r.chance(1, 2) ? &W.bd : &W.bf; ZyanBitset* NB = nullptr; ZyanUSize sz = 0, n = b->size, i; ZyanBitset t; memset((void*)&t, r.byte(), sizeof t); ZyanAllocator* al = W.A.get(); ZyanAllocator* na = nullptr; HeapBuf buf(16);
    E(INV, ZyanBitsetInit(NB, 1)); E(INV, ZyanBitsetInitEx(NB, 1, al, 2, 4)); E(INV, ZyanBitsetInitEx(&t, 1, na, 2, 4)); E(INV, ZyanBitsetInitEx(&t, 1, al, 0, 4)); E(INV, ZyanBitsetInitBuffer(NB, 1, buf.p, 16)); E(INV, ZyanBitsetInitBuffer(&t, 1, nullptr, 16)); E(FAIL, ZyanBitsetInitBuffer(&t, 1 + r.below(100), buf.p, 0)); { ZyanUSize c = r.below(16), k = c * 8 + 1 + r.below(50); E(FAIL, ZyanBitsetInitBuffer(&t, k, buf.p, c)); } E(INV, ZyanBitsetDestroy(NB));
    E(INV, ZyanBitsetPerformByteOperation(NB, b, byte_op)); E(INV, ZyanBitsetPerformByteOperation(b, NB, byte_op)); E(INV, ZyanBitsetPerformByteOperation(b, b, nullptr));
    E(INV, ZyanBitsetAND(NB, b)); E(INV, ZyanBitsetOR(NB, b)); E(INV, ZyanBitsetXOR(NB, b)); E(INV, ZyanBitsetAND(b, NB)); E(INV, ZyanBitsetOR(b, NB)); E(INV, ZyanBitsetXOR(b, NB)); E(INV, ZyanBitsetFlip(NB)); E(INV, ZyanBitsetSet(NB, 0)); E(INV, ZyanBitsetReset(NB, 0)); E(INV, ZyanBitsetAssign(NB, 0, 1)); E(INV, ZyanBitsetAssign(NB, 0, 0)); E(INV, ZyanBitsetToggle(NB, 0)); E(INV, ZyanBitsetTest(NB, 0));
    E(INV, ZyanBitsetTestMSB(NB)); E(INV, ZyanBitsetTestLSB(NB)); E(INV, ZyanBitsetSetAll(NB)); E(INV, ZyanBitsetResetAll(NB)); E(INV, ZyanBitsetPush(NB, 1)); E(INV, ZyanBitsetPop(NB)); E(INV, ZyanBitsetClear(NB)); E(INV, ZyanBitsetReserve(NB, 1)); E(INV, ZyanBitsetShrinkToFit(NB)); E(INV, ZyanBitsetGetSize(NB, &sz)); E(INV, ZyanBitsetGetCapacity(NB, &sz)); E(INV, ZyanBitsetGetSizeBytes(NB, &sz)); E(INV, ZyanBitsetGetCapacityBytes(NB, &sz)); E(INV, ZyanBitsetCount(NB, &sz)); E(INV, ZyanBitsetCount(b, nullptr)); E(INV, ZyanBitsetAll(NB)); E(INV, ZyanBitsetAny(NB)); E(INV, ZyanBitsetNone(NB));
    for (int k = 0; k < 6; ++k) { i = W.bad_index(n, 8); E(RANGE, ZyanBitsetSet(b, i)); E(RANGE, ZyanBitsetReset(b, i)); E(RANGE, ZyanBitsetAssign(b, i, 1)); E(RANGE, ZyanBitsetAssign(b, i, 0)); E(RANGE, ZyanBitsetToggle(b, i)); E(RANGE, ZyanBitsetTest(b, i));
        ZyanUSize c = W.bad_index(TOO_MANY_BITS, 1); E(MEM, ZyanBitsetReserve(b, c)); E(MEM, ZyanBitsetInitEx(&t, c, al, 2, 4)); E(MEM, ZyanBitsetInitBuffer(&t, c, buf.p, 16)); if (BITS == 64) E(MEM, ZyanBitsetInit(&t, c | (ZyanUSize)(1ull << 45))); }
    if (!n) { E(FAIL, ZyanBitsetTestMSB(b)); E(FAIL, ZyanBitsetTestLSB(b)); E(FAIL, ZyanBitsetPop(b)); }
    ZyanAllocator a2; ZyanAllocator* NA = nullptr; E(INV, ZyanAllocatorInit(NA, al->allocate, al->reallocate, al->deallocate)); E(INV, ZyanAllocatorInit(&a2, nullptr, al->reallocate, al->deallocate)); E(INV, ZyanAllocatorInit(&a2, al->allocate, nullptr, al->deallocate)); E(INV, ZyanAllocatorInit(&a2, al->allocate, al->reallocate, nullptr));
    COUNT("bitset sweeps");
}
static void parser(World& W, Rng& r) {
    const char* argv[] = { "prog", "-a", "x" }; ZyanArgParseDefinition defs[] = { { "-a", ZYAN_TRUE, ZYAN_FALSE }, { nullptr, ZYAN_FALSE, ZYAN_FALSE } };
    ZyanArgParseConfig cfg; memset(&cfg, 0, sizeof cfg); cfg.argv = argv; cfg.argc = 3; cfg.args = defs; cfg.min_unnamed_args = r.range(1, 5); cfg.max_unnamed_args = r.below(cfg.min_unnamed_args);
    ZyanVector out; memset((void*)&out, 0x5C, sizeof out); const char* err = nullptr; E(INV, ZyanArgParseEx(&cfg, &out, &err, W.A.get())); E(INV, ZyanArgParse(&cfg, &out, &err)); E(INV, ZyanArgParseEx(&cfg, &out, nullptr, W.A.get()));
    cfg.min_unnamed_args = 0; cfg.max_unnamed_args = 5; ZyanAllocator* na = nullptr; E(INV, ZyanArgParseEx(&cfg, &out, &err, na)); COUNT("parser sweeps");
}
void prop_begin() {} void prop_end() {}
bool prop_case(u64, Rng& r) {
    World W(r); trace("objects: %zu elements of %zu, text of %zu", (size_t)W.n, (size_t)W.es, W.text.size());
    for (int k = 0; k < 2; ++k) switch (r.below(9)) { case 0: case 1: case 2: vectors(W, r); break; case 3: case 4: case 5: strings(W, r); break; case 6: lists(W, r); break; case 7: bitsets(W, r); break; default: parser(W, r); }
    return true;
}
