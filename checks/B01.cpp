// B01: buffers against abstract byte strings, arrays against an abstract sequence of owned items.
#include "w.hpp"
static const size_t HUGE_[] = { SIZE_MAX, SIZE_MAX - 1, SIZE_MAX / 2, SIZE_MAX / 2 + 1, (size_t)INT32_MAX, (size_t)INT32_MAX - 16, (size_t)INT32_MAX - 15, (size_t)INT32_MAX - 17, (size_t)UINT32_MAX, (size_t)UINT32_MAX + 1, (size_t)UINT32_MAX + 2 };
static std::vector<size_t> bounds(size_t top) { std::vector<size_t> v; for (size_t i = 0; i <= top; i++) v.push_back(i); for (size_t h : HUGE_) v.push_back(h); return v; }

static Bytes content(size_t n, const char *l) { // all strings over {0,1,0xff} up to n 3, patterns above
    if (n == 0) return ""; if (n <= 3) { Bytes s; static const char A[] = { 0, 1, (char)0xff }; for (size_t i = 0; i < n; i++) s += A[mc::choose(3, l)]; return s; }
    return pat(n, mc::choose(2, l));
}
static int cmp_calls; static size_t cmp_len;
static int my_cmp(const volatile void *a, const volatile void *b, size_t n) { cmp_calls++; cmp_len = n; return memcmp((const void *)a, (const void *)b, n); }

static void sections()
{
    size_t n = mc::choose(mc::tier(7, 10)); std::vector<size_t> bs = bounds(mc::tier(8, 12));
    Bytes s = pat(n, 3); bool modify = mc::flip("modify");
    size_t start = mc::pick(bs), len = mc::pick(bs);
    bool want = len > 0 && start <= n && len <= n - start;
    mc::nontrivial(mc::Hash().u(n).u(start).u(len).u(modify).h); mc::step();
    Exact src(s); if (n == 0) { src.b.length = 0; }
    if (!modify) {
        OBuf r(wickr_buffer_copy_section(src, start, len));
        MC_CHECK((bool)r == want, "copy-section-range", "copy_section(len=%zu,start=%zu,n=%zu) -> %s", n, start, len, r ? "buffer" : "NULL");
        if (r) { MC_CHECK(is(r.get(), s.substr(start, len)), "copy-section-content", "wrong bytes %s", hex(str(r.get())).c_str()); MC_CHECK(r->bytes != src.b.bytes + start, "copy-section-alias", "section aliases its source"); }
        MC_CHECK(is(src, s), "copy-section-modifies", "source changed");
    } else {
        Bytes in = pat(want ? len : (len < 64 ? len : 64), 9); Exact ib(in);
        bool r = wickr_buffer_modify_section(src, ib.b.bytes, start, len);
        MC_CHECK(r == want, "modify-range", "modify_section(len=%zu,start=%zu,n=%zu) -> %d", n, start, len, r);
        Bytes exp = s; if (want) exp.replace(start, len, in);
        MC_CHECK(is(src, exp), "modify-content", "buffer is %s, expected %s", hex(str(src)).c_str(), hex(exp).c_str());
    }
    mc::outcome(want ? "section accepted" : "section refused");
}
static void create()
{
    int op = mc::choose(5); std::vector<size_t> bs = bounds(mc::tier(40, 300)); size_t n = mc::pick(bs); mc::step();
    if (n >= 1u << 20 && n <= MAX_BUFFER_SIZE) mc::prune();        // legal but too big to exercise
    if (op >= 2 && n > (1u << 20)) n = SIZE_MAX - 3;
    bool want = n > 0 && n <= MAX_BUFFER_SIZE; Bytes s = want ? pat(n, 1) : Bytes("x");
    OBuf r; Exact src(s); wickr_buffer_t fake = src.b; fake.length = n;
    switch (op) {
    case 0: r.reset(wickr_buffer_create_empty(n)); break;
    case 1: r.reset(wickr_buffer_create_empty_zero(n)); break;
    case 2: r.reset(wickr_buffer_create(src.b.bytes, n)); break;
    case 3: r.reset(wickr_buffer_copy(&fake)); break;
    case 4: MC_CHECK(!wickr_buffer_create(nullptr, n), "create-null", "create(NULL,%zu) succeeded", n); return;
    }
    MC_CHECK((bool)r == want, "create", "op %d size %zu -> %s", op, n, r ? "buffer" : "NULL");
    if (!r) { mc::outcome("create refused"); return; }
    MC_CHECK(r->length == n, "create-length", "length %zu instead of %zu", r->length, n);
    if (op == 1) MC_CHECK(is(r.get(), Bytes(n, 0)), "create-zero", "not zeroed");
    if (op >= 2) MC_CHECK(is(r.get(), s) && r->bytes != src.b.bytes, "create-copy", "wrong contents or alias");
    memset(r->bytes, 0x5a, n);                                      // the whole extent is usable (sanitizer)
    if (op >= 2) MC_CHECK(is(src, s), "copy-independent", "writing the copy changed the source");
    bool z = mc::flip("zero"); wickr_buffer_t *p = r.release();
    if (z) wickr_buffer_destroy_zero(&p); else wickr_buffer_destroy(&p);
    MC_CHECK(!p, "destroy-null", "destroy left a dangling pointer"); wickr_buffer_destroy(&p); wickr_buffer_destroy_zero(&p); wickr_buffer_destroy(nullptr); wickr_buffer_destroy_zero(nullptr);
    mc::outcome("create accepted");
}
static void concat()
{
    int op = mc::choose(3);
    if (op == 0) {
        int na = mc::choose(mc::tier(4, 6)), nb = mc::choose(mc::tier(4, 6)); Bytes a = content(na, "a"), b = content(nb, "b"); Exact ea(a), eb(b);
        bool an = mc::flip(), bn = mc::flip(); OBuf r(wickr_buffer_concat(an ? nullptr : (CB)ea, bn ? nullptr : (CB)eb)); mc::step();
        bool want = !an && !bn && na + nb > 0;
        MC_CHECK((bool)r == want, "concat", "concat(%d%s,%d%s) -> %s", na, an ? " null" : "", nb, bn ? " null" : "", r ? "buffer" : "NULL");
        if (r) MC_CHECK(is(r.get(), a + b), "concat-content", "got %s", hex(str(r.get())).c_str());
        MC_CHECK(is(ea, a) && is(eb, b), "concat-modifies", "an operand changed");
        mc::outcome(want ? "concat accepted" : "concat refused"); mc::nontrivial(mc::Hash().s(a).u(7).s(b).h);
    } else if (op == 1) {                                          // totals above the limit (bytes must not be touched)
        std::vector<size_t> v = { 1, 2, 16, 17, MAX_BUFFER_SIZE / 2, MAX_BUFFER_SIZE / 2 + 1, MAX_BUFFER_SIZE / 2 + 2, MAX_BUFFER_SIZE - 1, MAX_BUFFER_SIZE, MAX_BUFFER_SIZE + 1, SIZE_MAX / 2, SIZE_MAX / 2 + 1, SIZE_MAX - 1, SIZE_MAX, SIZE_MAX - MAX_BUFFER_SIZE + 1, SIZE_MAX - 15 };
        size_t x = mc::pick(v), y = mc::pick(v), z = mc::pick(v); bool multi = mc::flip();
        bool over = x > MAX_BUFFER_SIZE || y > MAX_BUFFER_SIZE - x; bool over3 = over || z > MAX_BUFFER_SIZE - x - y;
        if (multi ? !over3 : !over) mc::prune();
        uint8_t one = 1; wickr_buffer_t a = { x, &one }, b = { y, &one }, c = { z, &one }; wickr_buffer_t *l[3] = { &a, &b, &c }; mc::step();
        OBuf r(multi ? wickr_buffer_concat_multi(l, 3) : wickr_buffer_concat(&a, &b));
        MC_CHECK(!r, "concat-overflow", "concat of %zu + %zu (+ %zu) bytes accepted", x, y, z); mc::outcome("concat overflow refused");
    } else {
        int n = mc::choose(mc::tier(5, 6)); std::vector<Bytes> v; std::vector<std::unique_ptr<Exact>> e; std::vector<wickr_buffer_t *> l; Bytes all;
        for (int i = 0; i < n; i++) { Bytes s = pat(mc::choose(5, "len"), i * 7); v.push_back(s); all += s; e.emplace_back(new Exact(s)); l.push_back(&e.back()->b); }
        l.push_back(nullptr); OBuf r(wickr_buffer_concat_multi(l.data(), (uint8_t)n)); mc::step();
        MC_CHECK((bool)r == !all.empty(), "concat-multi", "%d buffers -> %s", n, r ? "buffer" : "NULL");
        if (r) MC_CHECK(is(r.get(), all), "concat-multi-content", "got %s", hex(str(r.get())).c_str());
        for (int i = 0; i < n; i++) MC_CHECK(is(*e[i], v[i]), "concat-modifies", "operand %d changed", i);
        MC_CHECK(!wickr_buffer_concat_multi(nullptr, (uint8_t)n), "concat-multi-null", "NULL list accepted"); mc::outcome("concat multi");
        mc::nontrivial(mc::Hash().s(all).u(n).h);
    }
}
static void many()          // counts around the end of the counter type
{
    int n = mc::choose(256); Bytes all; std::vector<wickr_buffer_t> st(n); std::vector<Bytes> keep(n); std::vector<wickr_buffer_t *> l;
    for (int i = 0; i < n; i++) { keep[i] = pat(1 + i % 3, i); st[i] = view(keep[i]); l.push_back(&st[i]); all += keep[i]; } l.push_back(nullptr); mc::step();
    OBuf r(wickr_buffer_concat_multi(l.data(), (uint8_t)n)); MC_CHECK(n ? is(r.get(), all) : !r, "concat-many", "%d buffers", n);
}
static void equal()
{
    int na = mc::choose(mc::tier(5, 6)), nb = mc::choose(mc::tier(5, 6)); Bytes a = content(na, "a"), b = content(nb, "b"); Exact ea(a), eb(b); bool cf = mc::flip("cmp");
    int nul = mc::choose(4); bool self = mc::flip("self") && na == nb; if (self) b = a; mc::step();
    CB pa = nul & 1 ? nullptr : (CB)ea, pb = nul & 2 ? nullptr : self ? (CB)ea : (CB)eb; cmp_calls = 0;
    bool r = wickr_buffer_is_equal(pa, pb, cf ? my_cmp : nullptr), want = pa && pb && a == b;
    if (pa && pb && !na && !nb) return;
    MC_CHECK(r == want, "equal", "is_equal(%s,%s)=%d", hex(a).c_str(), hex(b).c_str(), r);
    if (cf && cmp_calls) MC_CHECK(na == nb && cmp_len == (size_t)na, "equal-range", "comparison over %zu bytes", cmp_len);
    if (cf && want) MC_CHECK(cmp_calls >= 1, "equal-uses-given", "the given comparison was not used");
    mc::outcome(want ? "equal" : "different"); mc::nontrivial(mc::Hash().s(a).u(1).s(b).h);
}

// ---- arrays -----------------------------------------------------------------------------------
struct Item { int v; };
static std::map<Item *, int> live; static int destroyed_twice; static bool copy_fails;
static void *icopy(void *p) { if (copy_fails) return nullptr; Item *q = new Item{((Item *)p)->v}; if (!live.count((Item *)p)) mc::fail("array-copy-dead", "copy of a released item"); live[q] = q->v; return q; }
static void idestroy(void **p) { Item *i = (Item *)*p; if (!i) return; if (!live.erase(i)) mc::fail("array-double-destroy", "an item was destroyed twice"); delete i; *p = nullptr; }
static Item *inew(int v) { Item *i = new Item{v}; live[i] = v; return i; }
struct MA { wickr_array_t *a; std::vector<Item *> m; };
// Ownership discipline: every array in a run is "deep" (all sets copy) "shallow" (items owned by
// the test) or "transfer" (deep, but sets may also hand over a fresh item without copying; a replaced item is then the caller's again).
static void arrays()
{
    live.clear(); copy_fails = false; int mode = mc::choose(3, "mode"); bool deep = mode != 1, transfer = mode == 2; uint32_t size = mc::choose(mc::tier(4, 4)); int depth = mc::tier(4, 5); bool fails_allowed = deep;
    std::vector<Item *> pool = { inew(100), inew(101) };
    MC_CHECK(!wickr_array_new(size, 1, nullptr, idestroy) && !wickr_array_new(size, 1, icopy, nullptr), "array-new-nofunc", "array without item functions created");
    std::vector<MA> as; as.push_back({ wickr_array_new(size, 1, icopy, idestroy), std::vector<Item *>(size, nullptr) });
    MC_CHECK(as[0].a, "array-new", "array of %u not created", size);
    static const uint32_t X[] = { UINT32_MAX, UINT32_MAX / 8 + 1, 1u << 29, 1u << 31 };
    std::vector<std::vector<int>> mv = { std::vector<int>(size, -1) };                       // -1: NULL
    auto check = [&]() {
        for (size_t k = 0; k < as.size(); k++) { MC_CHECK(wickr_array_get_item_count(as[k].a) == size, "array-count", "count changed");
            for (uint32_t i = 0; i < size + 2; i++) { Item *it = (Item *)wickr_array_fetch_item(as[k].a, i, false); int want = i < size ? mv[k][i] : -1;
                if (it && !live.count(it)) mc::fail("array-dangling", "array %zu index %u holds a released item", k, i);
                MC_CHECK((it ? it->v : -1) == want, "array-content", "array %zu index %u is %d, expected %d", k, i, it ? it->v : -1, want);
                if (it && !deep) MC_CHECK(it == pool[want - 100], "array-shallow-identity", "a shallow set stored another object"); } }
        size_t expect = pool.size(); if (deep) for (auto &m : mv) for (int v : m) expect += v >= 0;
        MC_CHECK(live.size() == expect, "array-ownership", "%zu items alive, expected %zu", live.size(), expect);
    };
    for (int d = 0; d < depth; d++) {
        mc::Hash h; h.u(mode).u(size).u(depth - d).u(as.size()); for (auto &m : mv) for (int v : m) h.u(v + 1); if (d) { if (mc::seen(h.h)) mc::prune(); } mc::state(h.h); mc::step();
        int op = mc::choose(5, "op"); size_t k = as.size() > 1 ? mc::choose((int)as.size(), "which") : 0;
        if (op == 0) {                                   // set
            uint32_t i = mc::choose(size + 2 + 4, "index"); if (i >= size + 2) i = X[i - size - 2]; int it = mc::choose(3, "item"); bool byc = transfer ? mc::flip("by copy") : deep; bool cf = byc && it < 2 && mc::flip("copy fails"); copy_fails = cf;
            Item *given = it == 2 ? nullptr : transfer && !byc ? inew(100 + it) : pool[it]; Item *old = i < size ? (Item *)wickr_array_fetch_item(as[k].a, i, false) : nullptr;
            bool r = wickr_array_set_item(as[k].a, i, given, byc); copy_fails = false;
            if (transfer && !byc) { if (r && given) MC_CHECK(wickr_array_fetch_item(as[k].a, i, false) == given, "array-transfer-identity", "a handed over item was not stored itself");
                void *mine = r ? (void *)old : (void *)given; if (mine) { MC_CHECK(live.count((Item *)mine), "array-transfer-ownership", "an item that is the caller's was released by the array"); idestroy(&mine); } }
            if (i >= size) MC_CHECK(!r, "array-set-bounds", "set at %u in an array of %u accepted", i, size);
            else if (cf) MC_CHECK(!r, "array-set-copyfail", "set succeeded although the copy failed");
            else if (it < 2) MC_CHECK(r, "array-set", "set refused");
            if (r) mv[k][i] = it < 2 ? 100 + it : -1;
            mc::outcome(r ? "set" : "set refused");
        } else if (op == 1) {                            // fetch a copy
            uint32_t i = mc::choose(size + 2, "index"); if (i == size + 1) i = UINT32_MAX; Item *it = (Item *)wickr_array_fetch_item(as[k].a, i, true); int want = i < size ? mv[k][i] : -1;
            MC_CHECK((it ? it->v : -1) == want, "array-fetch", "fetch at %u gave %d, expected %d", i, it ? it->v : -1, want);
            if (it) { MC_CHECK(it != wickr_array_fetch_item(as[k].a, i, false), "array-fetch-copy", "fetch with copy returned the stored item"); void *p = it; idestroy(&p); }
            mc::outcome(it ? "fetched" : "nothing fetched");
        } else if (op == 2) {                            // copy the array
            if (as.size() >= 3) mc::prune(); bool has = false; for (int v : mv[k]) has |= v >= 0; bool cf = fails_allowed && has && mc::flip("copy fails"); copy_fails = cf; wickr_array_t *c = wickr_array_copy(as[k].a, deep); copy_fails = false;
            MC_CHECK((c != nullptr) == !cf, "array-copy", "array copy %s", c ? "succeeded although an item copy failed" : "failed");
            if (c) { as.push_back({ c, {} }); mv.push_back(mv[k]); } mc::outcome(c ? "copied" : "copy failed");
        } else if (op == 3) {                            // destroy one
            if (as.size() < 2) mc::prune(); wickr_array_destroy(&as[k].a, deep); MC_CHECK(!as[k].a, "array-destroy-null", "pointer not cleared"); wickr_array_destroy(&as[k].a, deep); as.erase(as.begin() + k); mv.erase(mv.begin() + k); mc::outcome("destroyed");
        } else {
            MC_CHECK(wickr_array_get_item_count(nullptr) == 0 && !wickr_array_fetch_item(nullptr, 0, false) && !wickr_array_set_item(nullptr, 0, pool[0], deep) && !wickr_array_copy(nullptr, deep), "array-null", "NULL array accepted"); wickr_array_destroy(nullptr, deep); d = depth;
        }
        check();
    }
    for (auto &x : as) wickr_array_destroy(&x.a, deep);
    MC_CHECK(live.size() == pool.size(), "array-leak", "%zu items alive at the end", live.size()); for (auto p : pool) { void *q = p; idestroy(&q); }
}
// arrays of many items: every index is its own slot in the array, in copies of it, and after replacing
static void wide()
{
    static const std::vector<uint32_t> Q = { 5, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 65535, 65536, 65537 };
    live.clear(); copy_fails = false; bool deep = mc::flip("deep"); uint32_t size = mc::pick(Q, "size"); if (size > 2000 && !mc::thorough() && size != 65537) mc::prune(); int hole = mc::choose(3, "holes"); std::vector<Item *> pool; if (!deep) for (uint32_t i = 0; i < size; i++) pool.push_back(inew(1000 + i)); mc::step(); mc::nontrivial(mc::Hash().u(deep).u(size).u(hole).h);
    auto want = [&](uint32_t i) { return hole == 1 && i % 2 ? -1 : hole == 2 && i != size - 1 ? -1 : 1000 + (int)i; };
    auto verify = [&](wickr_array_t *a, const char *what, int shift) { MC_CHECK(wickr_array_get_item_count(a) == size, "array-wide", "%s of %u items counts %u", what, size, wickr_array_get_item_count(a)); for (uint32_t i = 0; i < size; i++) { Item *it = (Item *)wickr_array_fetch_item(a, i, false); int w = want(i); if (shift && i == size - 1) w = 1000 + (int)i + shift; if (it && !live.count(it)) mc::fail("array-wide-dangling", "%s of %u items: index %u holds a released item", what, size, i); MC_CHECK((it ? it->v : -1) == w, "array-wide", "%s of %u items: index %u is %d, expected %d", what, size, i, it ? it->v : -1, w);
            Item *c = (Item *)wickr_array_fetch_item(a, i, true); MC_CHECK((c ? c->v : -1) == w && (!c || c != it), "array-wide-fetch-copy", "%s of %u items: fetching a copy of index %u gives %s", what, size, i, c == it && c ? "the stored item" : "another value"); if (c) { void *p = c; idestroy(&p); } }
        MC_CHECK(!wickr_array_fetch_item(a, size, false) && !wickr_array_fetch_item(a, size, true), "array-wide-bounds", "%s of %u items has an item behind the last", what, size); };
    wickr_array_t *a = wickr_array_new(size, 1, icopy, idestroy); MC_CHECK(a, "array-wide", "no array of %u items", size); size_t n = 0;
    for (uint32_t i = 0; i < size; i++) if (want(i) >= 0) { Item *g = deep ? inew(1000 + i) : pool[i]; MC_CHECK(wickr_array_set_item(a, i, g, deep), "array-wide", "set at %u of %u refused", i, size); if (deep) { void *p = g; idestroy(&p); } n++; }
    verify(a, "an array", 0); wickr_array_t *b = wickr_array_copy(a, deep); MC_CHECK(b, "array-wide", "an array of %u items cannot be copied", size); verify(b, "a copy", 0); if (deep) for (uint32_t i = 0; i < size; i++) MC_CHECK(!wickr_array_fetch_item(a, i, false) || wickr_array_fetch_item(a, i, false) != wickr_array_fetch_item(b, i, false), "array-wide-shared", "index %u of %u is shared by a deep copy", i, size);
    MC_CHECK(live.size() == (deep ? 2 * n : pool.size()), "array-wide-ownership", "%zu items alive with an array and its copy", live.size());
    Item *x = inew(1000 + size - 1 + 7); MC_CHECK(wickr_array_set_item(a, size - 1, x, deep), "array-wide", "replacing the last of %u refused", size); verify(a, "an array with its last item replaced", 7); verify(b, "a copy of a changed array", 0);
    wickr_array_destroy(&a, deep); verify(b, "a copy of a destroyed array", 0); wickr_array_destroy(&b, deep); MC_CHECK(live.size() == pool.size() + 1, "array-wide-leak", "%zu items alive at the end", live.size()); { void *p = x; idestroy(&p); } for (auto p : pool) { void *q = p; idestroy(&q); } mc::outcome("many items");
}
// lengths around the widths a length could be cut to
static void large()
{
    static std::vector<size_t> L; if (L.empty()) { for (int w : mc::thorough() ? std::vector<int>{ 7, 8, 15, 16, 20, 23, 24, 25 } : std::vector<int>{ 7, 8, 15, 16, 20, 24 }) for (int d = -1; d <= 1; d++) L.push_back(((size_t)1 << w) + d); }
    size_t n = mc::pick(L, "length"); int op = mc::choose(6, "operation"); Bytes a = pat(n, 3); Exact ea(a); mc::step(); static const char *ON[] = { "copy", "equal", "section", "modify", "concat", "concat-multi" }; mc::note("%s, %zu bytes", ON[op], n);
    switch (op) {
    case 0: { OBuf c(wickr_buffer_copy(ea)); MC_CHECK(is(c.get(), a), "large-copy", "a copy of %zu bytes differs", n); break; }
    case 1: { for (size_t m : L) { Bytes b = n == m ? a : n < m ? a + Bytes(m - n, 0) : a.substr(0, m); Exact eb(b); MC_CHECK(wickr_buffer_is_equal(ea, eb, nullptr) == (n == m), "large-equal", "buffers of %zu and %zu bytes are %s", n, m, n == m ? "different" : "equal"); } { size_t m = n % 65536; if (m && m < n) { Exact eb(a.substr(0, m)); MC_CHECK(!wickr_buffer_is_equal(ea, eb, nullptr) && !wickr_buffer_is_equal(eb, ea, nullptr), "large-equal", "buffers of %zu and %zu bytes are equal", n, m); } }
        for (size_t at : { (size_t)0, n / 2, n - 1 }) { Bytes b = a; b[at] ^= 1; Exact eb(b); MC_CHECK(!wickr_buffer_is_equal(ea, eb, nullptr), "large-equal", "%zu bytes that differ at %zu are equal", n, at); } break; }
    case 2: { for (size_t at : { (size_t)0, (size_t)1, n / 2, n - 1, n }) for (size_t len : { (size_t)1, n / 2, n - at, n - at + 1 }) { OBuf s(wickr_buffer_copy_section(ea, at, len)); bool want = len && at + len <= n; if (!len) continue; MC_CHECK((bool)s == want, "large-section", "%zu bytes at %zu of %zu: %s", len, at, n, s ? "given" : "refused"); if (s) MC_CHECK(is(s.get(), a.substr(at, len)), "large-section", "%zu bytes at %zu of %zu differ", len, at, n); } break; }
    case 3: { for (size_t at : { (size_t)0, n / 2, n - 1, n }) for (size_t len : { (size_t)1, n / 2, n - at, n - at + 1 }) { if (!len) continue; Bytes v(len, 'M'); Exact ev(v); bool want = at + len <= n; OBuf c(wickr_buffer_copy(ea)); bool ok = wickr_buffer_modify_section(c.get(), ((CB)ev)->bytes, at, len); Bytes w = a; if (want) w.replace(at, len, v); MC_CHECK(ok == want && is(c.get(), w), "large-modify", "%zu bytes at %zu of %zu: %d", len, at, n, ok); } break; }
    case 4: { for (size_t m : L) { if (n + m > mc::tier(40000000, 80000000)) continue; Bytes b = pat(m, 4); Exact eb(b); OBuf r(wickr_buffer_concat(ea, eb)); MC_CHECK(is(r.get(), a + b), "large-concat", "%zu and %zu bytes", n, m); } break; }
    case 5: { for (size_t m : L) { if (n + 2 * m > mc::tier(40000000, 80000000)) continue; Bytes b = pat(m, 4); Exact eb(b); MB l[3] = { (MB)(CB)eb, (MB)(CB)ea, (MB)(CB)eb }; OBuf r(wickr_buffer_concat_multi(l, 3)); MC_CHECK(is(r.get(), b + a + b), "large-concat", "%zu, %zu and %zu bytes", m, n, m); } break; }
    }
    mc::outcome("large"); mc::nontrivial(mc::Hash().u(n).u(op).h);
}
int main(int c, char **v)
{
    mc::init("B01", "model_checking", "a violation is any return value, content or ownership that differs from the abstract byte string or sequence, or any access outside an object", c, v); rng_install();
    mc::assume("buffers handed in are well formed: length bytes are readable; the array ownership discipline (all sets copying, or none) is kept by the caller");
    mc::part("sections", sections); mc::part("create", create); mc::part("concat", concat); mc::part("concat-many", many); mc::part("equal", equal); mc::part("large", large); mc::part("arrays", arrays); mc::part("arrays-wide", wide, mc::PartOpts{.require = { "many items" }});
    return mc::finish();
}
