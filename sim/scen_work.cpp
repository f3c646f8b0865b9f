// C23: what building, freezing, destroying, filling a builder and reading lines cost the thread that does it, in
// steps, in memory requested and in memory held at once, whatever the others do meanwhile and also after failures.
#include "scen.hpp"
#include <errno.h>
#include <stdio.h>

namespace sim {

// plan lines
//  wb t cfg kind var gen n seed p route fail every      t builds, freezes, sizes, maps and destroys one; before that fail
//                                                       attempts that fail at an allocation or at an input element
//  wq t seed ops max                                    t runs a history over builders
//  wp t kind var bits pattern seed                      t fills a builder by words and makes one of it; to 2^25 bits
//  wl t seed lines max shape                            t reads a file of lines
// bits, numbers and other elements the caller hands over (an Elias-Fano set of nothing is a bitmap of its universe)
static u64 elements(Model const& m) { return m.length() + m.list.size() + m.nib.size() + m.vec32.size() + (m.sp.kind == K_EF ? m.vals.empty() ? m.universe : m.bits.size() : 0); }

struct Limit { u64 steps, bytes, peak; };
static void measure(Limit const& l, const char* what, std::string const& of, std::function<void()> const& f)
{
    std::string name = of.empty() ? what : of + "." + what;
    work_begin(l.steps, l.bytes, l.peak, name.c_str());
    struct End { ~End() { work_cancel(); } } end;
    f();
    Work w = work_end();
    count(C_p_work);
    event(0x30121, w.steps, w.bytes);
}

// About eight times what building takes at most, per element of the input: steps, bytes requested, bytes held at once.
// (Most of the bytes are those of a select directory or of a first array of numbers.)
static Limit build_limit(Model const& m)
{
    u64 n = elements(m), st, by, pk;
    switch (m.sp.kind) {
    case K_MV8: case K_MV16: case K_MV32: case K_MV64: st = 60; by = pk = 64; break;
    case K_BV: st = 160; by = 16; pk = 8; break;
    case K_RS: case K_BP: st = 200; by = 24; pk = 16; break;
    case K_NV: st = 100; by = 24; pk = 16; break;
    case K_DA: case K_D64: st = 320; by = 280; pk = 200; break;
    case K_CT: case K_EF: st = 400; by = 320; pk = 240; break;
    case K_TKM: st = 400; by = 360; pk = 240; break;
    case K_EFL: case K_EFCL: case K_GV: case K_GB: st = 600; by = 560; pk = 360; break;
    default: st = 1300; by = 640; pk = 400; break;
    }
    Limit l = { 30000 + st * n, 40000 + by * n, 30000 + pk * n };
    return l;
}

static void work_build(Line const& l, Model const& m)
{
    u64 cfg = l.at(1) % 2, fails = std::min<u64>(l.at(9), 3), every = l.at(10);
    const char* kn = kind_names[m.sp.kind];
    Limit bl = build_limit(m);
    for (u64 k = 0; k < fails; ++k) {
        u64 at = mix64(l.at(6) + k * 77 + every);
        bool input = at & 1;
        InputFault in; if (input) in.at = 1 + (at >> 8) % (m.length() + 1); else arm_alloc(1 + (at >> 8) % 24, at >> 7 & 1);
        Obj* o = 0;
        try { measure(bl, "failed building", kn, [&] { o = factory(cfg)->build(m, l.at(8), input ? &in : 0); }); }
        catch (std::bad_alloc&) { t_lib = 0; count(C_p_reported_failure); }
        catch (InputError&) { t_lib = 0; count(C_p_reported_failure); }
        if (!input) disarm_alloc();
        if (o) o->destroy();
    }
    Obj* o = 0;
    u64 before = heap_live_here().bytes;
    measure(bl, "building", kn, [&] { o = factory(cfg)->build(m, l.at(8), 0); });
    u64 held = heap_live_here().bytes - before;
    Limit small = { 30000, 65536, 65536 };
    u64 z = 0;
    measure(small, "sizing", kn, [&] { z = o->size_of(); });
    measure(small, "size tree", kn, [&] { std::vector<TreeNode> tn; std::string d; o->size_tree(tn, d); });
    if (held > 12000 + 16 * z) { std::string cls = std::string("unbounded-memory:") + kn; violation(cls.c_str(), "%s of %llu bytes holds %llu bytes of memory", kn, (unsigned long long)z, (unsigned long long)held); }
    char name[64]; snprintf(name, sizeof name, "/simdisk/w%llu.img", (unsigned long long)l.at(0));
    Limit fl = { 20000 + 200 * (z / 8), 65536 + 8 * z, 65536 + 8 * z };
    u64 rep = 0;
    measure(fl, "freezing", kn, [&] { rep = o->freeze(name, 0); });
    std::string image = read_disk(name + 9);
    if (rep != image.size()) violation("freeze-count", "freeze reported %llu bytes, the file has %zu", (unsigned long long)rep, image.size());
    check_some(o, m, l.at(6), 8, "built within bounds");
    {
        ReadOnlyImage img(image.data(), image.size(), l.at(6) % 3);
        Obj* q = factory(cfg)->empty(m.sp.kind);
        u64 rd = 0;
        measure(l.at(6) & 1 ? fl : small, l.at(6) & 1 ? "mapping with warm-up" : "mapping", kn, [&] { rd = q->map(img.base, l.at(6) & 1); });
        if (rd != image.size()) violation("map-count", "map reported %llu bytes of %zu", (unsigned long long)rd, image.size());
        check_some(q, m, l.at(6) + 1, 4, "mapped within bounds");
        measure(small, "swapping", kn, [&] { q->swap(*o); q->swap(*o); });
        measure(small, "destroying a mapped one", kn, [&] { q->destroy(); });
    }
    measure(small, "destroying", kn, [&] { o->destroy(); });
    count(C_compared);
}

static void work_builder(Line const& l)
{
    Rng r(l.at(1));
    u64 ops = std::min<u64>(l.at(2), 200000), max = std::min<u64>(std::max<u64>(1, l.at(3)), 20000);
    Factory* fa = factory(CFG_MAIN);
    Builder* b = 0; Builder* o = 0;
    u64 moved = 0, bits = 0;                // words and bits the operations wrote
    u64 style = r.below(4);                 // mostly: single bits, words, runs, appends
    Limit first = { 2000, 20000, 20000 };
    measure(first, "new builder", "", [&] { b = fa->builder(0, false); o = fa->builder(0, false); });
    {
        Rng q(r.next());
        u64 n = 1 + q.below(max);
        for (u64 i = 0; i < n; i += 64) o->append_bits(q.next(), 64);
    }
    u64 osz = o->size();
    work_begin(2000, 4000, 4000, "bit_vector_builder.filling");
    struct End { ~End() { work_cancel(); } } end;
    u64 limit_bits = 3000000;
    for (u64 i = 0; i < ops && b->size() < limit_bits; ++i) {
        u64 k = r.below(8) ? style : r.below(4), x = r.next();
        u64 len = k == 1 ? x % 65 : k == 2 ? (x >> 8 & 1 ? x % 200 : x % max) : k == 3 ? osz : 1;
        moved += 1 + len / 64; bits += len;
        work_allow(2000 + 140 * moved + 30 * bits, 8000 + 128 * moved, 8000 + 96 * moved);
        switch (k) {
        case 0: b->push_back(x & 1); break;
        case 1: b->append_bits(len == 64 ? x : x >> 8 & ((u64(1) << len) - 1), len); break;
        case 2: if (x >> 9 & 1) b->one_extend(len); else b->zero_extend(len); break;
        default: b->append(*o); break;
        }
    }
    u64 sz = b->size();
    moved += sz / 64 + 1; bits += sz;
    work_allow(2000 + 140 * moved + 30 * bits, 8000 + 128 * moved, 8000 + 96 * moved);
    b->reverse();
    Work w = work_end();
    count(C_p_work);
    event(0x30122, w.steps, w.bytes);
    b->destroy(); o->destroy();
    count(C_compared);
}

static void work_pattern(Line const& l)
{
    static const u64 kinds[] = { K_BV, K_RS, K_BP, K_DA, K_EF };
    u64 kind = kinds[l.at(1) % 5], var = l.at(2) & 3, dense = kind == K_DA || kind == K_EF, n = std::min<u64>(l.at(3), u64(1) << (dense ? 23 : 25)) & ~u64(127), style = l.at(4) % 4;
    Rng r(l.at(5));
    const char* kn = kind_names[kind];
    Factory* fa = factory(CFG_MAIN);
    Builder* b = 0;
    u64 before = heap_live_here().bytes;
    Limit fill = { 20000 + 30 * n, 20000 + 2 * n, 20000 + 2 * n };
    measure(fill, "filling by words", "bit_vector_builder", [&] {
        b = fa->builder(0, false);
        if (kind == K_BP) switch (style) {
            case 0: b->append_pattern(0x5555555555555555ULL, n); break;
            case 1: b->one_extend(n / 2); b->zero_extend(n / 2); break;
            default: { u64 half = 1 + r.below(n / 64 + 1); for (u64 i = 0; i < n;) { u64 m = std::min<u64>(half, (n - i) / 2); b->one_extend(m); b->zero_extend(m); i += 2 * m; } }
        } else switch (style) {
            case 0: b->append_pattern(r.next(), n); break;
            case 1: b->append_pattern(u64(1) << r.below(64), n); break;
            case 2: { u64 m = 1 + r.below(n / 8 + 1); bool one = r.below(2); for (u64 i = 0; i < n; one = !one) { u64 k = std::min(m, n - i); if (one) b->one_extend(k); else b->zero_extend(k); i += k; } } break;
            default: { u64 gap = 64 + r.below(4000), i = 0; for (; i + gap < n; i += gap) { b->zero_extend(gap - 1); b->push_back(true); } b->zero_extend(n - i); }
        }
    });
    if (b->size() != n) violation("builder-size", "a builder of %llu bits says it has %llu", (unsigned long long)n, (unsigned long long)b->size());
    // a word may be walked bit by bit
    Limit lim = { 30000 + (kind == K_EF ? 280 : dense ? 130 : 20) * n, 60000 + (dense ? 40 : 3) * n, 40000 + (dense ? 20 : 2) * n };
    Obj* o = 0;
    measure(lim, "making of a builder", kn, [&] { o = b->finish(kind, var); });
    b->destroy();
    u64 held = heap_live_here().bytes - before, z = o->size_of();
    if (held > 20000 + 16 * z) { std::string cls = std::string("unbounded-memory:") + kn; violation(cls.c_str(), "%s of %llu bytes holds %llu bytes of memory", kn, (unsigned long long)z, (unsigned long long)held); }
    o->destroy();
    count(C_compared);
}

static void work_lines(Line const& l)
{
    Rng r(l.at(1));
    u64 nl = std::min<u64>(l.at(2), 20000), max = std::min<u64>(std::max<u64>(1, l.at(3)), 24 << 20), shape = l.at(4);
    std::string all; std::vector<u64> len;
    for (u64 i = 0; i < nl && all.size() < std::max<u64>(1500000, max); ++i) {
        u64 n = max > 1000000 ? (i ? r.below(60) : max) : r.below(6) ? r.below(std::min<u64>(max, 60)) : r.below(max);
        len.push_back(n); all.append(n, char('a' + i % 26)); all += '\n';
    }
    char name[64]; snprintf(name, sizeof name, "l%llu.txt", (unsigned long long)l.at(0));
    std::string path = std::string("/simdisk/") + name;
    disk_put(name, all.data(), all.size());
    u64 words = all.size() / 8 + len.size() * 4;
    Limit lim = { 20000 + 200 * words, 65536 + 128 * words, 65536 + 64 * words };
    Factory* fa = factory(CFG_MAIN);
    size_t i = 0;
    auto got = [&](std::string const& s) { HarnessScope hs; if (i >= len.size() || s.size() != len[i]) violation("wrong-line", "line %zu has %zu bytes", i, s.size()); ++i; };
    if (shape % 3 == 2) {
        if (all.empty()) return;
        MmapLines* ml = 0;
        measure(lim, "mapped lines", "", [&] {
            ml = fa->mmap_lines(path.c_str());
            Lines* it = ml->begin();
            while (!it->done()) { std::string s; it->get(s); got(s); it->inc(); }
            it->destroy();
        });
        ml->destroy();
    } else {
        FILE* f = fopen(path.c_str(), "r");
        if (!f) harness_error("cannot open the lines");
        if (shape % 3 == 0) measure(lim, "reading lines", "", [&] { std::string s; while (fa->getline(s, f, true)) got(s); { LibScope ls; std::string().swap(s); } });
        else measure(lim, "iterating lines", "", [&] { Lines* it = fa->lines(f, true); while (!it->done()) { std::string s; it->get(s); got(s); it->inc(); } it->destroy(); });
        fclose(f);
    }
    if (i != len.size()) violation("wrong-line", "%zu lines of %zu were read", i, len.size());
    count(C_compared);
}

static void run23(Plan const& p)
{
    std::map<size_t, Model> models;
    std::vector<size_t> wk;
    u64 nt = 0;
    for (size_t i = 0; i < p.lines.size() && wk.size() < 24; ++i) {
        Line const& l = p.lines[i];
        if ((l.verb != "wb" && l.verb != "wq" && l.verb != "wp" && l.verb != "wl") || l.at(0) > 7) continue;
        if (l.verb == "wb") models[i].make(spec_of(l, 2));
        wk.push_back(i);
        nt = std::max(nt, l.at(0) + 1);
    }
    if (!nt) return;
    apply_world(p, 0);
    std::vector<std::function<void()> > bodies;
    for (u64 t = 0; t < nt; ++t) bodies.push_back([&, t] {
        for (size_t k = 0; k < wk.size(); ++k) {
            Line const& l = p.lines[wk[k]];
            if (l.at(0) != t) continue;
            guarded("measured work", [&] { if (l.verb == "wb") work_build(l, models[wk[k]]); else if (l.verb == "wq") work_builder(l); else if (l.verb == "wp") work_pattern(l); else work_lines(l); });
        }
    });
    std::vector<Switch> s, h; u64 first;
    get_switches(p, 0, s, h, first);
    std::vector<u64> st(nt);
    for (size_t i = 0; i < p.lines.size(); ++i) if (p.lines[i].verb == "stall" && p.lines[i].at(1) < nt) st[p.lines[i].at(1)] = p.lines[i].at(2);
    bool all = true; for (u64 t = 0; t < nt; ++t) all &= st[t] != 0;
    if (all && nt) st[0] = 0;
    stall_plan(st);
    run_threads(bodies, s, h, first);
    heap_check("at the end");
}
static void gen23(Rng& r, Plan& p, u64 idx)
{
    gen_world(r, p);
    bool longer = (idx + idx / 8) % 40 == 15, large = longer || (idx + idx / 8) % 10 == 5, stall = !large && r.below(3) == 0;
    u64 nt = longer ? 1 : large ? 1 + r.below(2) : 1 + r.below(4);
    gen_switches(r, p, 0, nt);
    u64 fav = r.below(N_KINDS);
    for (u64 t = 0; t < nt; ++t) {
        u64 k = 1 + r.below(large ? 1 : 3);
        for (u64 i = 0; i < k; ++i) switch (longer ? 2 + r.below(2) : r.below(7)) {
        case 2: if (longer) { p.add("wl", { t, r.next() >> 20, 1 + r.below(5), (8 + r.below(16)) << 20, r.below(3) }); break; } // fall through
        case 3: p.add("wp", { t, r.below(5), r.below(4), longer ? u64(1) << (23 + r.below(3)) : large ? 300000 + r.below(3000000) : 1 + r.below(r.below(3) ? 20000 : 200000), r.below(4), r.next() >> 20 }); break;
        case 0: p.add("wq", { t, r.next() >> 20, large ? 20000 + r.below(100000) : 1 + r.below(3000), 1 + r.below(r.below(2) ? 300 : 20000) }); break;
        case 1: p.add("wl", { t, r.next() >> 20, large ? 1 + r.below(20000) : 1 + r.below(400), 1 + r.below(r.below(3) ? 200 : large ? 400000 : 12000), r.below(3) }); break;
        default: {
            Spec s = pick_spec(r, r.below(2) ? fav : r.below(N_KINDS), large ? 2000000 : stall || r.below(3) ? 3000 : 60000);
            std::vector<u64> v; v.push_back(t); v.push_back(r.below(8) ? 0 : 1); put_spec(v, s);
            v.push_back(r.below(route_count(s.kind))); v.push_back(r.below(4) ? 0 : 1 + r.below(3)); v.push_back(r.next() >> 40);
            p.add("wb", v);
        } }
    }
    if (nt > 1 && stall) { u64 b = 1 + r.below(16); p.add("stall", { 0, r.below(nt), 1 + r.below(u64(1) << b) }); }
}
const Scenario sc_c23 = { "C23", gen23, run23 };

} // namespace sim
