#include "scen.hpp"
#include <sys/mman.h>
#include <unistd.h>
#include <sys/syscall.h>

namespace sim {

Factory* make_factory_main();
Factory* make_factory_nointr();
Factory* make_factory_popcnt();
Factory* make_factory_ref();
Factory* factory(u64 cfg)
{
    HarnessScope hs;
    switch (cfg % N_CONFIGS) {
    case CFG_MAIN: return make_factory_main();
    case CFG_NOINTR: return make_factory_nointr();
    case CFG_POPCNT: return make_factory_popcnt();
    default: return make_factory_ref();
    }
}
unsigned route_count(u64 kind)
{
    switch (kind) {
    case K_BV: case K_RS: case K_BP: case K_DA: case K_COMP: return 12;
    case K_EF: return 9;
    case K_CT: case K_MV8: case K_MV16: case K_MV32: case K_MV64: return 4;
    case K_D64: return 1;
    default: return 3;
    }
}

#define DESTROY(T) void T::destroy() { LibScope ls; delete this; }
// harness-side wrappers are deleted outside the library scope; what they hold is deleted inside it
void Obj::destroy() { HarnessScope hs; delete this; }
void Builder::destroy() { HarnessScope hs; delete this; }
DESTROY(Lines) DESTROY(MmapLines) DESTROY(AutoFile)

std::string ans_text(Ans const& a)
{
    std::string s = "[";
    for (size_t i = 0; i < a.size() && i < 12; ++i) { if (i) s += " "; s += std::to_string(a[i]); }
    if (a.size() > 12) s += " ...";
    return s + "]";
}

void compare(Model const& m, Query const& q, Ans const& want, Ans const& got, const char* ctx)
{
    count(C_compared);
    u64 h = 0; for (size_t i = 0; i < got.size(); ++i) h = mix64(h ^ got[i]);
    event(u64(q.op) << 8 | m.sp.kind, q.a ^ (q.b << 20), h);
    if (want == got) return;
    std::string cls = std::string("wrong-answer:") + kind_names[m.sp.kind] + "." + op_names[q.op];
    violation(cls.c_str(), "%s: %s (%llu elements).%s(%llu, %llu, %llu) gave %s, the content defines %s", ctx, kind_names[m.sp.kind],
              (unsigned long long)m.length(), op_names[q.op], (unsigned long long)q.a, (unsigned long long)q.b, (unsigned long long)q.c,
              ans_text(got).c_str(), ans_text(want).c_str());
}
// C21: work allowed to one query. The constants are eight times or more what the library needs at most, and a word may be walked bit by bit
// (60 steps for a rank/select vector, 3 per word of the 1024 a select directory may scan, 2.2 per word of a gap,
// 13 per element of an Elias-Fano bucket, 1200 per range minimum, 900 per top-k result).
bool g_bound_steps = false;
static u64 lg(u64 n) { return n ? 64 - u64(__builtin_clzll(n)) : 0; }
static u64 base_bound(Model const& m)
{
    switch (m.sp.kind) {
    case K_BP: return 5000;
    case K_CT: case K_TKE: case K_TKM: return 8000;
    case K_DA: case K_EF: case K_EFL: case K_COMP: return 14000;     // select directory over sparse positions
    case K_D64: case K_EFCL: case K_GV: case K_GB: return 3200;
    default: return 1500;
    }
}
u64 query_bound(Model const& m, Query const& q, Ans const& want)
{
    u64 w = m.walk(q, want), b = base_bound(m) + 40 * lg(m.length());
    if (q.op == Q_DATA && !m.has_bits()) w = m.length();
    u64 per = q.op == Q_TOPK || q.op == Q_TOPK_ENUM ? 8000 : m.sp.kind == K_EF ? 200 : 2000;
    return b + per * w;
}
u64 cursor_bound(Model const& m, u64 walk) { return (m.sp.kind == K_BV || m.sp.kind == K_RS ? 1500 : m.sp.kind == K_EFL ? 14000 : m.sp.kind == K_TKE || m.sp.kind == K_TKM ? 20000 : 3200) + 40 * lg(m.length()) + 2000 * walk; }
void bounded(u64 d, u64 limit, Model const& m, const char* what, const char* ctx)
{
    count(C_p_bounded);
    if (d * 4 > limit) count(C_p_bound_quarter);
    event(0x57E9, d);
    if (d <= limit) return;
    std::string cls = std::string("unbounded-work:") + kind_names[m.sp.kind] + "." + what;
    violation(cls.c_str(), "%s: %s of %s (%llu elements) took %llu steps of its own thread, more than %llu", ctx, what, kind_names[m.sp.kind], (unsigned long long)m.length(), (unsigned long long)d, (unsigned long long)limit);
}

bool check_query(Obj* o, Model const& m, u64 op, u64 a, u64 b, u64 c, const char* ctx)
{
    Query q; Ans want, got;
    if (!m.query(op, a, b, c, q, want)) return false;
    u64 s0 = own_steps();
    o->query(q, got);
    u64 d = own_steps() - s0;
    compare(m, q, want, got, ctx);
    if (g_bound_steps) bounded(d, query_bound(m, q, want), m, op_names[q.op], ctx);
    return true;
}
void check_some(Obj* o, Model const& m, u64 seed, u64 n, const char* ctx)
{
    Rng r(seed);
    for (u64 i = 0; i < n; ++i) { u64 op = r.next(), a = r.next() >> 8, b = r.next() >> 8, c = r.next() >> 8; check_query(o, m, op, a, b, c, ctx); }
}
void check_all(Obj* o, Model const& m, u64 seed, const char* ctx)
{
    Rng r(seed);
    u64 reps = m.length() < 100 ? 6 : 12;
    for (u64 op = 0; op < m.op_count(); ++op)
        for (u64 i = 0; i < reps; ++i) { u64 a = r.next() >> 8, b = r.next() >> 8, c = r.next() >> 8; if (!check_query(o, m, op, a, b, c, ctx)) break; }
}

Spec spec_of(Line const& l, size_t at)
{
    Spec s; s.kind = l.at(at) % N_KINDS; s.var = l.at(at + 1); s.gen = l.at(at + 2); s.n = l.at(at + 3); s.seed = l.at(at + 4); s.p = l.at(at + 5);
    if (s.n > 3000000) s.n = 3000000;
    return s;
}
void put_spec(std::vector<u64>& v, Spec const& s) { v.push_back(s.kind); v.push_back(s.var); v.push_back(s.gen); v.push_back(s.n); v.push_back(s.seed); v.push_back(s.p); }

static u64 log_uniform(Rng& r, u64 bits) { u64 b = r.below(bits + 1); return 1 + r.below(u64(1) << b); }

void gen_switches(Rng& r, Plan& p, u64 e, u64 nthr)
{
    p.add("first", { e, r.below(nthr) });
    u64 style = r.below(6);
    u64 ns = style == 0 ? 0 : style == 1 ? r.below(4) : r.below(24);
    u64 bits = 2 + r.below(11);
    for (u64 i = 0; i < ns; ++i) p.add("sw", { e, log_uniform(r, bits), r.below(4) });
    u64 nh = r.below(5) == 0 ? 0 : r.below(24);
    u64 hb = r.below(4) == 0 ? 6 : 2;
    for (u64 i = 0; i < nh; ++i) p.add("hsw", { e, log_uniform(r, hb), r.below(4) });
}
void get_switches(Plan const& p, u64 e, std::vector<Switch>& s, std::vector<Switch>& h, u64& first)
{
    s.clear(); h.clear(); first = 0;
    for (size_t i = 0; i < p.lines.size(); ++i) {
        Line const& l = p.lines[i];
        if (l.at(0) != e) continue;
        if (l.verb == "sw") { Switch x = { std::max<u64>(1, l.at(1)), l.at(2) }; s.push_back(x); }
        else if (l.verb == "hsw") { Switch x = { std::max<u64>(1, l.at(1)), l.at(2) }; h.push_back(x); }
        else if (l.verb == "first") first = l.at(1);
    }
}

void gen_world(Rng& r, Plan& p)
{
    u64 mode = r.below(8); // page guards are slow: seldom
    p.set("heap", mode < 3 ? 0 : mode < 7 ? 1 : 2);
    static const u64 junk[] = { 0, ~u64(0), 0xCDCDCDCDCDCDCDCDULL, 0x0101010101010101ULL, 0x8000000000000000ULL };
    u64 k = r.below(7);
    p.set("junk", k < 5 ? junk[k] : r.next());
}
void apply_world(Plan const& p, u64 salt)
{
    u64 j = p.cfg("junk", 0xCDCDCDCDCDCDCDCDULL);
    if (salt) j = ~j ^ (mix64(salt) & 0x0F0F0F0F0F0F0F0FULL);
    heap_config((p.cfg("heap", 0) + (salt & 1)) % 3, j);
}

std::string read_disk(const char* name) { std::string s; if (!disk_get(name, s)) return std::string(); return s; }

std::string freeze_to_string(Obj* o, u64* reported)
{
    u64 n = 0;
    {
        LibScope ls;
        std::ofstream f("/simdisk/tmp.img", std::ios::binary);
        { HarnessScope hs; n = o->freeze(f, 0); }
        f.close();
        if (!f) { HarnessScope hs; harness_error("freeze without faults left the stream bad"); }
    }
    if (reported) *reported = n;
    return read_disk("tmp.img");
}

ReadOnlyImage::ReadOnlyImage(const void* p, size_t n, u64 mode)
    : base(0), len(n), region(0), region_len(0)
{
    size_t body = (n + 4095 + 64) / 4096 * 4096;
    region_len = body + 2 * 4096;
    region = (char*)syscall(SYS_mmap, 0, region_len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (region == (char*)-1) harness_error("mmap failed");
    memset(region + 4096, 0xA7, body);
    char* end = region + 4096 + body;
    base = end - n;
    if (mode == 1) base = (char*)((uintptr_t)base & ~uintptr_t(7));         // 8-byte aligned
    else if (mode == 2) base = region + 4096;                                // page aligned, as a mapped file
    if (((uintptr_t)base & 7)) count(C_p_unaligned_image);
    memcpy(base, p, n);
    syscall(SYS_mprotect, region, 4096, PROT_NONE);
    syscall(SYS_mprotect, region + 4096, body, PROT_READ);
    syscall(SYS_mprotect, end, 4096, PROT_NONE);
}
void ReadOnlyImage::unmap() { if (region) { syscall(SYS_mprotect, region, region_len, PROT_NONE); base = 0; count(C_f_unmapped); } }
ReadOnlyImage::~ReadOnlyImage() { if (region) syscall(SYS_munmap, region, region_len); }

const Scenario scenarios[] = { sc_c01, sc_c02, sc_c03, sc_c04, sc_c05, sc_c06, sc_c07, sc_c08, sc_c09, sc_c10, sc_c11, sc_c12, sc_c13, sc_c14, sc_c15, sc_c19, sc_c20, sc_c21, sc_c22, sc_c23 };
const size_t n_scenarios = sizeof scenarios / sizeof scenarios[0];

} // namespace sim
