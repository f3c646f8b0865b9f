// C22: calls of the library nested inside others on one thread. Interruptions between any two steps of a call,
// and the caller's own code that a call runs: input iterators, comparators, stream buffers, input streams.
#include "scen.hpp"
#include <errno.h>
#include <stdio.h>

namespace sim {

// plan lines, beside those of the readers
//  sig e t hot count times what s a b c rep        t is interrupted after so many of its steps (hot: accesses to thread-local or
//                                                  shared memory), so many times over: queries (what 0), a cursor (1) of s or queries like its last one (2)
//  nst e t cfg kind var gen n seed p route at every act s seed2    t builds one of its own whose input does act at some element
//  nsf e t s at every act s2 seed2                 t freezes s to a stream whose buffer does act at some write
//  ngl e t seed at every act s2 seed2              t reads lines from a stream whose reading does act

struct Kept { Obj* o; Model m; };
struct Nest {
    std::map<u64, Sub*>& subs; u64 t; Spec outer; unsigned depth, runs; std::vector<std::unique_ptr<Kept> > kept;
    Nest(std::map<u64, Sub*>& s, u64 th, Spec const& o, unsigned d) : subs(s), t(th), outer(o), depth(d), runs(0) {}
    void finish() {
        for (size_t i = 0; i < kept.size(); ++i) { check_some(kept[i]->o, kept[i]->m, i + 5, 6, "built inside another call, after it"); kept[i]->o->destroy(); }
        kept.clear();
    }
};

static void drive_cursor(Sub* s, u64 which, u64 a, u64 b, u64 steps, bool topk, const char* ctx)
{
    MCursor mc;
    if (!mc.start(s->m, which, a, b) || (mc.kind == CK_TOPK && !topk)) return;
    LibCursor* c = s->o->cursor(mc.kind, mc.a0, mc.b0);
    Rng r(a ^ b);
    for (u64 i = 0; i < steps; ++i) {
        Query q; Ans w, g; u64 op = r.next() % 64, ar = r.next() >> 8;
        if (!mc.step(op, ar, q, w)) continue;
        c->op(q, g);
        count(C_compared); event(0xC1000 | u64(q.op), q.a, g.size() ? g[0] : 0);
        if (w != g) { std::string cls = std::string("wrong-cursor:") + kind_names[s->m.sp.kind]; violation(cls.c_str(), "%s: cursor over %s gave %s, expected %s", ctx, kind_names[s->m.sp.kind], ans_text(g).c_str(), ans_text(w).c_str()); }
    }
    LIBV(delete c);
}

static std::string text_of(u64 seed, std::vector<std::string>& lines)
{
    Rng r(seed); std::string all;
    u64 n = 1 + r.below(12);
    for (u64 i = 0; i < n; ++i) { std::string s; u64 k = r.below(8) ? r.below(40) : 4080 + r.below(40); for (u64 j = 0; j < k; ++j) s += char('a' + (j * 7 + i + seed) % 26); lines.push_back(s); all += s; all += '\n'; }
    return all;
}
struct Tube { std::string text; size_t at; u64 k, chunk; InputFault* f; };
static ssize_t tube_read(void* c, char* buf, size_t n)
{
    HarnessScope hs;
    Tube* t = (Tube*)c;
    if (t->f) t->f->step();
    size_t m = std::min<size_t>(std::min<size_t>(n, t->chunk), t->text.size() - t->at);
    memcpy(buf, t->text.data() + t->at, m); t->at += m;
    return (ssize_t)m;
}
static void read_lines(u64 seed, InputFault* f, const char* ctx)
{
    std::vector<std::string> want; Tube tb; tb.text = text_of(seed, want); tb.at = 0; tb.k = 0; tb.chunk = 1 + seed % 97 * (seed % 5 ? 1 : 50); tb.f = f;
    cookie_io_functions_t io; memset(&io, 0, sizeof io); io.read = tube_read;
    FILE* fp = fopencookie(&tb, "r", io);
    if (!fp) harness_error("fopencookie failed");
    Factory* fa = factory(CFG_MAIN);
    size_t i = 0;
    if (seed & 1) {
        std::string line;
        while (i <= want.size() && fa->getline(line, fp, true)) { if (i == want.size() || line != want[i]) violation("wrong-line", "%s: line %zu of %zu has %zu bytes, not those written", ctx, i, want.size(), line.size()); ++i; }
        { LibScope ls; std::string().swap(line); }
    } else {
        Lines* it = fa->lines(fp, true);
        for (; i <= want.size() && !it->done(); ++i) { std::string line; it->get(line); if (i == want.size() || line != want[i]) violation("wrong-line", "%s: line %zu of %zu has %zu bytes, not those written", ctx, i, want.size(), line.size()); it->inc(); }
        it->destroy();
    }
    if (i != want.size()) violation("wrong-line", "%s: %zu lines of %zu were read", ctx, i, want.size());
    count(C_compared);
    fclose(fp);
}

struct BusyBuf : std::streambuf {       // no buffer: sees every write, and does something else before taking it
    std::string got; InputFault* f;
    explicit BusyBuf(InputFault* g) : f(g) {}
    std::streamsize xsputn(const char* s, std::streamsize n) { HarnessScope hs; f->step(); got.append(s, (size_t)n); return n; }
    int_type overflow(int_type c) { if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c); HarnessScope hs; f->step(); got += traits_type::to_char_type(c); return c; }
    pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) { if (o == 0 && d == std::ios_base::cur) return pos_type((off_type)got.size()); return pos_type(off_type(-1)); }
};
static u64 freeze_busy(Obj* o, InputFault* f, std::string& got)
{
    BusyBuf sb(f);
    u64 z;
    {
        LibScope ls;
        std::ofstream os;
        static_cast<std::ios&>(os).rdbuf(&sb);
        { HarnessScope hs; z = o->freeze(os, 0); }
        if (!os.good()) { HarnessScope hs; violation("freeze-failed", "freezing to a stream that takes everything left it bad"); }
        static_cast<std::ios&>(os).rdbuf(static_cast<std::ofstream&>(os).rdbuf());
    }
    got.swap(sb.got);
    return z;
}

static void busy_build(Nest& n, Spec const& sp, u64 cfg, u64 route, u64 at, u64 every, u64 act, u64 s, u64 seed, bool freeze);

static void nested_act(Nest& n, u64 act, u64 sid, u64 seed)
{
    if (++n.runs > 6) return;
    count(C_f_nested_call);
    u64 x = mix64(seed + n.runs);
    Sub* s = n.subs.count(sid) ? n.subs[sid] : n.subs.empty() ? 0 : n.subs.begin()->second;
    event(0x9E57, act % 8, n.depth);
    guarded("inside another call", [&] {
        switch (act % 8) {
        case 0: if (s) check_some(s->o, s->m, x, 1 + x % 4, "inside another call"); break;
        case 1: if (s) drive_cursor(s, x % 2, x >> 9, x >> 3, 12, true, "inside another call"); break;
        case 2: case 3: {
            Spec sp = n.outer;
            if (x % 4 == 0) { Rng r(x); sp = pick_spec(r, r.below(N_KINDS), 600); } else { sp.seed ^= x; sp.n = x / 16 % 8 ? x / 128 % 200 : std::min<u64>(sp.n, 1500); }
            if (n.depth < 2 && x / 4 % 2) { busy_build(n, sp, x / 8 % 8 ? CFG_MAIN : CFG_NOINTR, 0, x >> 20, 1 + x % 64, x >> 13 & 1 ? 0 : 2, sid, x, false); break; }
            std::unique_ptr<Kept> k(new Kept); k->m.make(sp);
            k->o = factory(CFG_MAIN)->build(k->m, x >> 30, 0);
            check_some(k->o, k->m, x, 4, "built inside another call");
            if (act % 8 == 3) n.kept.push_back(std::move(k)); else k->o->destroy();
        } break;
        case 4: if (s) {
            char name[64]; snprintf(name, sizeof name, "/simdisk/n%llu_%u.img", (unsigned long long)n.t, n.depth);
            u64 z = s->o->freeze(name, 0);
            std::string im = read_disk(name + 9);
            count(C_compared);
            if (z != im.size() || im != s->image) violation("freeze-differs", "freezing %s inside another call reported %llu bytes and wrote %zu; alone it froze to %zu bytes", kind_names[s->m.sp.kind], (unsigned long long)z, im.size(), s->image.size());
        } break;
        case 5: if (s) {
            ReadOnlyImage im(s->image.data(), s->image.size(), x % 3);
            ObjPtr o(factory(s->cfg)->empty(s->m.sp.kind));
            u64 rd = o->map(im.base, x >> 5 & 1);
            if (rd != s->image.size()) violation("map-count", "mapping %s inside another call read %llu bytes of %zu", kind_names[s->m.sp.kind], (unsigned long long)rd, s->image.size());
            check_some(o.p, s->m, x, 3, "mapped inside another call");
        } break;
        case 6: read_lines(x, 0, "inside another call"); break;
        default: if (s) {
            std::vector<TreeNode> tn; std::string d;
            u64 z = s->o->size_of(); s->o->size_tree(tn, d);
            if (z + 8 != s->image.size() || tn.empty() || tn[0].size != z) violation("size-of", "size_of gave %llu for %s inside another call, its image has %zu bytes", (unsigned long long)z, kind_names[s->m.sp.kind], s->image.size());
        }
        }
    });
}

static void busy_build(Nest& n, Spec const& sp, u64 cfg, u64 route, u64 at, u64 every, u64 act, u64 s, u64 seed, bool freeze)
{
    Model m; m.make(sp);
    InputFault in;
    Nest inner(n.subs, n.t, sp, n.depth + 1);
    in.at = 1 + at % (m.length() + 1); in.every = every;
    in.hook = [&] { nested_act(inner, act, s, seed); };
    Obj* o = factory(cfg)->build(m, route, &in);
    in.hook = nullptr; in.at = 0;
    check_some(o, m, seed, 10, "another call was nested in its building");
    inner.finish();
    check_some(o, m, seed + 1, 4, "another call was nested in its building");
    if (freeze) {
        char name[64]; snprintf(name, sizeof name, "/simdisk/o%llu_%u.img", (unsigned long long)n.t, n.depth);
        Obj* o2 = factory(cfg)->build(m, route, 0);
        o->freeze(name, 0); std::string a = read_disk(name + 9);
        o2->freeze(name, 0); std::string b = read_disk(name + 9);
        count(C_compared);
        if (a != b) violation("image-differs", "%s froze to other bytes (%zu) when another call was nested in its building (%zu)", kind_names[sp.kind], b.size(), a.size());
        o2->destroy();
    }
    o->destroy();
}

bool nest_line(Line const& l, std::map<u64, Sub*>& subs)
{
    u64 t = l.at(1);
    if (l.verb == "nst") {
        Spec sp = spec_of(l, 3); sp.n = std::min<u64>(sp.n, 8000);
        Nest n(subs, t, sp, 0);
        busy_build(n, sp, l.at(2) % 3, l.at(9), l.at(10), l.at(11), l.at(12), l.at(13), l.at(14), true);
        return true;
    }
    if (l.verb == "nsf") {
        if (!subs.count(l.at(2))) return true;
        Sub* s = subs[l.at(2)];
        Nest n(subs, t, s->m.sp, 0); n.outer.n = std::min<u64>(n.outer.n, 1500);
        InputFault in; in.at = 1 + l.at(3) % 24; in.every = l.at(4);
        in.hook = [&] { nested_act(n, l.at(5), l.at(6), l.at(7)); };
        std::string got;
        u64 z = freeze_busy(s->o, &in, got);
        n.finish();
        count(C_compared);
        if (z != got.size() || got != s->image) violation("freeze-differs", "freezing %s with another call nested in it reported %llu bytes and wrote %zu; alone it froze to %zu bytes%s", kind_names[s->m.sp.kind], (unsigned long long)z, got.size(), s->image.size(), got == s->image ? "" : ", other ones");
        return true;
    }
    if (l.verb == "ngl") {
        Spec sp; sp.kind = l.at(7) % N_KINDS; sp.n = l.at(7) / 32 % 400; sp.seed = l.at(7); { Rng r(l.at(7)); sp = pick_spec(r, sp.kind, 400); }
        Nest n(subs, t, sp, 0);
        InputFault in; in.at = 1 + l.at(3) % 20; in.every = l.at(4);
        in.hook = [&] { nested_act(n, l.at(5), l.at(6), l.at(7)); };
        read_lines(l.at(2), &in, "with another call nested in the reading");
        n.finish();
        return true;
    }
    return false;
}

// what an interruption does: nothing that needs memory or a stream
Last g_last[8];
static bool quiet_kind(u64 k) { return k != K_TKE && k != K_TKM; }
static void on_signal(Line const& l, std::map<u64, Sub*>& subs)
{
    u64 sid = l.at(6), op = l.at(7);
    bool same = l.at(5) & 2;                // the same kind of query as the interrupted one
    if (same) { sid = g_last[l.at(1) % 8].sub; op = g_last[l.at(1) % 8].op; }
    if (!subs.count(sid)) return;
    Sub* s = subs[sid];
    u64 rep = std::min<u64>(1 + l.at(10), 12);
    guarded("in a handler", [&] {
        if (!same && (l.at(5) & 1) && cursor_kind(s->m, 0) != CK_NONE) { drive_cursor(s, l.at(5) >> 2, l.at(7), l.at(8), rep * 2, false, "in a handler"); return; }
        if (!quiet_kind(s->m.sp.kind)) return;
        for (u64 k = 0; k < rep; ++k) check_query(s->o, s->m, same ? op : op + k, l.at(8) + k * 5, l.at(9) + k * 7, l.at(8) >> 3, "in a handler");
    });
}
void plan_signals(Plan const& p, u64 e, u64 nt, std::map<u64, Sub*>& subs)
{
    std::vector<std::vector<Signal> > sg(nt);
    for (size_t i = 0; i < p.lines.size(); ++i) {
        Line const& l = p.lines[i];
        if (l.verb != "sig" || l.at(0) != e || l.at(1) >= nt || !l.at(3)) continue;
        Signal g; g.hot = l.at(2) & 1; g.count = l.at(3); g.times = std::min<u64>(std::max<u64>(1, l.at(4)), 600); g.id = i;
        sg[l.at(1)].push_back(g);
    }
    signal_plan(sg, [&p, &subs](u64 i) { on_signal(p.lines[i], subs); });
}

static const u64 K22[] = { K_BV, K_RS, K_RS, K_DA, K_DA, K_D64, K_BP, K_BP, K_CT, K_CT, K_TKE, K_TKM, K_EF, K_EF, K_EFL, K_EFCL, K_GV, K_GB, K_NV, K_MV8, K_MV32, K_MV64, K_COMP };
static void gen22(Rng& r, Plan& p, u64)
{
    static const u64 deep[] = { K_BP, K_BP, K_BP, K_CT, K_CT, K_RS, K_DA, K_D64, K_EF };
    bool far = r.below(4) == 0;             // searches that go a long way, interrupted again and again
    if (far) gen_readers(r, p, deep, sizeof deep / sizeof *deep, 0, 0, r.below(3) ? 40000 : 150000);
    else gen_readers(r, p, K22, sizeof K22 / sizeof *K22, r.below(2) ? 40 : 10, 0, r.below(4) ? 2500 : 20000);
    u64 epochs = 0;
    for (size_t i = 0; i < p.lines.size(); ++i) if (p.lines[i].verb == "first") epochs = std::max(epochs, p.lines[i].at(0) + 1);
    for (u64 e = 0; e < epochs; ++e) {
        std::vector<u64> ids; for (size_t i = 0; i < p.lines.size(); ++i) { Line const& l = p.lines[i]; if (l.verb == "sub" && l.at(0) <= e) ids.push_back(l.at(1)); }
        if (ids.empty()) continue;
        if (r.below(3) == 0) gen_shared_use(r, p, e, unsigned(r.below(3)), unsigned(r.below(3)));
        u64 nt = n_threads(p, e), k = far ? 0 : r.below(4);
        for (u64 i = 0; i < k; ++i) {
            u64 act = r.below(8), s = ids[r.below(ids.size())];
            switch (r.below(5)) {
            case 0: case 1: case 2: {
                Spec sp = pick_spec(r, r.below(3) ? K22[r.below(sizeof K22 / sizeof *K22)] : K_CT + r.below(3), 2500);
                u64 route = sp.kind == K_CT && r.below(3) == 0 ? 3 : sp.kind <= K_MV64 && r.below(2) ? 2 : 0;
                if (r.below(2)) act = 2 + r.below(2);
                std::vector<u64> v; v.push_back(e); v.push_back(r.below(nt)); v.push_back(r.below(8) ? CFG_MAIN : r.below(3)); put_spec(v, sp); v.push_back(route);
                v.push_back(r.next() >> 30); v.push_back(r.below(2) ? 0 : 1 + r.below(40)); v.push_back(act); v.push_back(s); v.push_back(r.next() >> 20);
                insert_line(r, p, e, "nst", v);
            } break;
            case 3: insert_line(r, p, e, "nsf", { e, r.below(nt), ids[r.below(ids.size())], r.below(24), r.below(2) ? 0 : 1 + r.below(4), r.below(2) ? 4 : act, s, r.next() >> 20 }); break;
            default: insert_line(r, p, e, "ngl", { e, r.below(nt), r.next() >> 30, r.below(20), r.below(2) ? 0 : 1 + r.below(4), r.below(2) ? 6 : act, s, r.next() >> 20 });
            }
        }
        for (u64 t = 0; t < nt; ++t) {
            if (r.below(4) == 0) continue;
            u64 ns = 1 + r.below(4);
            for (u64 i = 0; i < ns; ++i) {
                u64 hot = r.below(3) == 0, b = hot ? r.below(6) : r.below(4) ? r.below(9) : r.below(15);
                p.add("sig", { e, t, hot, 1 + r.below(u64(1) << b), r.below(3) && !far ? 1 + r.below(3) : 1 + r.below(b < 9 ? 200 : 20), r.below(8), r.below(3) ? ids[ids.size() - 1 - r.below(std::min<u64>(ids.size(), 3))] : ids[r.below(ids.size())], r.next() >> 20, r.next() >> 20, r.next() >> 20, r.below(3) });
            }
        }
    }
}
const Scenario sc_c22 = { "C22", gen22, run_readers };

} // namespace sim
