// Subjects of more than 2^32 bits, defined by a formula instead of an array (a few runs per check), and of 2^24 to
// 2^28 bits where the work of every query is bounded (C21).
//  huge which seed cfg nt nq log2   (no log2: 2^32 bits and the build that is not instrumented)
#include "scen.hpp"
#include <fstream>
#include <boost/iostreams/device/mapped_file.hpp>

namespace sim {

static u64 G4 = u64(1) << 32;

// all bits equal but for the exceptions
struct Sparse {
    u64 n; bool fill; std::vector<u64> ex;      // sorted
    u64 nex(u64 p) const { return u64(std::lower_bound(ex.begin(), ex.end(), p) - ex.begin()); }  // exceptions before p
    bool at(u64 p) const { return std::binary_search(ex.begin(), ex.end(), p) ? !fill : fill; }
    u64 word(u64 p, u64 l) const { u64 w = 0; for (u64 i = 0; i < l && p + i < n; ++i) w |= u64(at(p + i)) << i; return w; }
    u64 count_of(bool v) const { return v == fill ? n - ex.size() : ex.size(); }
    u64 rank(bool v, u64 p) const { return v == fill ? p - nex(p) : nex(p); }
    u64 select(bool v, u64 k) const {
        if (v != fill) return ex[k];
        u64 a = 0, b = n; // last p with rank(p) <= k
        while (b - a > 1) { u64 m = a + (b - a) / 2; if (m - nex(m) <= k) a = m; else b = m; }
        return a;
    }
};
// (((... ()()() X ()()() ...))) with X balanced, D pairs around
struct BigTree {
    u64 D, A, L, B; std::vector<uint8_t> x; std::vector<u64> match, encl, ex;
    u64 n() const { return 2 * D + 2 * A + L + 2 * B; }
    u64 i0() const { return D; }                // inner part
    u64 i1() const { return n() - D; }
    u64 x0() const { return D + 2 * A; }
    u64 y0() const { return x0() + L; }
    bool at(u64 p) const { if (p < i0()) return true; if (p >= i1()) return false; if (p < x0()) return (p - D) % 2 == 0; if (p < y0()) return x[p - x0()]; return (p - y0()) % 2 == 0; }
    u64 excess(u64 p) const { if (p <= i0()) return p; if (p >= i1()) return n() - p; if (p < x0()) return D + (p - D) % 2; if (p < y0()) return D + ex[p - x0()]; return D + (p - y0()) % 2; }
    u64 pair(u64 p) const { if (p < i0() || p >= i1()) return n() - 1 - p; if (p >= x0() && p < y0()) return x0() + match[p - x0()]; return at(p) ? p + 1 : p - 1; }
    u64 enclose(u64 p) const { if (p < i0()) return p - 1; if (p >= x0() && p < y0() && encl[p - x0()] != ~u64(0)) return x0() + encl[p - x0()]; return D - 1; }
    u64 rank(u64 p) const { return (p + excess(p)) / 2; }
    u64 select(bool v, u64 k) const { u64 a = 0, b = n(); while (b - a > 1) { u64 m = a + (b - a) / 2, r = v ? rank(m) : m - rank(m); if (r <= k) a = m; else b = m; } return a; }
    void rmq(u64 a, u64 b, u64& at_, u64& e) const { // leftmost minimum of the excess before a, ..., b
        at_ = a; e = excess(a);
        if (b > i1()) { u64 y = excess(b); if (y < e) { at_ = b; e = y; return; } b = i1(); if (a >= b) return; }
        if (e <= D) return;                     // nothing inside goes lower
        for (u64 i = a + 1; i <= b && e > D; ++i) { u64 y = excess(i); if (y < e) { e = y; at_ = i; } }
    }
    u64 word(u64 p, u64 l) const { u64 w = 0; for (u64 i = 0; i < l && p + i < n(); ++i) w |= u64(at(p + i)) << i; return w; }
};

static void hcheck(const char* what, u64 a, u64 b, u64 got, u64 want, u64 n)
{
    count(C_compared);
    event(0x4000 ^ a, b, got);
    if (got != want) { std::string cls = std::string("wrong-answer:huge.") + what; violation(cls.c_str(), "%s(%llu, %llu) over %llu bits gave %llu, the content defines %llu", what, (unsigned long long)a, (unsigned long long)b, (unsigned long long)n, (unsigned long long)got, (unsigned long long)want); }
}
// C21: steps allowed beyond a bound for the kind of structure; walk: words or elements the operation is defined to pass
static u64 g_fixed_steps = 0;
static const char* g_asked = "";
static void huge_bounded(u64 d, u64 walk)
{
    if (!g_bound_steps) return;
    u64 limit = g_fixed_steps + 40 * 36 + 2000 * walk;
    count(C_p_bounded);
    if (d * 4 > limit) count(C_p_bound_quarter);
    event(0x57EA, d);
    if (d > limit) { std::string cls = std::string("unbounded-work:huge.") + g_asked; violation(cls.c_str(), "%s of a structure of %llu bits took %llu steps of its own thread, more than %llu", g_asked, (unsigned long long)G4, (unsigned long long)d, (unsigned long long)limit); }
}
static u64 ask1(Obj* o, int op, u64 a, u64 b = 0, u64* second = 0, u64 walk = 0)
{
    Query q; q.op = op; q.a = a; q.b = b; Ans r;
    g_asked = op_names[op];
    u64 s0 = own_steps();
    o->query(q, r);
    huge_bounded(own_steps() - s0, walk);
    if (r.empty()) harness_error("no answer");
    if (second && r.size() > 1) *second = r[1];
    return r[0];
}
static void cstep(LibCursor* c, Query const& q, Ans& g, u64 walk)
{
    g_asked = "cursor";
    u64 s0 = own_steps();
    c->op(q, g);
    huge_bounded(own_steps() - s0, walk);
}
static LibCursor* cstart(Obj* o, int kind, u64 a)
{
    g_asked = "starting a cursor";
    u64 s0 = own_steps();
    LibCursor* c = o->cursor(kind, a, 0);
    huge_bounded(own_steps() - s0, 0);
    return c;
}
static void make_sparse(Sparse& s, u64 seed)
{
    Rng r(seed);
    s.n = G4 + r.below(200000) + (r.below(3) ? 0 : 64 * r.below(9));
    s.fill = r.below(2);
    u64 k = 1 + r.below(400);
    for (u64 i = 0; i < k; ++i) {
        u64 p;
        switch (r.below(6)) {
        case 0: p = r.below(s.n); break;
        case 1: p = r.below(300); break;
        case 2: p = G4 - 200 + r.below(400); break;
        case 3: p = G4 / 2 - 200 + r.below(400); break;
        case 4: p = s.n - 1 - r.below(300); break;
        default: p = G4 + r.below(s.n - G4); break;
        }
        s.ex.push_back(p);
    }
    if (r.below(2)) { u64 b = G4 + r.below(1000); for (u64 i = 0; i < 3000; ++i) s.ex.push_back(b + i * (1 + r.below(3))); }     // a dense group up there
    std::sort(s.ex.begin(), s.ex.end());
    s.ex.erase(std::unique(s.ex.begin(), s.ex.end()), s.ex.end());
    while (!s.ex.empty() && s.ex.back() >= s.n) s.ex.pop_back();
}
static u64 spot(Rng& r, Sparse const& s)
{
    u64 p;
    switch (r.below(5)) {
    case 0: p = r.below(s.n); break;
    case 1: p = G4 - 100 + r.below(200); break;
    case 2: p = s.ex.empty() ? 0 : s.ex[r.below(s.ex.size())] + r.below(3) - 1; break;
    case 3: p = s.n - 1 - r.below(130); break;
    default: p = G4 + r.below(s.n - G4); break;
    }
    return p < s.n ? p : s.n - 1;
}
// how far the searches of one run may still go: a run stays short even where each bit is looked at by itself
static u64 g_walk_left = 0;
static bool too_far(u64 d, Rng& r, u64 rare)
{
    if (d > (u64(1) << 28) && r.below(rare)) return true;
    if (d < 65536) return false;
    if (d > g_walk_left) return true;
    g_walk_left -= d;
    return false;
}
static void ask_sparse(Obj* o, Sparse const& s, u64 which, Rng& r)
{
    u64 p = spot(r, s), n = s.n;
    if (which == 2) { // select directory over the exceptions
        if (s.ex.empty()) return;
        u64 k = r.below(s.ex.size());
        hcheck("darray.select", k, 0, ask1(o, s.fill ? Q_SEL0 : Q_SEL, k), s.ex[k], n);
        return;
    }
    switch (r.below(which == 1 ? 14 : 7)) {
    case 0: hcheck("access", p, 0, ask1(o, Q_AT, p), s.at(p), n); break;
    case 1: { u64 l = std::min<u64>(r.below(65), n - p); hcheck("get_bits", p, l, ask1(o, Q_BITS, p, l), s.word(p, l), n); break; }
    case 2: hcheck("get_word", p, 0, ask1(o, Q_WORD, p), s.word(p, 64), n); break;
    case 3: hcheck("size", 0, 0, ask1(o, Q_SIZE, 0), n, n); break;
    case 4: { bool v = r.below(2); u64 k = s.rank(v, p); if (k >= s.count_of(v)) break; u64 x = s.select(v, k); if (too_far(x - p, r, 8)) break; hcheck(v ? "successor1" : "successor0", p, 0, ask1(o, v ? Q_SUCC1 : Q_SUCC0, p, 0, 0, (x - p) / 64), x, n); break; }
    case 5: { bool v = r.below(2); u64 k = s.rank(v, p + 1); if (!k) break; u64 x = s.select(v, k - 1); if (too_far(p - x, r, 8)) break; hcheck(v ? "predecessor1" : "predecessor0", p, 0, ask1(o, v ? Q_PRED1 : Q_PRED0, p, 0, 0, (p - x) / 64), x, n); break; }
    case 6: if (p + 128 < n) hcheck("get_word56", p, 0, ask1(o, Q_WORD56, p) & ((u64(1) << 56) - 1), s.word(p, 56), n); break;
    case 7: hcheck("rank", p, 0, ask1(o, Q_RANK, p), s.rank(true, p), n); break;
    case 8: hcheck("rank0", p, 0, ask1(o, Q_RANK0, p), s.rank(false, p), n); break;
    case 9: hcheck("num_ones", 0, 0, ask1(o, Q_NUM1, 0), s.count_of(true), n); hcheck("num_zeros", 0, 0, ask1(o, Q_NUM0, 0), s.count_of(false), n); break;
    default: { bool v = r.below(2); u64 c = s.count_of(v); if (!c) break; u64 k = r.below(2) ? r.below(c) : std::min(c - 1, s.rank(v, p)); hcheck(v ? "select" : "select0", k, 0, ask1(o, v ? Q_SEL : Q_SEL0, k), s.select(v, k), n); break; }
    }
}
static void drive_sparse(Obj* o, Sparse const& s, Rng& r)
{
    u64 p = spot(r, s), n = s.n;
    if (r.below(2)) { // bit enumerator
        LibCursor* c = cstart(o, CK_BITS, p);
        for (u64 i = 0; i < 12; ++i) {
            Query q; Ans g;
            u64 op = r.below(4);
            if (op == 0) { if (p >= n) break; q.op = CO_NEXT; cstep(c, q, g, 0); hcheck("enumerator.next", p, 0, g[0], s.at(p), n); ++p; }
            else if (op == 1) { u64 l = std::min<u64>(r.below(65), n - p); if (!l) continue; q.op = CO_TAKE; q.a = l; cstep(c, q, g, 0); hcheck("enumerator.take", p, l, g[0], s.word(p, l), n); p += l; }
            else if (op == 2) { u64 k = s.rank(true, p); if (k >= s.count_of(true)) continue; u64 x = s.select(true, k); if (too_far(x - p, r, 4)) continue; q.op = CO_SKIPZ; cstep(c, q, g, (x - p) / 64); hcheck("enumerator.skip_zeros", p, 0, g[0], x - p, n); p = x + 1; }
            else { q.op = CO_POS; cstep(c, q, g, 0); hcheck("enumerator.position", p, 0, g[0], p, n); }
        }
        LIBV(delete c);
    } else {
        LibCursor* c = cstart(o, CK_UNARY, p);
        u64 k = s.rank(true, p), ones = s.count_of(true);
        for (u64 i = 0; i < 12; ++i) {
            Query q; Ans g;
            if (k >= ones) break;
            u64 x = s.select(true, k);
            if (too_far(x - p, r, 4)) break;
            u64 op = r.below(4);
            if (op < 2) { q.op = CO_NEXT; cstep(c, q, g, (x - p) / 64); hcheck("unary.next", p, 0, g[0], x, n); ++k; p = x; }
            else { u64 d = r.below(r.below(2) ? 3 : 2000); if (!s.fill) d = r.below(2); if (k + d >= ones) continue; u64 y = s.select(true, k + d); if (y - p > (u64(1) << 28) || too_far(y - p, r, 4)) continue; q.op = op == 2 ? CO_SKIP : CO_PEEK; q.a = d; cstep(c, q, g, (y - p) / 64); hcheck(op == 2 ? "unary.skip" : "unary.skip_no_move", p, d, g[0], y, n); if (op == 2) { k += d; p = y; } }
        }
        LIBV(delete c);
    }
}
static void ask_tree(Obj* o, BigTree const& t, Rng& r)
{
    u64 n = t.n(), p;
    switch (r.below(6)) {
    case 0: p = r.below(n); break;
    case 1: p = G4 - 100 + r.below(200); break;
    case 2: p = r.below(2) ? r.below(4) : t.D - std::min<u64>(t.D, 2) + r.below(4); break;
    case 3: p = n - 1 - (r.below(2) ? r.below(4) : std::min(n - 1, t.D - std::min<u64>(t.D, 2) + r.below(4))); break;
    default: p = t.x0() + r.below(t.L + 1); break;
    }
    if (p >= n) p = n - 1;
    switch (r.below(8)) {
    case 0: if (t.at(p)) hcheck("find_close", p, 0, ask1(o, Q_FCLOSE, p), t.pair(p), n); else hcheck("find_open", p, 0, ask1(o, Q_FOPEN, p), t.pair(p), n); break;
    case 1: { u64 m = t.pair(p); if (t.at(m)) hcheck("find_close", m, 0, ask1(o, Q_FCLOSE, m), p, n); else hcheck("find_open", m, 0, ask1(o, Q_FOPEN, m), p, n); break; }
    case 2: if (p && t.at(p)) hcheck("enclose", p, 0, ask1(o, Q_ENCLOSE, p), t.enclose(p), n); break;
    case 3: hcheck("excess", p, 0, ask1(o, Q_EXCESS, p), t.excess(p), n); break;
    case 4: case 5: { u64 b = r.below(3) ? std::min(n - 1, p + r.below(60000)) : p + r.below(n - p); u64 at, e, ge = 0; t.rmq(p, b, at, e); u64 g = ask1(o, Q_ERMQ, p, b, &ge); hcheck("excess_rmq", p, b, g, at, n); hcheck("excess_rmq.min", p, b, ge, e, n); break; }
    case 6: hcheck("rank", p, 0, ask1(o, Q_RANK, p), t.rank(p), n); break;
    default: { bool v = r.below(2); u64 k = r.below(2) ? r.below(n / 2) : std::min(n / 2 - 1, v ? t.rank(p) : p - t.rank(p)); hcheck(v ? "select" : "select0", k, 0, ask1(o, v ? Q_SEL : Q_SEL0, k), t.select(v, k), n); break; }
    }
}

// integer sequences whose representation is longer than 2^32 bits
struct Seq : Formula {          // independent values of 50 to 57 bits
    u64 n, seed; int lo, spread;
    u64 at(u64 i) const { u64 h = mix64(seed + i * 0x9E3779B97F4A7C15ULL); int l = lo + int(h % u64(spread)); return (u64(1) << l) | (mix64(h) & ((u64(1) << l) - 1)); }
};
struct Climb : Formula {        // increasing values, one in every stride
    u64 n, seed, stride;
    u64 at(u64 i) const { return i * stride + mix64(seed + i) % stride; }
    u64 rank(u64 x) const { u64 i = x / stride; return i + (i < n && at(i) < x); }
};
struct Fall : Formula {         // falling in steps, with a dip in every so many
    u64 n, seed, step, every, off;
    bool dip(u64 i) const { return i % every == off; }
    u64 at(u64 i) const { return dip(i) ? mix64(seed + i / every) % 4096 : (u64(1) << 40) - i / step; }
    u64 rmq(u64 a, u64 b) const {
        u64 best = ~u64(0), bv = 0;
        for (u64 k = a / every; k <= b / every; ++k) { u64 i = k * every + off; if (i < a || i > b) continue; u64 v = at(i); if (best == ~u64(0) || v < bv) { best = i; bv = v; } }
        return best != ~u64(0) ? best : std::max(a, b / step * step);
    }
};
static void ask_fall(Obj* o, Fall const& f, Rng& r)
{
    u64 a, b;
    switch (r.below(5)) { case 0: a = r.below(f.n); break; case 1: a = f.n - 1 - r.below(2000); break; case 2: a = r.below(2000); break; case 3: a = f.n / 2 - 1000 + r.below(2000); break; default: a = r.below(f.n / f.every + 1) * f.every + f.off + r.below(3) - 1; break; }
    if (a >= f.n) a = f.n - 1;
    switch (r.below(5)) { case 0: b = r.below(f.n); break; case 1: b = a + r.below(100000); break; case 2: b = a + r.below(300); break; case 3: b = f.n - 1 - r.below(3); break; default: b = r.below(f.n / f.every + 1) * f.every + f.off + r.below(3) - 1; break; }
    if (b >= f.n) b = f.n - 1;
    if (a > b) std::swap(a, b);
    hcheck("cartesian_tree.rmq", a, b, ask1(o, Q_RMQ, a, b), f.rmq(a, b), f.n);
}
struct Nibbles : Formula {
    u64 n, seed;
    u64 at(u64 i) const { return (i * 0x9E3779B97F4A7C15ULL + seed) >> 60; }
};
struct Dense : Formula {        // ones at most 63 zeros apart
    u64 n, seed;
    u64 at(u64 i) const { return 32 * i + mix64(seed + i) % 31; }
};
struct Steps : Formula {        // differences
    Climb c;
    u64 at(u64 i) const { return c.at(i) - (i ? c.at(i - 1) : 0); }
};

static u64 spot_seq(Rng& r, u64 n, u64 bits_each)
{
    u64 p;
    switch (r.below(4)) {
    case 0: p = r.below(n); break;
    case 1: p = n - 1 - r.below(100); break;
    case 2: p = r.below(100); break;
    default: p = G4 / bits_each - 300 + r.below(600); break;
    }
    return p < n ? p : n - 1;
}
static void ask_climb(Obj* o, Climb const& c, Rng& r)
{
    u64 i = spot_seq(r, c.n, 34), u = c.n * c.stride;
    if (r.below(4) == 0) {
        LibCursor* cu = cstart(o, CK_EF, i);
        for (u64 k = i; k < c.n && k < i + 40; ++k) { Query q; Ans g; q.op = CO_NEXT; cstep(cu, q, g, 0); hcheck("enumerator.next", i, k, g[0], c.at(k), c.n * 34); }
        LIBV(delete cu);
        return;
    }
    u64 x = r.below(2) ? c.at(i) + r.below(3) - 1 : r.below(u);
    if (x >= u) x = u - 1;
    u64 k = c.rank(x);
    switch (r.below(8)) {
    case 0: hcheck("elias_fano.select", i, 0, ask1(o, Q_SEL, i), c.at(i), u); break;
    case 1: hcheck("elias_fano.rank", x, 0, ask1(o, Q_RANK, x), k, u); break;
    case 2: hcheck("elias_fano.access", x, 0, ask1(o, Q_AT, x), k < c.n && c.at(k) == x, u); break;
    case 3: hcheck("elias_fano.delta", i, 0, ask1(o, Q_DELTA, i), c.at(i) - (i ? c.at(i - 1) : 0), u); break;
    case 4: if (i + 2 < c.n) { u64 e = 0; u64 g = ask1(o, Q_SELRANGE, i, 0, &e); hcheck("elias_fano.select_range", i, 0, g, c.at(i), u); hcheck("elias_fano.select_range.end", i, 0, e, c.at(i + 1), u); } break;
    case 5: if (k < c.n) hcheck("elias_fano.successor1", x, 0, ask1(o, Q_SUCC1, x), c.at(k), u); break;
    case 6: { u64 k1 = c.rank(x + 1); if (k1 && x + 1 < u) hcheck("elias_fano.predecessor1", x, 0, ask1(o, Q_PRED1, x), c.at(k1 - 1), u); break; }
    default: hcheck("elias_fano.size", 0, 0, ask1(o, Q_SIZE, 0), u, u); hcheck("elias_fano.num_ones", 0, 0, ask1(o, Q_NUM1, 0), c.n, u); break;
    }
}
static void ask_seq(Obj* o, Formula const& f, u64 n, u64 bits_each, Rng& r)
{
    u64 i = spot_seq(r, n, bits_each);
    switch (r.below(6)) {
    case 0: {
        LibCursor* cu = cstart(o, CK_FWD, i);
        for (u64 k = i; k < n && k < i + 40; ++k) {
            Query q; Ans g;
            if (r.below(6) == 0) { q.op = CO_SKIP; q.a = r.below(5); if (k + q.a < n) { cstep(cu, q, g, q.a); k += q.a; } g.clear(); q.a = 0; }
            q.op = CO_NEXT; cstep(cu, q, g, 0); hcheck("enumerator.next", i, k, g[0], f.at(k), n);
        }
        LIBV(delete cu);
        break; }
    case 1: hcheck("size", 0, 0, ask1(o, Q_SIZE, 0), n, n); break;
    default: hcheck("element", i, 0, ask1(o, Q_AT, i), f.at(i), n); break;
    }
}
static Obj* mapped_long(Obj* o, u64 kind, u64 cfg, std::unique_ptr<ReadOnlyImage>& im, u64 align);
static void run_huge_seq(Line const& l, Plan const& p, u64 cfg)
{
    u64 which = l.at(0) % 14, nt = 1 + l.at(3) % 4, nq = std::min<u64>(l.at(4), 1000) * 3;
    Rng r(l.at(1) ^ 78);
    std::unique_ptr<ReadOnlyImage> im;
    Seq s; Climb c; Steps d; Fall f; Nibbles nb; Dense dn; Obj* o = 0;
    nb.seed = dn.seed = l.at(1); nb.n = G4 + r.below(100000); dn.n = G4 / 32 + r.below(100000);
    if (which == 12) heap_giant();
    f.seed = l.at(1); f.n = G4 / 4 + r.below(100000); f.step = r.below(2) ? 1 : 1 + r.below(9); f.every = 1 + f.n / (1 + r.below(300)) + r.below(1000); f.off = r.below(f.every);
    s.seed = c.seed = l.at(1); c.n = G4 / 32 + r.below(100000); c.stride = (u64(1) << 34) + r.below(u64(1) << 33); d.c = c;
    s.lo = 50 + int(r.below(3)); s.spread = 1 + int(r.below(8)); s.n = G4 / u64(s.lo) + 20000 + r.below(100000);
    guarded("building a very long structure", [&] {
        switch (which) {
        case 5: o = factory(cfg)->build_formula(K_EF, c.n, c.n * c.stride, c); break;
        case 12: o = factory(cfg)->build_formula(K_NV, nb.n, 0, nb); break;
        case 13: o = factory(cfg)->build_formula(K_D64, dn.n, 0, dn); break;
        case 11: o = factory(cfg)->build_formula(K_CT, f.n, 0, f); break;
        case 6: o = factory(cfg)->build_formula(K_GV, s.n, 0, s); break;
        case 7: o = factory(cfg)->build_formula(K_GB, s.n, 0, s); break;
        case 8: o = factory(cfg)->build_formula(K_EFCL, s.n, 0, s); break;
        default: o = factory(cfg)->build_formula(K_EFL, c.n, 0, d); break;
        }
        static const u64 kinds[] = { K_EF, K_GV, K_GB, K_EFCL, K_EFL };
        if (l.at(5) && r.below(2)) o = mapped_long(o, which == 11 ? u64(K_CT) : which == 12 ? u64(K_NV) : which == 13 ? u64(K_D64) : kinds[which - 5], cfg, im, l.at(1));
    });
    std::vector<std::function<void()> > bodies;
    for (u64 k = 0; k < nt; ++k) bodies.push_back([&, k] {
        guarded("reading a very long structure", [&] {
            Rng r(mix64(l.at(1) + k));
            for (u64 i = 0; i < nq; ++i, yield_point()) {
                if (which == 5) ask_climb(o, c, r);
                else if (which == 11) ask_fall(o, f, r);
                else if (which == 12) { u64 i = spot_seq(r, nb.n, 1); hcheck("nibble", i, 0, ask1(o, Q_AT, i), nb.at(i), nb.n); if (!r.below(30)) hcheck("size", 0, 0, ask1(o, Q_SIZE, 0), nb.n, nb.n); }
                else if (which == 13) { u64 i = spot_seq(r, dn.n, 32); hcheck("darray64.select", i, 0, ask1(o, Q_SEL, i), dn.at(i), dn.n); if (!r.below(30)) hcheck("num_ones", 0, 0, ask1(o, Q_NUM1, 0), dn.n, dn.n); }
                else if (which == 9) { if (r.below(20) == 0) hcheck("sum", 0, 0, ask1(o, Q_SUM, 0), c.at(c.n - 1), c.n); ask_seq(o, d, c.n, 34, r); }
                else ask_seq(o, s, s.n, u64(s.lo + s.spread / 2), r);
            }
        });
    });
    std::vector<Switch> sw, h; u64 first; get_switches(p, 0, sw, h, first);
    run_threads(bodies, sw, h, first);
    o->destroy();
}

// a builder beyond 2^32 bits
static void huge_builder(u64 seed, u64 cfg)
{
    Rng r(seed);
    bool fill = r.below(2);
    u64 base = G4 - 64 * r.below(3) - r.below(200);
    Builder* b = 0;
    std::vector<uint8_t> tail; // bits from base on
    guarded("editing a long builder", [&] {
        u64 how = r.below(3);
        if (how == 0) b = factory(cfg)->builder(base, fill);
        else { b = factory(cfg)->builder(0, false); if (r.below(2)) b->reserve(base + 5000); if (fill) b->one_extend(base); else b->zero_extend(base); }
        u64 n = 6 + r.below(30);
        for (u64 i = 0; i < n; ++i) {
            u64 v = r.next();
            switch (r.below(8)) {
            case 0: b->push_back(v & 1); tail.push_back(v & 1); break;
            case 1: { u64 l = r.below(65); u64 w = l == 64 ? v : v & ((u64(1) << l) - 1); b->append_bits(w, l); for (u64 k = 0; k < l; ++k) tail.push_back((w >> k) & 1); break; }
            case 2: { u64 l = r.below(300); b->zero_extend(l); tail.insert(tail.end(), l, 0); break; }
            case 3: { u64 l = r.below(300); b->one_extend(l); tail.insert(tail.end(), l, 1); break; }
            case 4: { if (tail.empty()) break; u64 p = v % tail.size(); b->set(base + p, (v >> 40) & 1); tail[p] = (v >> 40) & 1; break; }
            case 5: { u64 l = std::min<u64>(r.below(65), tail.size()); if (!l) break; u64 p = v % (tail.size() - l + 1), w = mix64(v); if (l < 64) w &= (u64(1) << l) - 1; b->set_bits(base + p, w, l); for (u64 k = 0; k < l; ++k) tail[p + k] = (w >> k) & 1; break; }
            default: { Builder* o = factory(cfg)->builder(0, false); u64 l = r.below(400); for (u64 k = 0; k < l; ++k) { bool x = mix64(v + k) & 1; o->push_back(x); tail.push_back(x); } b->append(*o); o->destroy(); break; }
            }
            hcheck("builder.size", base, i, b->size(), base + tail.size(), base);
        }
        u64 total = base + tail.size();
        bool rev = r.below(3) == 0;
        if (rev) b->reverse();
        bool swapped = r.below(2);
        if (swapped) { Builder* o = factory(cfg)->builder(100, true); o->swap(*b); b->destroy(); b = o; }
        hcheck("builder.size", base, 1000, b->size(), total, base);
        Obj* o = b->finish(K_BV, 0);
        b->destroy(); b = 0;
        auto bit = [&](u64 p) { if (rev) p = total - 1 - p; return p < base ? fill : bool(tail[p - base]); };
        u64 lo = base > 700 ? base - 700 : 0;
        for (u64 p = lo; p < total; p += 40) {
            u64 q = rev ? total - 1 - p : p, l = std::min<u64>(64, total - q), w = 0;
            for (u64 k = 0; k < l; ++k) w |= u64(bit(q + k)) << k;
            hcheck("bits made from a builder", q, l, ask1(o, Q_BITS, q, l), w, total);
        }
        for (u64 i = 0; i < 300; ++i) { u64 p = r.below(total); hcheck("bits made from a builder", p, 0, ask1(o, Q_AT, p), bit(p), total); }
        hcheck("size", 0, 0, ask1(o, Q_SIZE, 0), total, total);
        o->destroy();
    });
}

// an image of more than 4 GiB: frozen in one life, mapped in another
static void huge_image(Line const& l, Plan const& p)
{
    Rng r(l.at(1) ^ 79);
    G4 = u64(1) << 35;
    Sparse s; make_sparse(s, l.at(1));
    s.fill = false;
    count(C_p_giant_image);
    heap_giant();
    Spec sp; sp.kind = r.below(2) ? u64(K_EF) : r.below(N_KINDS); sp.gen = r.below(10); sp.n = 1 + r.below(3000); sp.seed = r.next(); sp.p = r.below(1000);
    Model m; m.make(sp);
    u64 before = r.below(2), second = before ? ~u64(0) : 0;
    disk_put("big.img", "", 0); disk_put("again.img", "", 0);
    durable_init(1, 4096);
    u64 said[4] = { 0, 0, 0, 0 };
    run_life([&] {
        apply_world(p, 0);
        guarded("freezing more than 4 GiB", [&] {
            Builder* b = factory(CFG_POPCNT)->builder(s.n, false);
            for (size_t i = 0; i < s.ex.size(); ++i) b->set(s.ex[i], true);
            Obj* o = b->finish(K_BV, 0);
            b->destroy();
            Obj* o2 = factory(CFG_POPCNT)->build(m, 0, 0);
            said[0] = o->size_of(); said[2] = o2->size_of();
            u64 a[3] = { 0, 0, 0 };
            {
                LibScope ls;
                std::ofstream f("/simdisk/big.img", std::ios::binary);
                for (int k = 0; k < 2; ++k) {
                    { HarnessScope hs; ((k == 0) == !before ? said[1] : said[3]) = ((k == 0) == !before ? o : o2)->freeze(f, 0); }
                    a[k + 1] = (u64)(std::streamoff)f.tellp();
                }
                f.close();
                HarnessScope hs;
                if (!f) violation("stream-failed", "the stream failed although every write succeeded");
            }
            u64 first = before ? said[3] : said[1], both = said[1] + said[3];
            hcheck("freeze-count", 0, 0, first, a[1], s.n);
            hcheck("freeze-count", 0, 1, both, a[2], s.n);
            hcheck("freeze-count", 0, 2, both, disk_size("big.img"), s.n);
            hcheck("size_of", 0, 0, said[0] + 8, said[1], s.n);
            hcheck("size_of", 0, 1, said[2] + 8, said[3], s.n);
            std::vector<TreeNode> t; std::string d; o->size_tree(t, d);
            hcheck("size-tree", 0, 0, t.empty() ? 0 : t[0].size, said[0], s.n);
            o->destroy(); o2->destroy();
            durable_put(0, said, sizeof said);
        });
        heap_check("after freezing");
    });
    count(C_f_restart);
    apply_world(p, 1);
    memcpy(said, durable_get(0).data, sizeof said);
    second = before ? 0 : said[1];
    Obj* o = 0; Obj* o2 = 0;
    boost::iostreams::mapped_file_source* mf = 0;
    guarded("mapping more than 4 GiB", [&] {
        mf = new boost::iostreams::mapped_file_source("/simdisk/big.img");
        o = factory(CFG_POPCNT)->empty(K_BV); o2 = factory(CFG_POPCNT)->empty(m.sp.kind);
        u64 rd = before ? o->map(mf->data() + said[3], 0) : o->map(*mf, 0), rd2 = o2->map(mf->data() + second, 0);
        hcheck("map-count", 0, 0, rd, said[1], s.n);
        hcheck("map-count", 0, 1, rd2, said[3], s.n);
        hcheck("size_of", 1, 0, o->size_of(), said[0], s.n);
        check_some(o2, m, l.at(1), 30, "beside an image of more than 4 GiB");
    });
    u64 nt = 1 + l.at(3) % 4, nq = std::min<u64>(l.at(4), 1000);
    std::vector<std::function<void()> > bodies;
    for (u64 k = 0; k < nt; ++k) bodies.push_back([&, k] {
        guarded("reading an image of more than 4 GiB", [&] {
            Rng r(mix64(l.at(1) + k));
            for (u64 i = 0; i < nq; ++i, yield_point()) { u64 op = r.below(3), p = spot(r, s), n = s.n; if (op == 0) hcheck("access", p, 0, ask1(o, Q_AT, p), s.at(p), n); else if (op == 1) { u64 b = std::min<u64>(r.below(65), n - p); hcheck("get_bits", p, b, ask1(o, Q_BITS, p, b), s.word(p, b), n); } else hcheck("get_word", p, 0, ask1(o, Q_WORD, p), s.word(p, 64), n); }
        });
    });
    std::vector<Switch> sw, h; u64 first; get_switches(p, 0, sw, h, first);
    run_threads(bodies, sw, h, first);
    guarded("freezing a mapped structure of more than 4 GiB", [&] {
        {
            LibScope ls;
            std::ofstream f("/simdisk/again.img", std::ios::binary);
            { HarnessScope hs; for (int k = 0; k < 2; ++k) ((k == 0) == !before ? o : o2)->freeze(f, 0); }
            f.close();
        }
        hcheck("refreeze", 0, 0, disk_size("again.img"), said[1] + said[3], s.n);
        hcheck("refreeze", 0, 1, disk_hash("again.img"), disk_hash("big.img"), s.n);
        o->destroy(); o2->destroy();
        delete mf;
    });
    heap_check("at the end");
}
// the structure mapped from an image of itself
static Obj* mapped_long(Obj* o, u64 kind, u64 cfg, std::unique_ptr<ReadOnlyImage>& im, u64 align)
{
    count(C_p_long_mapped);
    u64 n = 0; std::string img = freeze_to_string(o, &n);
    hcheck("freeze-count", 0, 0, n, img.size(), G4);
    im.reset(new ReadOnlyImage(img.data(), img.size(), align % 3));
    o->destroy();
    o = factory(cfg)->empty(kind);
    g_asked = "mapping";
    u64 s0 = own_steps();
    u64 rd = o->map(im->base, 0);
    u64 d = own_steps() - s0, keep = g_fixed_steps;
    g_fixed_steps = 500; huge_bounded(d, 0); g_fixed_steps = keep;
    hcheck("map-count", 0, 0, rd, n, G4);
    return o;
}

void gen_huge(Rng& r, Plan& p, u64 which, u64 log2)
{
    p.set("heap", 0); p.set("junk", r.next());
    if (log2) p.add("huge", { which, r.next() >> 8, u64(CFG_MAIN), r.below(4), 60 + r.below(60), log2 });
    else p.add("huge", { which, r.next() >> 8, u64(CFG_POPCNT), 2, 60 + r.below(60) });
    gen_switches(r, p, 0, 2);
}

bool run_huge(Plan const& p)
{
    Line const* l = 0;
    for (size_t i = 0; i < p.lines.size(); ++i) if (p.lines[i].verb == "huge") { l = &p.lines[i]; break; }
    if (!l) return false;
    apply_world(p, 0);
    count(l->at(5) ? C_p_long : C_p_huge);
    more_time();
    u64 which = l->at(0) % 14, log2 = l->at(5), cfg = log2 ? CFG_MAIN : CFG_POPCNT, nt = 1 + l->at(3) % 4, nq = std::min<u64>(l->at(4), 1000);
    static const u64 fixed[] = { 1500, 1500, 14000, 5000, 0, 14000, 3200, 3200, 3200, 14000, 0, 8000, 1500, 3200 };
    g_fixed_steps = fixed[which];
    g_walk_left = log2 ? u64(1) << 26 : u64(1) << 34;
    if (log2) G4 = u64(1) << std::min<u64>(std::max<u64>(log2, 22), 28);
    where(log2 ? "a very long structure" : "more than 2^32 bits");
    if (which == 4) { huge_builder(l->at(1), cfg); heap_check("at the end"); return true; }
    if (which == 10) { huge_image(*l, p); return true; }
    if (which > 4) { run_huge_seq(*l, p, cfg); return true; }
    std::unique_ptr<ReadOnlyImage> im;
    Sparse s; BigTree t; Obj* o = 0;
    guarded("building a very long structure", [&] {
        Rng r(l->at(1) ^ 77);
        if (which == 3) {
            Spec sp; sp.kind = K_BP; sp.gen = r.below(10); sp.n = 2 * (1 + r.below(40000)); sp.seed = r.next(); sp.p = r.below(1000);
            Model m; m.make(sp);
            t.x = m.bits; t.L = m.bits.size(); t.A = G4 / 2 - r.below(3) * r.below(40000); t.B = r.below(70000); t.D = 1;
            u64 shape = r.below(6);
            if (shape < 2) { t.A = t.A / 2 + r.below(G4 / 4); }                                 // between half the length and all of it
            else if (shape == 2) { t.D = 1 + r.below(100000); }
            else if (shape == 3) { t.D = G4 / 4 - r.below(100000) + r.below(2) * (G4 / 8); t.A = G4 / 16 + r.below(70000); }
            else if (shape == 4) { t.D = G4 / 2 - 50000 - r.below(40000); t.A = r.below(3000); }    // as deep as it may be
            if (r.below(3) == 0) std::swap(t.A, t.B);
            t.match.assign(m.match.begin(), m.match.end());
            for (size_t i = 0; i < m.encl.size(); ++i) t.encl.push_back(m.encl[i] == ~uint32_t(0) ? ~u64(0) : m.encl[i]);
            for (size_t i = 0; i <= t.L; ++i) t.ex.push_back(2 * m.rank1[i] - i);
            Builder* b = factory(cfg)->builder(0, false);
            b->append_pattern(~u64(0), t.D);
            u64 A = t.A, B = t.B;
            b->append_pattern(0x5555555555555555ULL, 2 * A);
            for (size_t i = 0; i < t.L; ++i) b->push_back(t.x[i]);
            b->append_pattern(0x5555555555555555ULL, 2 * B);
            b->zero_extend(t.D);
            o = b->finish(K_BP, r.below(4));
            b->destroy();
        } else {
            make_sparse(s, l->at(1));
            Builder* b;
            if (r.below(2)) b = factory(cfg)->builder(s.n, s.fill);
            else { b = factory(cfg)->builder(0, false); u64 h = r.below(s.n); if (s.fill) { b->one_extend(h); b->one_extend(s.n - h); } else { b->zero_extend(h); b->zero_extend(s.n - h); } }
            for (size_t i = 0; i < s.ex.size(); ++i) b->set(s.ex[i], !s.fill);
            o = which == 0 ? b->finish(K_BV, 0) : which == 1 ? b->finish(K_RS, r.below(4)) : b->finish(K_DA, s.fill ? 2 : 1);
            b->destroy();
        }
        static const u64 kinds[] = { K_BV, K_RS, K_DA, K_BP };
        if (log2 && r.below(2)) o = mapped_long(o, kinds[which], cfg, im, l->at(1));
    });
    std::vector<std::function<void()> > bodies;
    for (u64 k = 0; k < nt; ++k) bodies.push_back([&, k] {
        guarded("reading a very long structure", [&] {
            Rng r(mix64(l->at(1) + k));
            for (u64 i = 0; i < nq; ++i, yield_point()) { if (which == 3) ask_tree(o, t, r); else if (which != 2 && r.below(5) == 0) drive_sparse(o, s, r); else ask_sparse(o, s, which, r); }
        });
    });
    std::vector<Switch> sw, h; u64 first; get_switches(p, 0, sw, h, first);
    run_threads(bodies, sw, h, first);
    o->destroy();
    return true;
}

} // namespace sim
