#include "model.hpp"
#include <algorithm>
#include <string.h>

namespace sim {

const char* const kind_names[N_KINDS] = {
    "mappable_vector<u8>", "mappable_vector<u16>", "mappable_vector<u32>", "mappable_vector<u64>", "bit_vector", "rs_bit_vector",
    "darray", "darray64", "bp_vector", "cartesian_tree", "topk_vector<efcl>", "topk_vector<mappable>", "elias_fano", "elias_fano_list",
    "elias_fano_compressed_list", "gamma_vector", "gamma_bit_vector", "nibble_vector", "composite" };
const char* const op_names[N_OPS] = {
    "size", "access", "get_bits", "get_word", "get_word56", "predecessor0", "successor0", "predecessor1", "successor1", "data",
    "num_ones", "num_zeros", "rank", "rank0", "select", "select0", "find_open", "find_close", "enclose", "excess", "excess_rmq", "excess_rmq(index)",
    "rmq", "topk", "topk-enumeration", "delta", "select_range", "sum", "iterate", "pods", "member-rank", "member-list", "member-nibbles",
    "member-vector", "member-sizes" };

static const u64 NONE = ~u64(0);

// ------------------------------------------------------------------------------------------------
// content
// ------------------------------------------------------------------------------------------------
static void gen_bits(std::vector<uint8_t>& b, u64 gen, u64 n, u64 seed, u64 p)
{
    Rng r(seed ^ 0xB175);
    b.assign(n, 0);
    switch (gen % 12) {
    case 0: { // uniform density
        static const u64 num[] = { 1, 1, 1, 1, 1, 63, 7, 999, 1, 31 }, den[] = { 2, 4, 8, 64, 1000, 64, 8, 1000, 5000, 32 };
        u64 k = p % 10;
        for (u64 i = 0; i < n; ++i) b[i] = r.below(den[k]) < num[k];
        break; }
    case 1: break;
    case 2: std::fill(b.begin(), b.end(), 1); break;
    case 3: { // runs
        static const u64 sc[] = { 3, 20, 64, 130, 600, 1500, 9000 };
        u64 s = sc[p % 7], i = 0; int v = (int)r.below(2);
        while (i < n) { u64 l = 1 + r.below(2 * s); for (u64 j = 0; j < l && i < n; ++j, ++i) b[i] = (uint8_t)v; v = !v; }
        break; }
    case 4: { // blocks of 512 of different densities
        for (u64 s = 0; s < n; s += 512) {
            u64 d = r.below(6);
            for (u64 i = s; i < n && i < s + 512; ++i)
                b[i] = d == 0 ? 0 : d == 1 ? 1 : d == 2 ? r.below(100) == 0 : d == 3 ? r.below(100) != 0 : d == 4 ? (uint8_t)r.below(2) : (i % 64 == 63);
        }
        break; }
    case 5: { u64 q = 1 + p % 130, o = r.below(q); for (u64 i = 0; i < n; ++i) b[i] = i % q == o; break; }
    case 6: { // one exception
        int v = (int)(p & 1);
        std::fill(b.begin(), b.end(), (uint8_t)!v);
        if (n) { u64 at = (p >> 1) % 4 == 0 ? 0 : (p >> 1) % 4 == 1 ? n - 1 : r.below(n); b[at] = (uint8_t)v; }
        break; }
    case 7: { // number of ones (or zeros) hits multiples of 1024 at block edges
        int v = (int)(p & 1); u64 left = 0, shape = (p >> 1) % 3;
        for (u64 s = 0; s < n; s += 512) {
            u64 len = std::min<u64>(512, n - s);
            if (!left) left = 1024 + (r.below(3) == 0 ? (u64)r.below(3) - 1 : 0);
            u64 k = std::min(left, len);
            if (shape == 1) k = std::min(left, r.below(len + 1)); else if (shape == 2 && r.below(2)) k = std::min<u64>(left, len / 2);
            // k values of v placed in the block
            std::vector<uint8_t> t(len, (uint8_t)!v);
            if (r.below(2)) { for (u64 i = 0; i < k; ++i) t[len - 1 - i] = (uint8_t)v; }
            else { u64 c = 0; while (c < k) { u64 i = r.below(len); if (t[i] != v) { t[i] = (uint8_t)v; ++c; } } }
            for (u64 i = 0; i < len; ++i) b[s + i] = t[i];
            left -= k;
        }
        break; }
    case 8: { // far apart: groups of 1024 spanning about 65536
        u64 i = r.below(200);
        int v = (int)(p & 1);
        std::fill(b.begin(), b.end(), (uint8_t)!v);
        while (i < n) {
            u64 span = 65534 + r.below(5);          // last - first of the group
            u64 first = i;
            if (r.below(3) == 0) { // dense group
                for (u64 k = 0; k < 1024 && i < n; ++k) { b[i] = (uint8_t)v; i += 1 + r.below(3); }
                continue;
            }
            u64 k = 0;
            for (; k < 1023 && i < n; ++k) { b[i] = (uint8_t)v; i += 1 + r.below(k % 100 == 7 ? 600 : 50); if (i - first >= span) i = first + span - 1; while (i < n && b[i] == v && i < first + span) ++i; if (i >= first + span) break; }
            if (first + span < n) b[first + span] = (uint8_t)v;
            i = first + span + 1 + r.below(70);
        }
        break; }
    case 9: { // words that are all-zero, all-one or random
        for (u64 s = 0; s < n; s += 64) { u64 d = r.below(5); u64 w = d == 0 ? 0 : d == 1 ? ~u64(0) : d == 2 ? r.next() : d == 3 ? (u64(1) << r.below(64)) : ~(u64(1) << r.below(64));
            for (u64 i = s; i < n && i < s + 64; ++i) b[i] = (w >> (i - s)) & 1; }
        break; }
    case 11: { // a last, partial group whose extent is about 65536, perhaps behind full groups
        int v = (int)(p & 1);
        std::fill(b.begin(), b.end(), (uint8_t)!v);
        u64 i = r.below(130), full = (p >> 1) % 3;
        for (u64 k = 0; k < full * 1024 && i < n; ++k) { b[i] = (uint8_t)v; i += 1 + r.below(2); }
        u64 g = (p >> 3) % 4, size = g == 0 ? 2 + r.below(1022) : 32 * (1 + r.below(31)) + (g == 1 ? 0 : 1);
        u64 span = 65534 + r.below(5);
        if (i + span + 1 > n) { if (n < 70) break; span = n - 1 - i; if (i >= n) break; if (span < size) size = span / 2 + 1; }
        u64 first = i, shape = r.below(3);
        b[first] = (uint8_t)v; b[first + span] = (uint8_t)v;
        for (u64 k = 2; k < size; ++k) {
            u64 at = shape == 0 ? first + k - 1 : shape == 1 ? first + span - (k - 1) : first + 1 + r.below(span);
            while (at > first && (at >= n || b[at] == v)) --at;
            if (at > first) b[at] = (uint8_t)v;
        }
        break; }
    default: { // dense head, long empty middle, dense tail (or the reverse)
        int v = (int)(p & 1);
        u64 x = r.below(n + 1), y = r.below(n + 1); if (x > y) std::swap(x, y);
        for (u64 i = 0; i < n; ++i) b[i] = (i < x || i >= y) ? (uint8_t)(r.below(8) ? v : !v) : (uint8_t)!v;
        break; }
    }
}

static void gen_vals(std::vector<u64>& o, u64 gen, u64 n, u64 seed, u64 p, u64 maxv)
{
    Rng r(seed ^ 0x7A15);
    o.resize(n);
    u64 w = 1 + p % 64;
    u64 mask = w == 64 ? ~u64(0) : (u64(1) << w) - 1;
    u64 acc = 0;
    for (u64 i = 0; i < n; ++i) {
        u64 v = 0;
        switch (gen % 12) {
        case 0: v = r.below(1 + p % 300); break;
        case 1: { u64 l = r.below(w + 1); v = l ? (r.next() >> (64 - l)) : 0; break; }
        case 2: v = p % 70; break;
        case 3: v = r.below(20) == 0 ? (r.next() & mask) : 0; break;
        case 4: acc += r.below(1 + p % 9); v = acc; break;
        case 5: v = (n - i) / (1 + p % 5); break;
        case 6: v = i % (1 + p % 97); break;
        case 7: v = (p % 64) + r.below(3); break;
        case 8: { u64 k = r.below(w); u64 b = u64(1) << k; v = b + r.below(3) - 1; break; }
        case 9: v = maxv - r.below(2); break;
        case 10: v = r.below(2); break;
        default: v = (i * 31 / (1 + p % 200)) % 2 ? r.below(5) : (r.next() & mask); break;
        }
        o[i] = v > maxv ? (maxv == ~u64(0) ? v : v % (maxv + 1)) : v;
    }
}

static void gen_bp(std::vector<uint8_t>& b, u64 gen, u64 n, u64 seed, u64 p)
{
    Rng r(seed ^ 0xB9);
    n &= ~u64(1);
    b.clear(); b.reserve(n);
    u64 h = n / 2;
    switch (gen % 10) {
    case 0: default: { // random walk, up to the bound
        u64 open = 0, opened = 0;
        while (b.size() < n) { bool up = open == 0 ? true : opened == h ? false : r.below(2) != 0; if (up) { ++open; ++opened; b.push_back(1); } else { --open; b.push_back(0); } }
        break; }
    case 1: b.assign(h, 1); b.resize(n, 0); break;
    case 2: for (u64 i = 0; i < h; ++i) { b.push_back(1); b.push_back(0); } break;
    case 3: { // forest of small random pieces
        while (b.size() < n) { std::vector<uint8_t> t; u64 left = n - b.size(); gen_bp(t, r.below(3) == 0 ? 1 : r.below(2) ? 0 : 2, std::min<u64>(left, 2 + r.below(2 + p * 4 % 3000)), r.next(), p); if (t.empty()) break; b.insert(b.end(), t.begin(), t.end()); }
        break; }
    case 4: { // runs up and down
        static const u64 sc[] = { 4, 60, 300, 1100, 4000, 9000 };
        u64 s = sc[p % 6], open = 0, opened = 0;
        bool up = true;
        while (b.size() < n) { u64 l = 1 + r.below(2 * s); for (u64 i = 0; i < l && b.size() < n; ++i) { if (up && opened == h) break; if (!up && !open) break; if (up) { ++open; ++opened; b.push_back(1); } else { --open; b.push_back(0); } }
            up = !up; if (opened == h) up = false; else if (!open) up = true; }
        break; }
    case 5: { // drift: up first, later down
        u64 open = 0, opened = 0;
        while (b.size() < n) { bool half = b.size() < h; bool up = open == 0 ? true : opened == h ? false : half ? r.below(10) < 7 : r.below(10) < 3; if (up) { ++open; ++opened; b.push_back(1); } else { --open; b.push_back(0); } }
        break; }
    case 6: { // equal paths
        u64 each = std::max<u64>(2, (n / (1 + p % 5)) & ~u64(1));
        while (b.size() < n) { u64 l = std::min<u64>(each, n - b.size()); b.insert(b.end(), l / 2, 1); b.insert(b.end(), l / 2, 0); }
        break; }
    case 7: // root with leaves
        if (n) { b.push_back(1); while (b.size() + 1 < n) { b.push_back(1); b.push_back(0); } b.push_back(0); }
        break;
    case 8: { // path with leaves hanging, caterpillar
        u64 open = 0, opened = 0; bool down = false;
        while (b.size() < n) {
            if (opened == h) { b.push_back(0); --open; continue; }
            if (!down) { b.push_back(1); ++open; ++opened; if (opened < h && r.below(2)) { b.push_back(1); ++opened; b.push_back(0); } if (opened > h - h / 4) down = true; }
            else { if (open && r.below(2)) { b.push_back(0); --open; } else { b.push_back(1); ++opened; if (b.size() < n) b.push_back(0); } }
        }
        break; }
    case 9: { // plateau: climb to a depth, oscillate shallowly for long, come down
        u64 d = std::min<u64>(h, 1 + (p * 37) % 4200), opened = d, open = d;
        b.assign(d, 1);
        while (opened < h) { if (open < d || r.below(2)) { b.push_back(1); ++open; ++opened; if (open > d + 3) { b.push_back(0); --open; } } else if (open > d - std::min<u64>(d - 1, 2) && open) { b.push_back(0); --open; } else { b.push_back(1); ++open; ++opened; } }
        while (open) { b.push_back(0); --open; }
        break; }
    }
    // make sure it is balanced
    std::vector<uint8_t> f; f.reserve(b.size());
    u64 open = 0;
    for (size_t i = 0; i < b.size(); ++i) { if (b[i]) { ++open; f.push_back(1); } else if (open) { --open; f.push_back(0); } }
    while (open) { f.push_back(0); --open; }
    b.swap(f);
}

void Model::finish_bits()
{
    rank1.assign(1, 0);
    rank1.reserve(bits.size() + 1);
    for (size_t i = 0; i < bits.size(); ++i) {
        if (bits[i]) ones.push_back(i); else zeros.push_back(i);
        rank1.push_back(rank1.back() + bits[i]);
    }
}
void Model::finish_bp()
{
    match.assign(bits.size(), 0); encl.assign(bits.size(), ~uint32_t(0));
    std::vector<uint32_t> st;
    for (size_t i = 0; i < bits.size(); ++i) {
        if (bits[i]) { if (!st.empty()) encl[i] = st.back(); st.push_back((uint32_t)i); }
        else { if (st.empty()) harness_error("unbalanced model"); match[i] = st.back(); match[st.back()] = (uint32_t)i; st.pop_back(); }
    }
    if (!st.empty()) harness_error("unbalanced model");
}

bool Model::has_bits() const { return sp.kind == K_BV || sp.kind == K_RS || sp.kind == K_BP || sp.kind == K_DA; }
u64 Model::length() const { return has_bits() ? bits.size() : vals.size(); }

void Model::make(Spec const& s)
{
    HarnessScope hs;
    *this = Model();
    sp = s;
    switch (s.kind) {
    case K_MV8: gen_vals(vals, s.gen, s.n, s.seed, s.p, 0xFF); break;
    case K_MV16: gen_vals(vals, s.gen, s.n, s.seed, s.p, 0xFFFF); break;
    case K_MV32: gen_vals(vals, s.gen, s.n, s.seed, s.p, 0xFFFFFFFFu); break;
    case K_MV64: case K_CT: gen_vals(vals, s.gen, s.n, s.seed, s.p, ~u64(0)); break;
    case K_TKM: gen_vals(vals, s.gen, s.n, s.seed, s.p, ~u64(0)); break;
    case K_TKE: case K_EFCL: case K_GV: gen_vals(vals, s.gen, s.n, s.seed, s.p, ~u64(0) - 1); break;
    case K_GB: gen_vals(vals, s.gen, s.n, s.seed, s.p, ~u64(0) - 2); break;
    case K_EFL: {
        // the sum has to fit
        u64 mx = s.n ? (u64(1) << 62) / s.n : 1;
        if (s.gen % 13 == 12) { // nearly all small, one huge step: far-apart high bits
            Rng r(s.seed); vals.resize(s.n); for (u64 i = 0; i < s.n; ++i) vals[i] = r.below(2);
            if (s.n) vals[s.n - 1 - r.below(std::min<u64>(s.n, 1500))] = (u64(1) << 40) + r.below(100);
        } else gen_vals(vals, s.gen, s.n, s.seed, s.p, mx);
        for (size_t i = 0; i < vals.size(); ++i) sum += vals[i];
        break; }
    case K_D64: gen_vals(vals, s.gen, s.n, s.seed, s.p, 63);
        for (size_t i = 0; i < vals.size(); ++i) { bits.insert(bits.end(), vals[i], 0); bits.push_back(1); }
        finish_bits();
        break;
    case K_BV: case K_RS: case K_DA: gen_bits(bits, s.gen, s.n, s.seed, s.p); finish_bits(); break;
    case K_BP: gen_bp(bits, s.gen, s.n, s.seed, s.p); finish_bits(); finish_bp(); break;
    case K_EF: {
        Rng r(s.seed ^ 0xEF);
        if ((s.var & 2) == 0) { // a bitmap
            gen_bits(bits, s.gen, s.n, s.seed, s.p); finish_bits();
            vals = ones; universe = s.n;
        } else {
            u64 g = s.gen % 9, m = s.n;
            vals.resize(m);
            if (g == 0) { universe = 1 + r.below(4 * m + 10); for (u64 i = 0; i < m; ++i) vals[i] = r.below(universe); }
            else if (g == 1) { universe = (u64(1) << (s.p % 60)) + r.below(1000); for (u64 i = 0; i < m; ++i) vals[i] = r.below(universe); }
            else if (g == 2) { universe = 1000 + r.below(1u << 20); u64 v = r.below(universe); for (u64 i = 0; i < m; ++i) vals[i] = r.below(8) ? v : r.below(universe); }
            else if (g == 3) { universe = (u64(1) << (20 + s.p % 40)); u64 c = 1 + r.below(4); std::vector<u64> cs; for (u64 i = 0; i < c; ++i) cs.push_back(r.below(universe - 5000)); for (u64 i = 0; i < m; ++i) vals[i] = cs[r.below(c)] + r.below(4000); }
            else if (g == 4) { universe = m + 1; for (u64 i = 0; i < m; ++i) vals[i] = i; }
            else if (g == 5) { universe = (u64(1) << 40); for (u64 i = 0; i < m; ++i) vals[i] = i + 1000 < m ? i / 3 : universe - 1 - r.below(100); }
            else if (g == 6) { universe = m * (1 + s.p % 200) + 1; for (u64 i = 0; i < m; ++i) vals[i] = i * (1 + s.p % 200); }
            else if (g == 8 && m > 33000) { // the last group of 1024 in the high bits extends over about 65536
                u64 l = s.p % 20, f = (m - 1) / 1024 * 1024, h = 65534 + r.below(5) - (m - 1 - f);
                universe = (u64(1) << l) * (2 * m - 1);
                for (u64 i = 0; i < m; ++i) vals[i] = 0;
                vals[m - 1] = std::min(h << l, universe);
            }
            else { universe = 5000 + r.below(100); for (u64 i = 0; i < m; ++i) vals[i] = r.below(3) == 0 ? universe - 1 : r.below(3) == 0 ? 0 : r.below(universe); if (m && s.p % 2) vals[0] = universe; }
            std::sort(vals.begin(), vals.end());
            if (!m && universe > 100000) universe = 1000;
        }
        break; }
    case K_NV: gen_vals(vals, s.gen, s.n, s.seed, s.p, 15); break;
    case K_COMP: {
        Rng r(s.seed ^ 0xC0);
        gen_bits(bits, s.gen, s.n, s.seed, s.p); finish_bits();
        gen_vals(list, r.below(12), r.below(s.n / 2 + 2), r.next(), s.p, ~u64(0) - 1);
        std::vector<u64> t; gen_vals(t, r.below(12), r.below(s.n / 3 + 2), r.next(), s.p, 15);
        nib.assign(t.begin(), t.end());
        gen_vals(vec32, r.below(12), r.below(s.n / 4 + 2), r.next(), s.p, 0xFFFFFFFFu);
        pod64 = r.next(); pod32 = (uint32_t)r.next(); pod8 = (uint8_t)r.next();
        break; }
    default: harness_error("bad kind");
    }
    if (length() == 0) count(C_p_empty_subject); else count(C_p_nonempty);
    if (length() > 8192) count(C_p_large);
    if (s.kind == K_BP && bits.size() > 8192) count(C_p_superblocks);
    if ((s.kind == K_DA) && ones.size() > 1023 && (ones[1023] - ones[0]) >= 65536) count(C_p_overflow_block);
    if (s.kind == K_RS && (ones.size() > 1024 || zeros.size() > 1024)) count(C_p_many_hints);
    if ((s.kind == K_GV || s.kind == K_GB || s.kind == K_EFCL) && !vals.empty() && vals[0] >> 60) count(C_p_wide_values);
}

// ------------------------------------------------------------------------------------------------
// queries
// ------------------------------------------------------------------------------------------------
u64 Model::pick_pos(u64 raw, u64 n) const // in [0, n)
{
    if (!n) return 0;
    u64 m = raw % 8, v = raw / 8, x;
    switch (m) {
    case 0: case 1: x = v % n; break;
    case 2: x = (v % n) / 64 * 64 + (v >> 40) % 3 - 1; break;
    case 3: x = (v % n) / 512 * 512 + (v >> 40) % 3 - 1; break;
    case 4: x = (v % n) / 8192 * 8192 + (v >> 40) % 3 - 1; break;
    case 5: x = (v & 1) ? n - 1 - std::min(n - 1, (v >> 1) % 66) : std::min(n - 1, (v >> 1) % 66); break;
    case 6: x = ones.empty() ? v % n : ones[v % ones.size()] + (v >> 40) % 3 - 1; break;
    default: x = (v % n) / 256 * 256 + (v >> 40) % 5 - 2; break;
    }
    if (x > ~u64(0) - 16) x = 0;
    return x < n ? x : n - 1;
}
u64 Model::pick_idx(u64 raw, u64 n) const
{
    if (!n) return 0;
    u64 m = raw % 6, v = raw / 6, x;
    switch (m) {
    case 0: case 1: x = v % n; break;
    case 2: x = (v % n) / 1024 * 1024 + (v >> 40) % 3 - 1; break;
    case 3: x = (v & 1) ? n - 1 - std::min(n - 1, (v >> 1) % 4) : std::min(n - 1, (v >> 1) % 4); break;
    case 4: x = (v % n) / 32 * 32 + (v >> 40) % 3 - 1; break;
    default: x = (v % n) / 64 * 64 + (v >> 40) % 3 - 1; break;
    }
    if (x > ~u64(0) - 16) x = 0;
    return x < n ? x : n - 1;
}

static const int OPS_MV[] = { Q_SIZE, Q_AT, Q_ITER, Q_AT, Q_DATA };
static const int OPS_BV[] = { Q_SIZE, Q_AT, Q_BITS, Q_WORD, Q_WORD56, Q_PRED0, Q_SUCC0, Q_PRED1, Q_SUCC1, Q_DATA };
static const int OPS_RS[] = { Q_SIZE, Q_AT, Q_BITS, Q_WORD, Q_PRED0, Q_SUCC0, Q_PRED1, Q_SUCC1, Q_NUM1, Q_NUM0, Q_RANK, Q_RANK, Q_RANK0, Q_SEL, Q_SEL, Q_SEL, Q_SEL0, Q_SEL0, Q_SEL0 };
static const int OPS_DA[] = { Q_SIZE, Q_AT, Q_NUM1, Q_NUM0, Q_SEL, Q_SEL0, Q_SEL, Q_SEL0, Q_PRED1, Q_SUCC0 };
static const int OPS_D64[] = { Q_SIZE, Q_AT, Q_NUM1, Q_SEL, Q_SEL, Q_SEL };
static const int OPS_BP[] = { Q_SIZE, Q_AT, Q_RANK, Q_SEL, Q_SEL0, Q_FOPEN, Q_FCLOSE, Q_ENCLOSE, Q_EXCESS, Q_ERMQ, Q_FOPEN, Q_FCLOSE, Q_ENCLOSE, Q_ERMQ, Q_ERMQ, Q_ERMQ_IDX };
static const int OPS_CT[] = { Q_SIZE, Q_RMQ, Q_RMQ, Q_RMQ };
static const int OPS_TK[] = { Q_SIZE, Q_AT, Q_TOPK, Q_TOPK_ENUM };
static const int OPS_EFR[] = { Q_SIZE, Q_NUM1, Q_AT, Q_RANK, Q_RANK, Q_SEL, Q_SEL, Q_PRED1, Q_SUCC1, Q_DELTA, Q_DELTA, Q_SELRANGE, Q_SELRANGE };
static const int OPS_EF[] = { Q_SIZE, Q_NUM1, Q_SEL, Q_SEL, Q_DELTA, Q_SELRANGE };
static const int OPS_EFL[] = { Q_SIZE, Q_SUM, Q_AT, Q_AT };
static const int OPS_L[] = { Q_SIZE, Q_AT, Q_AT, Q_AT };
static const int OPS_COMP[] = { Q_PODS, Q_SUBRANK, Q_SUBLIST, Q_SUBNIB, Q_SUBVEC, Q_SUBSIZES };

struct OpList { const int* p; size_t n; };
static OpList ops_of(Spec const& s)
{
#define OL(x) { OpList o = { x, sizeof(x) / sizeof(x[0]) }; return o; }
    switch (s.kind) {
    case K_MV8: case K_MV16: case K_MV32: case K_MV64: OL(OPS_MV)
    case K_BV: OL(OPS_BV)
    case K_RS: OL(OPS_RS)
    case K_DA: OL(OPS_DA)
    case K_D64: OL(OPS_D64)
    case K_BP: OL(OPS_BP)
    case K_CT: OL(OPS_CT)
    case K_TKE: case K_TKM: OL(OPS_TK)
    case K_EF: if (s.var & 1) OL(OPS_EFR) else OL(OPS_EF)
    case K_EFL: OL(OPS_EFL)
    case K_EFCL: case K_GV: case K_GB: case K_NV: OL(OPS_L)
    default: OL(OPS_COMP)
    }
#undef OL
}
size_t Model::op_count() const { return ops_of(sp).n; }

static void pick_range(u64 ra, u64 rb, u64 n, u64 a0, u64& a, u64& b)
{
    a = a0;
    u64 m = rb % 6, v = rb / 6;
    static const u64 sc[] = { 3, 70, 300, 2000, 20000 };
    if (m < 5) b = a + v % sc[m]; else b = a + v % (n - a ? n - a : 1);
    if (b >= n) b = n - 1;
    if (ra % 11 == 0) { u64 d = b - a; a = d % 2 ? 0 : a; if (d % 3 == 0) b = n - 1; }
    if (a > b) std::swap(a, b);
}

bool Model::query(u64 rop, u64 ra, u64 rb, u64 rc, Query& q, Ans& out) const
{
    HarnessScope hs;
    OpList ol = ops_of(sp);
    q = Query();
    q.op = ol.p[rop % ol.n];
    u64 n = length();
    switch (q.op) {
    case Q_SIZE: case Q_SUM: case Q_PODS: case Q_SUBSIZES: case Q_NUM1: case Q_NUM0: break;
    case Q_AT:
        if (sp.kind == K_EF) { if (!universe) return false; q.a = bits.empty() ? (vals.empty() ? ra % universe : (vals[pick_idx(ra, vals.size())] + ra % 3 - 1)) : pick_pos(ra, universe); if (q.a >= universe) q.a = ra % universe; break; }
        if (sp.kind == K_D64) { if (bits.empty()) return false; q.a = pick_pos(ra, bits.size()); break; }
        if (!n) return false;
        q.a = has_bits() ? pick_pos(ra, n) : pick_idx(ra, n); break;
    case Q_ITER: if (n > 50000 && rb % 32) return false; break;     // all elements, so not too often
    case Q_DATA: if (has_bits()) { u64 w = (n + 63) / 64; if (!w) return false; q.a = ra % w; } else if (n > 50000 && rb % 32) return false; break;
    case Q_BITS: { if (!n) return false; q.a = pick_pos(ra, n); u64 mx = std::min<u64>(64, n - q.a); u64 m = rb % 4; q.b = m == 0 ? mx : m == 1 ? (rb / 4) % (mx + 1) : m == 2 ? std::min<u64>(mx, 64 - q.a % 64) : std::min<u64>(mx, 65 - q.a % 64); break; }
    case Q_WORD: if (!n) return false; q.a = pick_pos(ra, n); break;
    case Q_WORD56: { if (n < 64) return false; u64 words = (n + 63) / 64; u64 lim = (words * 8 - 8) * 8 + 7; q.a = pick_pos(ra, std::min<u64>(n, lim + 1)); break; }
    case Q_PRED0: if (!n) return false; q.a = pick_pos(ra, n); if (zeros.empty() || q.a < zeros[0]) return false; break;
    case Q_SUCC0: if (!n) return false; q.a = pick_pos(ra, n); if (zeros.empty() || q.a > zeros.back()) return false; break;
    case Q_PRED1:
        if (sp.kind == K_EF) { if (vals.empty() || vals[0] >= universe) return false; u64 k = pick_idx(ra, vals.size()); q.a = vals[k] + rb % 3; if (rb % 7 == 0) q.a = (rb / 7) % universe; if (q.a >= universe) q.a = universe - 1; if (q.a < vals[0]) q.a = vals[0]; if (vals.back() == universe && q.a + 1 == universe) { if (!q.a || q.a - 1 < vals[0]) return false; q.a -= 1; } break; }
        if (!n) return false;
        q.a = pick_pos(ra, n); if (ones.empty() || q.a < ones[0]) return false; break;
    case Q_SUCC1:
        if (sp.kind == K_EF) { if (vals.empty()) return false; u64 k = pick_idx(ra, vals.size()); q.a = vals[k] - std::min(vals[k], rb % 3); if (rb % 7 == 0) q.a = (rb / 7) % universe; if (q.a >= universe) q.a = universe - 1; if (q.a > vals.back()) q.a = vals.back(); if (q.a >= universe) return false; break; }
        if (!n) return false;
        q.a = pick_pos(ra, n); if (ones.empty() || q.a > ones.back()) return false; break;
    case Q_RANK: case Q_RANK0:
        if (sp.kind == K_EF) { if (vals.empty()) q.a = ra % (universe + 1); else { q.a = vals[pick_idx(ra, vals.size())] + rb % 3 - 1; if (rb % 7 == 0) q.a = (rb / 7) % (universe + 1); if (rb % 11 == 0) q.a = universe; } if (q.a > universe) q.a = universe; if (!vals.empty() && vals.back() == universe && q.a == universe) { if (!universe) return false; q.a = universe - 1; } break; }
        q.a = pick_pos(ra, n + 1); break;
    case Q_SEL: { u64 k = sp.kind == K_EF ? vals.size() : ones.size(); if (!k) return false; q.a = pick_idx(ra, k); break; }
    case Q_SEL0: if (zeros.empty()) return false; q.a = pick_idx(ra, zeros.size()); break;
    case Q_FOPEN: if (zeros.empty()) return false; q.a = (ra & 1) ? zeros[pick_idx(ra / 2, zeros.size())] : match[ones[pick_idx(ra / 2, ones.size())]]; break;
    case Q_FCLOSE: if (ones.empty()) return false; q.a = (ra & 1) ? ones[pick_idx(ra / 2, ones.size())] : match[zeros[pick_idx(ra / 2, zeros.size())]]; break;
    case Q_ENCLOSE: { if (ones.empty()) return false; q.a = ones[pick_idx(ra, ones.size())]; if (encl[q.a] == ~uint32_t(0)) return false; break; }
    case Q_EXCESS: q.a = pick_pos(ra, n + 1); break;
    case Q_ERMQ: case Q_ERMQ_IDX: if (!n) return false; pick_range(ra, rb, n, pick_pos(ra, n), q.a, q.b); break;
    case Q_RMQ: if (!n) return false; pick_range(ra, rb, n, pick_idx(ra, n), q.a, q.b); break;
    case Q_TOPK: case Q_TOPK_ENUM: if (!n) return false; pick_range(ra, rb, n, pick_idx(ra, n), q.a, q.b); if (q.b - q.a > 3000) q.b = q.a + 3000; q.c = rc % 40; if (rc % 13 == 0) q.c = q.b - q.a + 1 + rc % 3; if (q.c > 200) q.c = 200; break;
    case Q_DELTA: if (!n) return false; q.a = pick_idx(ra, n); break;
    case Q_SELRANGE: if (n < 2) return false; q.a = pick_idx(ra, n - 1); break;
    case Q_SUBRANK: q.a = pick_pos(ra, bits.size() + 1); if (bits.empty()) q.a = 0; break;
    case Q_SUBLIST: if (list.empty()) return false; q.a = pick_idx(ra, list.size()); break;
    case Q_SUBNIB: if (nib.empty()) return false; q.a = pick_idx(ra, nib.size()); break;
    case Q_SUBVEC: if (vec32.empty()) return false; q.a = pick_idx(ra, vec32.size()); break;
    default: return false;
    }
    answer(q, out);
    return true;
}

static u64 word_at(std::vector<uint8_t> const& b, u64 pos, u64 len)
{
    u64 w = 0;
    for (u64 i = 0; i < len && pos + i < b.size(); ++i) w |= u64(b[pos + i]) << i;
    return w;
}

struct TopCmp { std::vector<u64> const* v; bool operator()(u64 x, u64 y) const { return (*v)[x] > (*v)[y] || ((*v)[x] == (*v)[y] && x < y); } };

void Model::answer(Query const& q, Ans& o) const
{
    o.clear();
    switch (q.op) {
    case Q_SIZE: o.push_back(sp.kind == K_EF ? universe : sp.kind == K_D64 ? bits.size() : length()); break;
    case Q_SUM: o.push_back(sum); break;
    case Q_PODS: o.push_back(pod64); o.push_back(pod32); o.push_back(pod8); break;
    case Q_SUBSIZES: o.push_back(bits.size()); o.push_back(ones.size()); o.push_back(list.size()); o.push_back(nib.size()); o.push_back(vec32.size()); break;
    case Q_NUM1: o.push_back(sp.kind == K_EF ? vals.size() : ones.size()); break;
    case Q_NUM0: o.push_back(zeros.size()); break;
    case Q_AT:
        if (sp.kind == K_EF) o.push_back(std::binary_search(vals.begin(), vals.end(), q.a));
        else if (sp.kind == K_D64 || has_bits()) o.push_back(bits[q.a]);
        else o.push_back(vals[q.a]);
        break;
    case Q_ITER: { u64 h = vals.size(); for (size_t i = 0; i < vals.size(); ++i) h = mix64(h ^ vals[i]); o.push_back(vals.size()); o.push_back(h); break; }
    case Q_DATA: if (has_bits()) o.push_back(word_at(bits, q.a * 64, 64)); else { u64 h = 1; for (size_t i = 0; i < vals.size(); ++i) h = mix64(h ^ vals[i]); o.push_back(h); } break;
    case Q_BITS: o.push_back(word_at(bits, q.a, q.b)); break;
    case Q_WORD: o.push_back(word_at(bits, q.a, 64)); break;
    case Q_WORD56: o.push_back(word_at(bits, q.a, 56)); break;
    case Q_PRED0: { size_t i = size_t(std::upper_bound(zeros.begin(), zeros.end(), q.a) - zeros.begin()); o.push_back(zeros[i - 1]); break; }
    case Q_SUCC0: { size_t i = size_t(std::lower_bound(zeros.begin(), zeros.end(), q.a) - zeros.begin()); o.push_back(zeros[i]); break; }
    case Q_PRED1: { std::vector<u64> const& v = sp.kind == K_EF ? vals : ones; size_t i = size_t(std::upper_bound(v.begin(), v.end(), q.a) - v.begin()); o.push_back(v[i - 1]); break; }
    case Q_SUCC1: { std::vector<u64> const& v = sp.kind == K_EF ? vals : ones; size_t i = size_t(std::lower_bound(v.begin(), v.end(), q.a) - v.begin()); o.push_back(v[i]); break; }
    case Q_RANK: if (sp.kind == K_EF) o.push_back(u64(std::lower_bound(vals.begin(), vals.end(), q.a) - vals.begin())); else o.push_back(rank1[q.a]); break;
    case Q_RANK0: o.push_back(q.a - rank1[q.a]); break;
    case Q_SEL: o.push_back(sp.kind == K_EF ? vals[q.a] : ones[q.a]); break;
    case Q_SEL0: o.push_back(zeros[q.a]); break;
    case Q_FOPEN: case Q_FCLOSE: o.push_back(match[q.a]); break;
    case Q_ENCLOSE: o.push_back(encl[q.a]); break;
    case Q_EXCESS: o.push_back(u64(2 * int64_t(rank1[q.a]) - int64_t(q.a))); break;
    case Q_ERMQ: case Q_ERMQ_IDX: {
        int64_t e = 2 * int64_t(rank1[q.a]) - int64_t(q.a), best = e; u64 at = q.a;
        for (u64 i = q.a + 1; i <= q.b; ++i) { e += bits[i - 1] ? 1 : -1; if (e < best) { best = e; at = i; } }
        o.push_back(at); if (q.op == Q_ERMQ) o.push_back(u64(best)); break; }
    case Q_RMQ: {
        u64 at = q.a; bool greater = sp.var & 1;
        for (u64 i = q.a + 1; i <= q.b; ++i) if (greater ? vals[i] > vals[at] : vals[i] < vals[at]) at = i;
        o.push_back(at); break; }
    case Q_TOPK: case Q_TOPK_ENUM: {
        std::vector<u64> ix; for (u64 i = q.a; i <= q.b; ++i) ix.push_back(i);
        u64 k = std::min<u64>(q.c, ix.size());
        TopCmp c; c.v = &vals;
        std::partial_sort(ix.begin(), ix.begin() + (ptrdiff_t)k, ix.end(), c);
        for (u64 i = 0; i < k; ++i) { o.push_back(vals[ix[i]]); o.push_back(ix[i]); }
        break; }
    case Q_DELTA: o.push_back(vals[q.a] - (q.a ? vals[q.a - 1] : 0)); break;
    case Q_SELRANGE: o.push_back(vals[q.a]); o.push_back(vals[q.a + 1]); break;
    case Q_SUBRANK: o.push_back(rank1[q.a]); break;
    case Q_SUBLIST: o.push_back(list[q.a]); break;
    case Q_SUBNIB: o.push_back(nib[q.a]); break;
    case Q_SUBVEC: o.push_back(vec32[q.a]); break;
    default: harness_error("no answer for op %d", q.op);
    }
}

// The part of a query's work that its definition lets grow with the content: words between a position and
// the one asked for, elements of one Elias-Fano bucket, results of a top-k query.
static u64 low_bits(u64 n, u64 m) { return m && n / m ? u64(63 - __builtin_clzll(n / m)) : 0; }
u64 Model::walk(Query const& q, Ans const& want) const
{
    HarnessScope hs;
    if (sp.kind == K_EFL && q.op == Q_AT) return (want[0] >> low_bits(sum, vals.size())) / 64;      // the gap in the prefix sums
    if (q.op == Q_SUBLIST) { u64 t = 0; for (size_t i = 0; i < list.size(); ++i) t += list[i]; return (want[0] >> low_bits(t, list.size())) / 64; }
    u64 n = vals.size(), l = sp.kind == K_EF ? low_bits(universe, n) : 0;
    switch (q.op) {
    case Q_PRED0: case Q_SUCC0: case Q_PRED1: case Q_SUCC1:
        if (sp.kind != K_EF) return (want[0] > q.a ? want[0] - q.a : q.a - want[0]) / 64;
        // fall through
    case Q_AT: case Q_RANK: {
        if (sp.kind != K_EF) return 0;
        u64 p = q.a + (q.op == Q_PRED1), b = p >> l << l, e = b + (u64(1) << l);
        return u64((e < b ? vals.end() : std::lower_bound(vals.begin(), vals.end(), e)) - std::lower_bound(vals.begin(), vals.end(), b)); }
    case Q_DELTA: return (want[0] >> l) / 64;
    case Q_SELRANGE: return ((want[1] - want[0]) >> l) / 64;
    case Q_TOPK: case Q_TOPK_ENUM: return want.size() / 2;
    case Q_ITER: return n;
    default: return 0;
    }
}

// ------------------------------------------------------------------------------------------------
// cursors
// ------------------------------------------------------------------------------------------------
int cursor_kind(Model const& m, u64 which)
{
    switch (m.sp.kind) {
    case K_BV: case K_RS: case K_BP: case K_DA: case K_D64: return which % 2 ? CK_UNARY : CK_BITS;
    case K_EF: return CK_EF;
    case K_EFL: case K_EFCL: case K_GV: case K_GB: case K_MV8: case K_MV16: case K_MV32: case K_MV64: return CK_FWD;
    case K_TKE: case K_TKM: return CK_TOPK;
    default: return CK_NONE;
    }
}
bool MCursor::start(Model const& mod, u64 which, u64 a, u64 b)
{
    HarnessScope hs;
    m = &mod;
    kind = cursor_kind(mod, which);
    after_next = false; taken64 = false; has_val = false; order.clear();
    u64 nb = mod.bits.size(), nv = mod.vals.size();
    u64 m8 = a % 8, v = a / 8;
    switch (kind) {
    case CK_BITS:
        if (!nb) return false;
        a0 = m8 < 3 ? v % nb : m8 == 3 ? 0 : m8 == 4 ? nb - 1 - std::min(nb - 1, v % 70) : std::min(nb - 1, (v % nb) / 64 * 64 + (v >> 40) % 2);
        pos = a0; return true;
    case CK_UNARY:
        if (!nb) return false;
        a0 = m8 < 3 ? v % nb : m8 == 3 ? 0 : m8 == 4 ? nb - 1 - std::min(nb - 1, v % 70) : m8 == 5 && !mod.ones.empty() ? mod.ones[v % mod.ones.size()] : std::min(nb - 1, (v % nb) / 64 * 64 + (v >> 40) % 2);
        pos = a0; idx = mod.rank1[a0]; return true;
    case CK_EF: case CK_FWD:
        if (!nv) { a0 = 0; idx = 0; return mod.sp.kind == K_EF; }
        a0 = m8 < 4 ? v % nv : m8 == 4 ? 0 : m8 == 5 ? nv - 1 : std::min(nv - 1, (v % nv) / 64 * 64 + (v >> 40) % 2);
        idx = a0; return true;
    case CK_TOPK: {
        if (!nv) return false;
        a0 = v % nv; u64 l = b % 4 == 0 ? b / 4 % 4 : b % 4 == 1 ? b / 4 % 60 : b / 4 % 700;
        b0 = std::min(nv - 1, a0 + l);
        for (u64 i = a0; i <= b0; ++i) order.push_back(std::make_pair(mod.vals[i], i));
        struct C { bool operator()(std::pair<u64, u64> const& x, std::pair<u64, u64> const& y) const { return x.first > y.first || (x.first == y.first && x.second < y.second); } };
        std::sort(order.begin(), order.end(), C());
        idx = 0; return true; }
    default: return false;
    }
}

u64 MCursor::walked(u64 pos0, u64 idx0, Query const& q, Ans const& out) const
{
    switch (kind) {
    case CK_BITS: return (pos - pos0) / 64;
    case CK_UNARY: return ((q.op == CO_PEEK ? out[0] : pos) - pos0) / 64;
    case CK_EF: { u64 n = m->vals.size(), v = idx > 1 ? out[0] - m->vals[idx - 2] : out[0], l = low_bits(m->universe, n); return (v >> l) / 64; }
    case CK_FWD: return m->sp.kind == K_EFL && !out.empty() ? 2 + (out[0] >> low_bits(m->sum, m->vals.size())) / 64 : 2 * (idx - idx0);
    default: return 0;
    }
}
// A step that would leave the content is not made (returns false).
bool MCursor::step(u64 rop, u64 arg, Query& q, Ans& out)
{
    HarnessScope hs;
    q = Query(); out.clear();
    Model const& M = *m;
    u64 nb = M.bits.size(), nv = M.vals.size();
    switch (kind) {
    case CK_BITS: {
        static const int L[] = { CO_NEXT, CO_TAKE, CO_TAKE, CO_SKIPZ, CO_POS, CO_TAKE, CO_SKIPZ };
        q.op = L[rop % 7];
        if (q.op == CO_POS) { out.push_back(pos); return true; }
        if (q.op == CO_NEXT) { if (pos >= nb) return false; out.push_back(M.bits[pos]); ++pos; taken64 = false; return true; }
        if (q.op == CO_TAKE) {
            if (pos > nb) return false;
            u64 mx = std::min<u64>(64, nb - pos), l = arg % 5 == 0 ? mx : arg % 5 == 1 ? std::min<u64>(mx, 64) : (arg / 5) % (mx + 1);
            q.a = l;
            if (!l && pos >= nb) return false;
            out.push_back(word_at(M.bits, pos, l)); pos += l; taken64 = l == 64; return true;
        }
        size_t i = size_t(std::lower_bound(M.ones.begin(), M.ones.end(), pos) - M.ones.begin());
        if (i == M.ones.size()) return false;
        if (taken64) count(C_p_take64_then_scan);
        out.push_back(M.ones[i] - pos); pos = M.ones[i] + 1; taken64 = false; return true; }
    case CK_UNARY: {
        static const int L[] = { CO_NEXT, CO_NEXT, CO_SKIP, CO_PEEK, CO_SKIP0, CO_POS, CO_SKIP0, CO_SKIP };
        q.op = L[rop % 8];
        u64 k = arg % 4 == 0 ? 0 : arg % 4 == 1 ? arg / 4 % 5 : arg % 4 == 2 ? arg / 4 % 140 : arg / 4 % 900;
        q.a = k;
        u64 no = M.ones.size();
        switch (q.op) {
        case CO_POS: out.push_back(pos); return true;
        case CO_NEXT: if (idx >= no) return false; pos = M.ones[idx++]; after_next = true; out.push_back(pos); return true;
        case CO_SKIP: if (idx + k >= no) return false; idx += k; pos = M.ones[idx]; after_next = false; out.push_back(pos); return true;
        case CO_PEEK: if (idx + k >= no) return false; out.push_back(M.ones[idx + k]); return true;
        default: { // skip0: what it counts right after next() is not specified
            if (after_next) return false;
            u64 z = pos - M.rank1[pos]; // zeros before pos
            if (z + k >= M.zeros.size()) return false;
            pos = M.zeros[z + k]; idx = M.rank1[pos]; out.push_back(pos); return true; }
        } }
    case CK_EF: q.op = CO_NEXT; if (idx >= nv) return false; out.push_back(M.vals[idx++]); return true;
    case CK_FWD:
        q.op = (M.sp.kind == K_GB && rop % 5 == 4) ? CO_SKIP : CO_NEXT;
        if (q.op == CO_SKIP) { u64 d = arg / 8; q.a = arg % 8 < 4 ? d % 5 : arg % 8 < 6 ? d % 70 : d % 700; if (idx + q.a > nv) { if (arg % 3) return false; q.a = nv - idx; } idx += q.a; return true; }
        if (idx >= nv) return false;
        out.push_back(M.vals[idx++]); return true;
    case CK_TOPK: {
        u64 o = rop % 12;
        if (o == 11 && arg % 3 == 0) { // reuse the same enumerator for another range
            u64 which = 0, a = arg / 3, b = arg / 7;
            MCursor t; if (!t.start(M, which, a, b)) return false;
            *this = t; q.op = CO_RESEAT; q.a = a0; q.b = b0; return true;
        }
        if (o == 10 && arg % 5 == 0) { q.op = CO_CLEAR; order.clear(); idx = 0; has_val = false; return true; }
        if (o >= 8) { if (!has_val) return false; q.op = CO_VALUE; out.push_back(cur_val); out.push_back(cur_idx); return true; }
        q.op = CO_NEXT;
        if (idx < order.size()) { out.push_back(1); cur_val = order[idx].first; cur_idx = order[idx].second; ++idx; has_val = true; out.push_back(cur_val); out.push_back(cur_idx); }
        else out.push_back(0);
        return true; }
    default: return false;
    }
}

// ------------------------------------------------------------------------------------------------
// specs
// ------------------------------------------------------------------------------------------------
u64 pick_size(Rng& r, u64 cap)
{
    u64 n;
    switch (r.below(10)) {
    case 0: n = r.below(4); break;
    case 1: n = r.below(70); break;
    case 2: { static const u64 e[] = { 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025 }; n = e[r.below(15)]; break; }
    case 3: { static const u64 e[] = { 1535, 1536, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385 }; n = e[r.below(14)]; break; }
    case 4: n = 64 * r.below(40); break;
    case 5: n = 512 * r.below(20) + r.below(3); break;
    case 6: case 7: n = r.below(700); break;
    case 8: n = r.below(3000); break;
    default: n = r.below(12000); break;
    }
    if (n > cap) n = r.below(cap + 1);
    return n;
}
Spec pick_spec(Rng& r, u64 kind, u64 cap)
{
    Spec s;
    s.kind = kind; s.seed = r.next() >> 20; s.p = r.below(1 << 16);
    s.gen = r.below(156); s.n = pick_size(r, cap);
    switch (kind) {
    case K_RS: case K_BP: s.var = r.below(4); break;
    case K_CT: s.var = r.below(2); break;
    case K_EF: s.var = r.below(4); break;
    case K_DA: if (cap > 100000 && r.below(4) == 0) { s.gen = r.below(2) ? 8 : 11; s.n = 66000 + r.below(s.gen == 8 ? 90000 : 8000); } break;
    default: break;
    }
    if (cap > 1000000) { // a large one
        u64 top = kind <= K_DA || kind == K_BP || kind == K_NV ? 3000000 : kind == K_EF ? 500000 : 700000;
        s.n = 150000 + r.below(r.below(2) ? top - 150000 : 400000);
        if ((kind == K_GV || kind == K_GB || kind == K_EFCL || kind == K_TKE || kind == K_D64) && s.n > 300000) s.n /= 3;
        return s;
    }
    if (cap > 100000) {
        if ((kind == K_RS || kind == K_BV) && r.below(25) == 0) s.n = 20000 + r.below(60000);
        if (kind == K_BP && r.below(8) == 0) s.n = r.below(8) ? 16000 + r.below(90000) : 200000 + r.below(190000);
        if ((kind == K_CT || kind == K_TKE || kind == K_TKM) && r.below(12) == 0) s.n = r.below(10) ? 6000 + r.below(30000) : 100000 + r.below(90000);
        if (kind == K_EF && r.below(25) == 0) { s.var |= 2; s.gen = r.below(2) ? 5 : 8; s.n = 33100 + r.below(12000); if (r.below(2)) s.n = s.n / 32 * 32 + 1; }
        if (kind == K_EFL && r.below(25) == 0) { s.gen = 12; s.n = 36000 + r.below(10000); }
        if ((kind == K_GV || kind == K_GB || kind == K_D64) && r.below(15) == 0) s.n = 4000 + r.below(6000);
    }
    return s;
}

} // namespace sim
