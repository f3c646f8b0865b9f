// C01-C04: shared structures and cursors under concurrent readers, over histories of several epochs.
// C05: structures built in parallel. C19: readers without memory. C20: readers beside stalled ones.
#include "scen.hpp"

namespace sim {

// plan lines
//  sub e s cfg kind var gen n seed p route     subject s appears in epoch e
//  op  e t s op a b c rep                      thread t queries s
//  cur e t c s which a b                       thread t starts cursor c on s   (t = 99: before the threads, shared prototype)
//  cst e t c op arg rep                        thread t drives cursor c
//  ccp e t c d / cas e t c d / csx e t c d     copy c into a new d / assign c to d / swap c and d
//  arm e t k persistent                        the next operation of t meets a failing allocation
//  tmp e t cfg kind var gen n seed p route nq twice    t builds one of its own, queries and destroys it (and another, alike, where it was)
//  frz e t s sizes                             t freezes the shared s, or asks for its size and size tree
//  mp e t s align warm nq                      t maps the image of s, queries and destroys that
//  stall e t steps                             t stalls after that many steps of its own until the others are done
//  del e s                                     s is destroyed after epoch e

void gen_reader_lines(Rng& r, Plan& p, u64 e, u64 nt, std::vector<u64> const& ids, u64 fav, unsigned cursor_pct, unsigned alloc_pct, u64 nproto, u64 maxops)
{
    for (u64 t = 0; t < nt; ++t) {
        u64 k = 1 + r.below(maxops), nc = 0;
        std::vector<u64> cs;
        for (u64 i = 0; i < k; ++i) {
            u64 s = r.below(4) ? fav : ids[r.below(ids.size())];
            if (r.below(100) < alloc_pct) p.add("arm", { e, t, 1 + r.below(6), r.below(3) == 0 });
            if (r.below(100) < cursor_pct) {
                if (cs.empty() || r.below(3) == 0) {
                    if (nproto && r.below(3) == 0) p.add("ccp", { e, t, 1000 + r.below(nproto), nc });
                    else p.add("cur", { e, t, nc, s, r.below(2), r.next() >> 8, r.next() >> 8 });
                    cs.push_back(nc++);
                }
                u64 c = cs[r.below(cs.size())];
                if (r.below(5) == 0) { u64 x = r.below(4); if (x < 2) { p.add("ccp", { e, t, c, nc }); cs.push_back(nc++); } else p.add(x == 2 ? "cas" : "csx", { e, t, c, cs[r.below(cs.size())] }); }
                u64 reps = 1 + r.below(4);
                for (u64 j = 0; j < reps; ++j) p.add("cst", { e, t, cs[r.below(cs.size())], r.below(64), r.next() >> 8, 1 + r.below(r.below(4) ? 6 : 80) });
            } else p.add("op", { e, t, s, r.below(64), r.next() >> 8, r.next() >> 8, r.next() >> 8, 1 + r.below(r.below(3) ? 8 : 40) });
        }
    }
}

void gen_readers(Rng& r, Plan& p, u64 const* kinds, size_t nk, unsigned cursor_pct, unsigned alloc_pct, u64 cap, bool large)
{
    gen_world(r, p);
    u64 epochs = r.below(3) ? 1 : 2 + r.below(2), sid = 0;
    std::vector<std::pair<u64, u64> > live; // id, kind
    for (u64 e = 0; e < epochs; ++e) {
        u64 ns = 1 + (r.below(2) ? 0 : r.below(3));
        for (u64 i = 0; i < ns; ++i) {
            Spec s = pick_spec(r, kinds[r.below(nk)], large && i == 0 && e == 0 ? 2000000 : cap);
            u64 c = r.below(10); u64 cfg = c < 7 ? CFG_MAIN : c < 9 ? CFG_NOINTR : CFG_POPCNT;
            std::vector<u64> v; v.push_back(e); v.push_back(sid); v.push_back(cfg); put_spec(v, s); v.push_back(r.below(route_count(s.kind)));
            p.add("sub", v);
            live.push_back(std::make_pair(sid, s.kind));
            ++sid;
        }
        u64 nt = 2 + (r.below(3) ? 0 : r.below(3));
        gen_switches(r, p, e, nt);
        u64 nproto = cursor_pct ? r.below(2) : 0;
        for (u64 i = 0; i < nproto; ++i) p.add("cur", { e, 99, 1000 + i, live[r.below(live.size())].first, r.below(2), r.next() >> 8, r.next() >> 8 });
        // often all threads look at the same subject
        u64 fav = live[live.size() - 1 - r.below(std::min<u64>(live.size(), ns))].first;
        std::vector<u64> ids; for (size_t i = 0; i < live.size(); ++i) ids.push_back(live[i].first);
        gen_reader_lines(r, p, e, nt, ids, fav, cursor_pct, alloc_pct, nproto, 8);
        if (large && e == 0) for (u64 t = 0; t < nt; ++t) p.add("op", { e, t, 0, r.next() >> 8, r.next() >> 8, r.next() >> 8, r.next() >> 8, 40 + r.below(160) });
        if (r.below(4) == 0) { // own structures between the queries of the shared ones
            u64 k = 1 + r.below(3);
            for (u64 i = 0; i < k; ++i) {
                Spec s = pick_spec(r, kinds[r.below(nk)], 3000);
                std::vector<u64> v; v.push_back(e); v.push_back(r.below(nt)); v.push_back(r.below(8) ? CFG_MAIN : r.below(3)); put_spec(v, s); v.push_back(r.below(route_count(s.kind))); v.push_back(1 + r.below(24)); v.push_back(r.below(3) == 0);
                // somewhere among the lines of this epoch
                size_t b = p.lines.size(); while (b > 0 && p.lines[b - 1].at(0) == e && (p.lines[b - 1].verb == "op" || p.lines[b - 1].verb == "arm" || p.lines[b - 1].verb == "tmp")) --b;
                Line ln; ln.verb = "tmp"; ln.a = v;
                p.lines.insert(p.lines.begin() + (ptrdiff_t)(b + r.below(p.lines.size() - b + 1)), ln);
            }
        }
        for (size_t i = 0; i < live.size();) { if (r.below(3) == 0 && live.size() > 1) { p.add("del", { e, live[i].first }); live.erase(live.begin() + (ptrdiff_t)i); } else ++i; }
    }
}


static void cursor_compare(CurPair& c, Query const& q, Ans const& want, Ans const& got)
{
    static const char* const names[] = { "next", "take", "skip_zeros", "position", "skip", "skip_no_move", "skip0", "value", "restart", "clear" };
    static const char* const ck[] = { "?", "bit enumerator", "unary enumerator", "select enumerator", "forward enumerator", "top-k enumerator" };
    count(C_compared);
    u64 h = 0; for (size_t i = 0; i < got.size(); ++i) h = mix64(h ^ got[i]);
    event(0xC0000 | u64(q.op) << 8 | c.s->m.sp.kind, q.a, h);
    if (want == got) return;
    std::string cls = std::string("wrong-cursor:") + kind_names[c.s->m.sp.kind] + "." + names[q.op];
    violation(cls.c_str(), "%s over %s (%llu elements), started at %llu: %s(%llu) gave %s, the content defines %s", ck[c.m.kind], kind_names[c.s->m.sp.kind],
              (unsigned long long)c.s->m.length(), (unsigned long long)c.m.a0, names[q.op], (unsigned long long)q.a, ans_text(got).c_str(), ans_text(want).c_str());
}

void reader_thread(Plan const& p, u64 e, u64 t, std::map<u64, Sub*>& subs, std::map<u64, CurPair>& protos)
{
    std::map<u64, CurPair> cur;
    bool armed = false, nomem = p.cfg("nomem", 0) & 1;
    if (nomem) arm_alloc(1, true);
    auto drop = [&](u64 id) { if (cur[id].l) { LIBV(delete cur[id].l); } cur.erase(id); };
    for (size_t i = 0; i < p.lines.size(); ++i) {
        Line const& l = p.lines[i];
        if (l.a.size() < 2 || l.at(0) != e || l.at(1) != t) continue;
        if (l.verb == "arm") { if (nomem) continue; arm_alloc(std::max<u64>(1, l.at(2)), l.at(3)); armed = true; continue; }
        if (l.verb == "sub" || l.verb == "del" || l.verb == "sw" || l.verb == "hsw" || l.verb == "first" || l.verb == "stall" || l.verb == "sig") continue;
        u64 victim = ~u64(0);
        try {
            if (l.verb == "op") {
                if (!subs.count(l.at(2))) continue;
                Sub* s = subs[l.at(2)];
                u64 rep = std::min<u64>(l.at(7), 2000);
                for (u64 k = 0; k < rep; ++k, yield_point()) {
                    u64 op = l.at(3) + (rep > 12 ? k / 4 : 0);
                    g_last[t % 8].sub = l.at(2); g_last[t % 8].op = op;
                    check_query(s->o, s->m, op, l.at(4) + mix64(k) % 1000003 * (k ? 1 : 0), l.at(5) + k * 7, l.at(6) + k, "concurrent reader");
                }
            } else if (l.verb == "tmp") {
                Spec sp = spec_of(l, 3); sp.n = std::min<u64>(sp.n, 8000);
                for (u64 k = 0; k < 1 + l.at(11) % 2; ++k) {
                    Model m; sp.seed += k; sp.gen += k; m.make(sp);
                    ObjPtr o(factory(l.at(2) % 3)->build(m, l.at(9), 0));
                    check_some(o.p, m, l.at(7) + k, std::min<u64>(l.at(10), 200), "own structure of a reader");
                    count(C_p_alt_build);
                }
            } else if (l.verb == "frz") {
                if (!subs.count(l.at(2))) continue;
                Sub* s = subs[l.at(2)];
                if (l.at(3) & 1) {
                    std::vector<TreeNode> tn; std::string d;
                    u64 s0 = own_steps();
                    u64 z = s->o->size_of(); s->o->size_tree(tn, d);
                    if (g_bound_steps) bounded(own_steps() - s0, 20000, s->m, "sizing", "beside readers");
                    if (z + 8 != s->image.size()) violation("size-of", "size_of gave %llu for %s beside readers, its image has %zu bytes", (unsigned long long)z, kind_names[s->m.sp.kind], s->image.size());
                    if (tn.empty() || tn[0].size != z) violation("size-tree", "size tree root differs from size_of");
                } else {
                    char name[64]; snprintf(name, sizeof name, "/simdisk/z%llu.img", (unsigned long long)t);
                    u64 z = s->o->freeze(name, 0);
                    std::string im = read_disk(name + 9);
                    count(C_compared);
                    if (z != im.size() || im != s->image) violation("freeze-differs", "freezing %s beside readers reported %llu bytes and wrote %zu; alone it froze to %zu bytes%s", kind_names[s->m.sp.kind], (unsigned long long)z, im.size(), s->image.size(), im == s->image ? "" : ", other ones");
                }
                check_some(s->o, s->m, l.at(3) + i, 3, "after freezing beside readers");
                count(C_p_shared_freeze);
            } else if (l.verb == "mp") {
                if (!subs.count(l.at(2))) continue;
                Sub* s = subs[l.at(2)];
                ReadOnlyImage im(s->image.data(), s->image.size(), l.at(3) % 3);
                ObjPtr o(factory(s->cfg)->empty(s->m.sp.kind));
                u64 s0 = own_steps();
                u64 rd = o->map(im.base, l.at(4) & 1);
                if (g_bound_steps && !(l.at(4) & 1)) bounded(own_steps() - s0, 3000, s->m, "mapping", "a reader");
                if (g_bound_steps) {
                    ObjPtr o2(factory(s->cfg)->empty(s->m.sp.kind));
                    s0 = own_steps();
                    o2->swap(*o.p); o->swap(*o2.p);
                    bounded(own_steps() - s0, 8000, s->m, "swapping", "a reader");
                }
                if (rd != s->image.size()) violation("map-count", "mapping %s read %llu bytes of an image of %zu", kind_names[s->m.sp.kind], (unsigned long long)rd, s->image.size());
                check_some(o.p, s->m, l.at(3) + i, std::min<u64>(l.at(5), 100), "mapped by a reader");
                count(C_p_mapped_query);
            } else if (l.verb == "cur") {
                if (!subs.count(l.at(3)) || cur.count(l.at(2))) continue;
                Sub* s = subs[l.at(3)];
                CurPair c; c.s = s;
                if (!c.m.start(s->m, l.at(4), l.at(5), l.at(6))) continue;
                u64 s0 = own_steps();
                c.l = s->o->cursor(c.m.kind, c.m.a0, c.m.b0);
                if (g_bound_steps) bounded(own_steps() - s0, 16000, s->m, "starting a cursor", "concurrent reader");
                cur[l.at(2)] = c;
            } else if (l.verb == "cst") {
                if (!cur.count(l.at(2))) continue;
                victim = l.at(2);
                CurPair& c = cur[victim];
                u64 rep = std::min<u64>(l.at(5), 4000);
                for (u64 k = 0; k < rep; ++k, yield_point()) {
                    Query q; Ans want, got;
                    u64 p0 = c.m.pos, i0 = c.m.idx;
                    if (!c.m.step(l.at(3) + (rep > 4 ? mix64(k ^ l.at(4)) % 16 : 0), l.at(4) + k * 13, q, want)) continue;
                    u64 s0 = own_steps();
                    c.l->op(q, got);
                    u64 d = own_steps() - s0;
                    cursor_compare(c, q, want, got);
                    if (g_bound_steps) bounded(d, cursor_bound(c.s->m, c.m.walked(p0, i0, q, want)), c.s->m, "cursor", "concurrent reader");
                }
                victim = ~u64(0);
            } else if (l.verb == "ccp") {
                std::map<u64, CurPair>& from = l.at(2) >= 1000 ? protos : cur;
                if (!from.count(l.at(2)) || cur.count(l.at(3))) continue;
                CurPair c = from[l.at(2)];
                c.l = c.l->clone(); count(C_p_cursor_copy);
                cur[l.at(3)] = c;
            } else if (l.verb == "cas" || l.verb == "csx") {
                if (!cur.count(l.at(2)) || !cur.count(l.at(3)) || l.at(2) == l.at(3)) continue;
                CurPair &a = cur[l.at(2)], &b = cur[l.at(3)];
                if (a.m.kind != b.m.kind || a.s->m.sp.kind != b.s->m.sp.kind || a.s->cfg != b.s->cfg) continue;
                victim = l.at(3);
                if (l.verb == "cas") { b.l->assign(*a.l); b.m = a.m; b.s = a.s; }
                else { b.l->swap(*a.l); std::swap(a.m, b.m); std::swap(a.s, b.s); }
                victim = ~u64(0);
            }
            else nest_line(l, subs);
        } catch (std::bad_alloc&) {
            bool fired = disarm_alloc();
            if (nomem && fired) violation("needs-memory", "%s asked for memory and failed for lack of it", l.verb == "op" ? "a query" : l.verb == "mp" ? "mapping or querying a mapped structure" : "a cursor");
            if (!fired) violation("unexpected-exception:bad_alloc", "a reader got bad_alloc although none of its allocations failed");
            event(0xBADA);
            if (victim != ~u64(0)) drop(victim);
        } catch (std::exception& x) {
            violation("unexpected-exception", "a reader got an exception: %s", x.what());
        }
        if (armed) { disarm_alloc(); armed = false; }
    }
    while (!cur.empty()) drop(cur.begin()->first);
    if (nomem && disarm_alloc()) violation("needs-memory", "a query asked for memory and did without");
}

void run_reader_phase(Plan const& p, u64 e, std::map<u64, Sub*>& subs)
{
    std::map<u64, CurPair> protos;
    for (size_t i = 0; i < p.lines.size(); ++i) {
        Line const& l = p.lines[i];
        if (l.verb != "cur" || l.at(0) != e || l.at(1) != 99 || !subs.count(l.at(3)) || protos.count(l.at(2))) continue;
        CurPair c; c.s = subs[l.at(3)];
        if (!c.m.start(c.s->m, l.at(4), l.at(5), l.at(6))) continue;
        guarded("starting a cursor", [&] { c.l = c.s->o->cursor(c.m.kind, c.m.a0, c.m.b0); });
        protos[l.at(2)] = c;
    }
    u64 nt = 1;
    for (size_t i = 0; i < p.lines.size(); ++i) { Line const& l = p.lines[i]; if (l.at(0) == e && (l.verb == "op" || l.verb == "cur" || l.verb == "cst" || l.verb == "ccp" || l.verb == "tmp" || l.verb == "frz" || l.verb == "mp" || l.verb == "nst" || l.verb == "nsf" || l.verb == "ngl") && l.at(1) < 8) nt = std::max(nt, l.at(1) + 1); }
    std::vector<std::function<void()> > bodies;
    for (u64 t = 0; t < nt; ++t) bodies.push_back([&, t] { reader_thread(p, e, t, subs, protos); });
    std::vector<Switch> s, h; u64 first;
    get_switches(p, e, s, h, first);
    std::vector<u64> st(nt, 0);
    for (size_t i = 0; i < p.lines.size(); ++i) { Line const& l = p.lines[i]; if (l.verb == "stall" && l.at(0) == e && l.at(1) < nt) st[l.at(1)] = l.at(2); }
    stall_plan(st);
    plan_signals(p, e, nt, subs);
    small_stacks(p.cfg("smallstack", 0) & 1);
    run_threads(bodies, s, h, first);
    while (!protos.empty()) { LIBV(delete protos.begin()->second.l); protos.erase(protos.begin()); }
}

void need_images(Plan const& p, u64 e, std::map<u64, Sub*>& subs)
{
    bool nest = false;
    for (size_t i = 0; i < p.lines.size(); ++i) nest |= p.lines[i].at(0) == e && (p.lines[i].verb == "nst" || p.lines[i].verb == "nsf" || p.lines[i].verb == "ngl");
    if (nest) for (std::map<u64, Sub*>::iterator i = subs.begin(); i != subs.end(); ++i) if (i->second->image.empty()) guarded("freezing alone", [&] { i->second->image = freeze_to_string(i->second->o, 0); });
    for (size_t i = 0; i < p.lines.size(); ++i) {
        Line const& l = p.lines[i];
        if ((l.verb != "frz" && l.verb != "mp") || l.at(0) != e || !subs.count(l.at(2))) continue;
        Sub* s = subs[l.at(2)];
        if (s->image.empty()) guarded("freezing alone", [&] { s->image = freeze_to_string(s->o, 0); });
    }
}

void run_readers(Plan const& p)
{
    g_bound_steps = p.cfg("bound", 0) & 1;
    if (run_huge(p)) return;
    apply_world(p, 0);
    u64 epochs = 0;
    for (size_t i = 0; i < p.lines.size(); ++i) if (p.lines[i].verb[0] != 'c' || p.lines[i].verb[1] != 'f') epochs = std::max(epochs, p.lines[i].at(0) + 1);
    if (epochs > 16) epochs = 16;
    std::map<u64, Sub*> subs;
    for (u64 e = 0; e < epochs; ++e) {
        for (size_t i = 0; i < p.lines.size(); ++i) {
            Line const& l = p.lines[i];
            if (l.verb != "sub" || l.at(0) != e || subs.count(l.at(1))) continue;
            Sub* s = new Sub;
            Spec sp = spec_of(l, 3);
            if (sp.n > 150000) more_time();       // Elias-Fano rank walks over equal values, for one
            s->m.make(sp);
            s->cfg = l.at(2) % 3;
            where("building subject %llu (%s)", (unsigned long long)l.at(1), kind_names[s->m.sp.kind]);
            guarded("building", [&] { s->o = factory(s->cfg)->build(s->m, l.at(9), 0); });
            subs[l.at(1)] = s;
        }
        where("epoch %llu", (unsigned long long)e);
        for (std::map<u64, Sub*>::iterator i = subs.begin(); i != subs.end(); ++i) guarded("querying before the readers", [&] { check_some(i->second->o, i->second->m, p.cfg("junk", 0) + e * 7 + i->first, i->second->m.length() > 20000 ? 24 : 4, "before the readers"); });
        need_images(p, e, subs);
        run_reader_phase(p, e, subs);
        for (size_t i = 0; i < p.lines.size(); ++i) {
            Line const& l = p.lines[i];
            if (l.verb != "del" || l.at(0) != e || !subs.count(l.at(1))) continue;
            Sub* x = subs[l.at(1)]; x->o->destroy(); delete x; subs.erase(l.at(1));
        }
    }
    // what the readers saw is still there
    for (std::map<u64, Sub*>::iterator i = subs.begin(); i != subs.end(); ++i) {
        guarded("querying afterwards", [&] { check_some(i->second->o, i->second->m, p.cfg("junk", 0) + i->first, i->second->m.length() > 20000 ? 60 : 12, "after the readers"); });
        i->second->o->destroy(); delete i->second;
    }
    heap_check("at the end");
    count(C_p_self_check);
}

// somewhere among the reader lines of epoch e
void insert_line(Rng& r, Plan& p, u64 e, const char* verb, std::vector<u64> const& v)
{
    static const char* const rd[] = { "op", "arm", "tmp", "frz", "mp", "cur", "cst", "ccp", "cas", "csx", "nst", "nsf", "ngl" };
    size_t a = p.lines.size(), b = 0;
    for (size_t i = 0; i < p.lines.size(); ++i) {
        Line const& l = p.lines[i];
        bool is = false; for (size_t k = 0; k < sizeof rd / sizeof *rd; ++k) is |= l.verb == rd[k];
        if (is && l.at(0) == e && l.at(1) != 99) { a = std::min(a, i); b = std::max(b, i + 1); }
    }
    Line ln; ln.verb = verb; ln.a = v;
    if (a >= b) { p.lines.push_back(ln); return; }
    p.lines.insert(p.lines.begin() + (ptrdiff_t)(a + r.below(b - a + 1)), ln);
}
u64 n_threads(Plan const& p, u64 e)
{
    u64 nt = 1;
    for (size_t i = 0; i < p.lines.size(); ++i) { Line const& l = p.lines[i]; if (l.at(0) == e && (l.verb == "op" || l.verb == "cur" || l.verb == "cst" || l.verb == "ccp" || l.verb == "tmp" || l.verb == "frz" || l.verb == "mp" || l.verb == "nst" || l.verb == "nsf" || l.verb == "ngl") && l.at(1) < 8) nt = std::max(nt, l.at(1) + 1); }
    return nt;
}
// freezing, sizing and mapping between the queries
void gen_shared_use(Rng& r, Plan& p, u64 e, unsigned frz, unsigned mp)
{
    u64 nt = n_threads(p, e);
    std::vector<std::pair<u64, u64> > ids; // id, dead since
    for (size_t i = 0; i < p.lines.size(); ++i) { Line const& l = p.lines[i]; if (l.verb == "sub" && l.at(0) <= e) ids.push_back(std::make_pair(l.at(1), ~u64(0))); }
    if (ids.empty()) return;
    for (unsigned i = 0; i < frz; ++i) insert_line(r, p, e, "frz", { e, r.below(nt), ids[ids.size() - 1 - r.below(std::min<u64>(3, ids.size()))].first, r.next() >> 30 });
    for (unsigned i = 0; i < mp; ++i) insert_line(r, p, e, "mp", { e, r.below(nt), ids[ids.size() - 1 - r.below(std::min<u64>(3, ids.size()))].first, r.below(3), r.below(2), 1 + r.below(20) });
}

static const u64 K1[] = { K_RS, K_RS, K_RS, K_BV, K_BV, K_DA, K_DA, K_D64 };
static const u64 K2[] = { K_BP, K_BP, K_BP, K_CT, K_CT, K_TKE, K_TKM };
static const u64 K3[] = { K_EF, K_EF, K_EF, K_EFL, K_EFCL, K_GV, K_GB, K_NV };
static const u64 K4[] = { K_BV, K_RS, K_DA, K_D64, K_BP, K_EF, K_EF, K_EFL, K_EFCL, K_GV, K_GV, K_GB, K_GB, K_TKE, K_TKM, K_MV32, K_MV8 };

static const u64 HUGE_EVERY = 4096;
static bool spread(u64 idx, u64 every) { return (idx + idx / 8) % every == 5; }   // one in so many, over all workers
// structures of 2^24 to 2^28 bits; of: C01, C02, C03, C04 or all (4)
static bool gen_long(Rng& r, Plan& p, u64 idx, u64 every, unsigned of)
{
    if (!spread(idx + 3, every)) return false;
    static const u64 w[][8] = { { 0, 1, 1, 1, 2, 2, 13, 0 }, { 3, 3, 3, 3, 3, 3, 11, 11 }, { 5, 5, 9, 12, 6, 7, 8, 8 }, { 0, 1, 5, 6, 7, 8, 9, 5 }, { 3, 1, 2, 3, 5, 11, 7, 9 } };
    u64 k = w[of][r.below(8)];
    if (k == 7 && r.below(3)) k = r.below(2) ? 6 : 8;
    if (of == 4 && k == 9 && r.below(3)) k = r.below(2) ? 12 : 13;
    gen_huge(r, p, k, 24 + r.below(k < 4 ? 5 : k == 11 || k == 12 ? 2 : 3));
    return true;
}
static void gen01(Rng& r, Plan& p, u64 idx) { if (idx % HUGE_EVERY / 8 == 3 && idx % 8 < 3) { gen_huge(r, p, idx % 8); return; } if (idx % 16384 == 28) { gen_huge(r, p, 13); return; } if (gen_long(r, p, idx, 40, 0)) return; gen_readers(r, p, K1, sizeof K1 / sizeof *K1, 0, 0, 150000, spread(idx, 16)); }
static void gen02(Rng& r, Plan& p, u64 idx) { if (idx % HUGE_EVERY == 24 || (idx % 16384 > 24 && idx % 16384 < 28)) { gen_huge(r, p, idx % 4 == 3 ? 11 : 3); return; } if (gen_long(r, p, idx, 30, 1)) return; gen_readers(r, p, K2, sizeof K2 / sizeof *K2, 0, r.below(3) == 0 ? 25 : 0, 150000, spread(idx, 16)); }
static void gen03(Rng& r, Plan& p, u64 idx) { if (idx % HUGE_EVERY >= 24 && idx % HUGE_EVERY < 29) { gen_huge(r, p, 5 + idx % 8); return; } if (idx % 16384 == 30) { gen_huge(r, p, 12); return; } if (gen_long(r, p, idx, 40, 2)) return; gen_readers(r, p, K3, sizeof K3 / sizeof *K3, 0, 0, 150000, spread(idx, 16)); }
static void gen04(Rng& r, Plan& p, u64 idx) { if (idx % HUGE_EVERY == 27 || idx % HUGE_EVERY == 28) { gen_huge(r, p, idx % 8 == 3 ? 0 : 5 + r.below(5)); return; } if (gen_long(r, p, idx, 60, 3)) return; gen_readers(r, p, K4, sizeof K4 / sizeof *K4, 70, 0, 20000, spread(idx, 32)); }
static const u64 K19[] = { K_MV8, K_MV16, K_MV32, K_MV64, K_BV, K_RS, K_RS, K_DA, K_DA, K_D64, K_BP, K_BP, K_CT, K_CT, K_EF, K_EF, K_EFL, K_EFCL, K_GV, K_GB, K_NV, K_COMP };
static void gen19(Rng& r, Plan& p, u64 idx)
{
    p.set("nomem", 1);
    bool large = spread(idx, 32);
    p.set("smallstack", large || r.below(2));
    gen_readers(r, p, K19, sizeof K19 / sizeof *K19, r.below(2) ? 30 : 0, 0, r.below(3) ? 20000 : 150000, large);
    for (size_t i = 0; i < p.lines.size();) { if (p.lines[i].verb == "tmp") p.lines.erase(p.lines.begin() + (ptrdiff_t)i); else ++i; }
    for (u64 e = 0; e < 4; ++e) if (r.below(2)) { bool any = false; for (size_t i = 0; i < p.lines.size(); ++i) any |= p.lines[i].verb == "first" && p.lines[i].at(0) == e; if (any) gen_shared_use(r, p, e, 0, 1 + unsigned(r.below(3))); }
}
static const u64 K20[] = { K_BV, K_RS, K_RS, K_DA, K_D64, K_BP, K_BP, K_CT, K_TKE, K_TKM, K_EF, K_EF, K_EFL, K_EFCL, K_GV, K_GB, K_NV, K_MV32, K_COMP };
static void gen20(Rng& r, Plan& p, u64)
{
    gen_readers(r, p, K20, sizeof K20 / sizeof *K20, r.below(2) ? 30 : 0, 0, 12000);
    u64 epochs = 0;
    for (size_t i = 0; i < p.lines.size(); ++i) if (p.lines[i].verb == "first") epochs = std::max(epochs, p.lines[i].at(0) + 1);
    for (u64 e = 0; e < epochs; ++e) {
        if (r.below(3) == 0) gen_shared_use(r, p, e, unsigned(r.below(3)), unsigned(r.below(2)));
        u64 nt = n_threads(p, e);
        if (nt < 2) continue;
        u64 ns = 1 + r.below(nt - 1), t0 = r.below(nt);
        for (u64 i = 0; i < ns; ++i) { u64 b = 1 + r.below(16); p.add("stall", { e, (t0 + i) % nt, 1 + r.below(u64(1) << b) }); }
    }
}
static void gen21(Rng& r, Plan& p, u64 idx)
{
    p.set("bound", 1);
    if (gen_long(r, p, idx, 14, 4)) return;
    bool large = spread(idx, 12);
    gen_readers(r, p, K20, sizeof K20 / sizeof *K20, r.below(2) ? 30 : 0, 0, r.below(3) ? 20000 : 150000, large);
    for (size_t i = 0; i < p.lines.size(); ++i) { Line& l = p.lines[i]; if (l.verb == "sub" && l.a.size() > 2 && l.a[2] == CFG_POPCNT) l.a[2] = CFG_MAIN; }     // that one is not instrumented
    u64 epochs = 0;
    for (size_t i = 0; i < p.lines.size(); ++i) if (p.lines[i].verb == "first") epochs = std::max(epochs, p.lines[i].at(0) + 1);
    for (u64 e = 0; e < epochs; ++e) {
        gen_shared_use(r, p, e, unsigned(r.below(3)), 1 + unsigned(r.below(2)));
        u64 nt = n_threads(p, e);
        if (nt < 2 || large || r.below(2)) continue;
        u64 ns = 1 + r.below(nt - 1), t0 = r.below(nt);
        for (u64 i = 0; i < ns; ++i) { u64 b = 1 + r.below(16); p.add("stall", { e, (t0 + i) % nt, 1 + r.below(u64(1) << b) }); }
    }
}
const Scenario sc_c21 = { "C21", gen21, run_readers };
const Scenario sc_c19 = { "C19", gen19, run_readers };
const Scenario sc_c20 = { "C20", gen20, run_readers };
const Scenario sc_c01 = { "C01", gen01, run_readers };
const Scenario sc_c02 = { "C02", gen02, run_readers };
const Scenario sc_c03 = { "C03", gen03, run_readers };
const Scenario sc_c04 = { "C04", gen04, run_readers };

// ---- C05 ------------------------------------------------------------------------------------------------
//  tb t id cfg kind var gen n seed p route flags nq
enum { B_FREEZE = 1, B_MAP = 2, B_KEEP = 4, B_SWAP = 8, B_SIZE = 16, B_REFREEZE = 32, B_CURSOR = 64 };

static void gen05(Rng& r, Plan& p, u64)
{
    gen_world(r, p);
    u64 nt = 2 + (r.below(3) ? 0 : r.below(3));
    gen_switches(r, p, 0, nt);
    u64 id = 0;
    u64 fav = r.below(N_KINDS);
    for (u64 t = 0; t < nt; ++t) {
        u64 k = 1 + r.below(3);
        for (u64 i = 0; i < k; ++i) {
            Spec s = pick_spec(r, r.below(2) ? fav : r.below(N_KINDS), r.below(6) ? 3000 : 150000);
            if (s.n > 3000 && r.below(3)) s.n = pick_size(r, 3000);
            u64 c = r.below(10); u64 cfg = c < 8 ? CFG_MAIN : c < 9 ? CFG_NOINTR : CFG_POPCNT;
            std::vector<u64> v; v.push_back(0); v.push_back(t); v.push_back(id++); v.push_back(cfg); put_spec(v, s);
            v.push_back(r.below(route_count(s.kind))); v.push_back(r.below(128)); v.push_back(r.below(20));
            p.add("tb", v);
        }
    }
}

static void run_one_build(Line const& l, Model const& m, bool solo, std::string& image, std::vector<std::pair<Obj*, Model const*> >* keep)
{
    u64 flags = l.at(11), nq = std::min<u64>(l.at(12), 200), cfg = l.at(3) % 3, qs = l.at(8) + l.at(2);
    Obj* o = factory(cfg)->build(m, l.at(10), 0);
    if (!solo) check_some(o, m, qs, nq, "built in parallel");
    if (flags & B_SIZE) { std::vector<TreeNode> tn; std::string d; u64 s = o->size_of(); o->size_tree(tn, d); if (tn.empty() || tn[0].size != s) violation("size-tree", "size tree root differs from size_of"); }
    char name[64]; snprintf(name, sizeof name, "/simdisk/t%llu.img", (unsigned long long)l.at(2));
    if (flags & (B_FREEZE | B_MAP)) {
        u64 w = o->freeze(name, 0);
        image = read_disk(name + 9);
        if (w != image.size()) violation("freeze-count", "freeze reported %llu bytes, the file has %zu", (unsigned long long)w, image.size());
    }
    if ((flags & B_MAP) && !solo) {
        ReadOnlyImage img(image.data(), image.size(), l.at(8) % 3);
        Obj* q = factory(cfg)->empty(m.sp.kind);
        u64 rd = q->map(img.base, l.at(8) & 1);
        if (rd != image.size()) violation("map-count", "map reported %llu bytes of %zu", (unsigned long long)rd, image.size());
        check_some(q, m, qs + 1, nq, "mapped in parallel");
        if (flags & B_SWAP) { q->swap(*o); check_some(q, m, qs + 2, nq / 2, "after swap in parallel"); check_some(o, m, qs + 3, nq / 2, "after swap in parallel"); q->swap(*o); }
        if (flags & B_REFREEZE) { u64 w = q->freeze(name, 0); std::string again = read_disk(name + 9); if (w != again.size() || again != image) violation("refreeze", "a mapped structure froze to other bytes"); }
        q->destroy();
    }
    if ((flags & B_CURSOR) && !solo && cursor_kind(m, 0) != CK_NONE) {
        MCursor mc;
        if (mc.start(m, l.at(8) % 2, l.at(8), l.at(2))) {
            LibCursor* c = o->cursor(mc.kind, mc.a0, mc.b0);
            Rng r(qs);
            for (int i = 0; i < 30; ++i) { Query q; Ans w, g; u64 op = r.next() % 64, ar = r.next() >> 8; if (!mc.step(op, ar, q, w)) continue; c->op(q, g); count(C_compared); if (w != g) violation("wrong-cursor", "cursor over %s gave %s, expected %s", kind_names[m.sp.kind], ans_text(g).c_str(), ans_text(w).c_str()); }
            LIBV(delete c);
        }
    }
    if (!solo) check_some(o, m, qs + 4, nq / 2, "built in parallel");
    if ((flags & B_KEEP) && keep) keep->push_back(std::make_pair(o, &m));
    else o->destroy();
}

static void run05(Plan const& p)
{
    std::map<u64, Model> models;
    std::map<u64, std::string> images;
    std::vector<Line const*> tb;
    u64 nt = 0;
    for (size_t i = 0; i < p.lines.size(); ++i) {
        Line const& l = p.lines[i];
        if (l.verb != "tb" || models.count(l.at(2)) || l.at(1) > 7 || tb.size() >= 30) continue;
        models[l.at(2)].make(spec_of(l, 4)); images[l.at(2)];
        tb.push_back(&l);
        nt = std::max(nt, l.at(1) + 1);
    }
    if (!nt) return;
    durable_init(tb.size(), 8 << 20);
    // alone, in a process life of its own
    run_life([&] {
        apply_world(p, 0);
        for (size_t i = 0; i < tb.size(); ++i) { std::string img; guarded("building alone", [&] { run_one_build(*tb[i], models[tb[i]->at(2)], true, img, 0); }); durable_put(i, img.data(), img.size()); }
    });
    apply_world(p, 0);
    std::vector<std::vector<std::pair<Obj*, Model const*> > > keep(nt);
    std::vector<std::function<void()> > bodies;
    for (u64 t = 0; t < nt; ++t) bodies.push_back([&, t] {
        for (size_t i = 0; i < tb.size(); ++i) if (tb[i]->at(1) == t)
            guarded("working in parallel", [&] { run_one_build(*tb[i], models[tb[i]->at(2)], false, images[tb[i]->at(2)], &keep[t]); });
    });
    std::vector<Switch> s, h; u64 first;
    get_switches(p, 0, s, h, first);
    run_threads(bodies, s, h, first);
    for (size_t i = 0; i < tb.size(); ++i) {
        Durable d = durable_get(i);
        std::string const& im = images[tb[i]->at(2)];
        count(C_compared);
        if (d.len != im.size() || memcmp(d.data, im.data(), im.size()))
            violation("image-differs", "%s built in parallel froze to other bytes than alone (%zu and %llu bytes)", kind_names[models[tb[i]->at(2)].sp.kind], im.size(), (unsigned long long)d.len);
    }
    for (u64 t = 0; t < nt; ++t) for (size_t i = 0; i < keep[t].size(); ++i) {
        guarded("afterwards", [&] { check_some(keep[t][i].first, *keep[t][i].second, i + 77, 15, "after the parallel phase"); });
        keep[t][i].first->destroy();
    }
    heap_check("at the end");
}
const Scenario sc_c05 = { "C05", gen05, run05 };

} // namespace sim
