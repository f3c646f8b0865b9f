// C06-C10: images - freezing, crashing, restarting, mapping, sizes, exchange between builds.
#include "scen.hpp"
#include <errno.h>
#include <boost/iostreams/device/mapped_file.hpp>

namespace sim {

typedef boost::iostreams::mapped_file_source MFile;

// common plan lines
//  sub e s cfg kind var gen n seed p route     structure s (in stream order)
//  w k kind arg                                the k-th write call: 1 short, 2 EINTR, 3 EIO
//  map s how align warm                        how structure s is mapped in the next life
//  post s what arg other                       what is done with it afterwards

static Spec small_spec(Rng& r, u64 kind)
{
    Spec s = pick_spec(r, kind, r.below(30) == 0 ? 150000 : r.below(3) ? 1500 : 12000);
    return s;
}
static void add_sub(Plan& p, u64 e, u64 id, u64 cfg, Spec const& s, u64 route)
{
    std::vector<u64> v; v.push_back(e); v.push_back(id); v.push_back(cfg); put_spec(v, s); v.push_back(route);
    p.add("sub", v);
}
static u64 pick_cfg(Rng& r) { u64 c = r.below(10); return c < 8 ? CFG_MAIN : c < 9 ? CFG_NOINTR : CFG_POPCNT; }

static std::vector<Line const*> lines_of(Plan const& p, const char* verb, size_t max = 64)
{
    std::vector<Line const*> v;
    for (size_t i = 0; i < p.lines.size() && v.size() < max; ++i) if (p.lines[i].verb == verb) v.push_back(&p.lines[i]);
    return v;
}
static void put_writes(Plan const& p, DiskPlan& d, bool errors)
{
    std::vector<Line const*> w = lines_of(p, "w");
    for (size_t i = 0; i < w.size(); ++i) {
        u64 k = w[i]->at(0) % 40, kind = w[i]->at(1) % 4;
        if (!errors && kind == 3) kind = 1;
        if (d.writes.size() <= k) d.writes.resize(k + 1, std::make_pair(u64(0), u64(0)));
        d.writes[k] = std::make_pair(kind, w[i]->at(2));
    }
}
static void gen_writes(Rng& r, Plan& p, bool errors)
{
    if (r.below(3) == 0) return;
    u64 n = 1 + r.below(6);
    for (u64 i = 0; i < n; ++i) p.add("w", { r.below(10), errors && r.below(4) == 0 ? 3 : 1 + r.below(2), 1 + r.below(r.below(2) ? 16 : 9000) });
}
static const char* kn(Sub const* s) { return kind_names[s->m.sp.kind]; }

struct World { // structures of one life
    std::map<u64, Sub*> subs; std::vector<u64> order;
    ~World() { clear(); }
    void clear() { for (std::map<u64, Sub*>::iterator i = subs.begin(); i != subs.end(); ++i) { if (i->second->o) i->second->o->destroy(); delete i->second; } subs.clear(); order.clear(); }
};
static void load_models(Plan const& p, World& w, size_t max)
{
    std::vector<Line const*> l = lines_of(p, "sub", max);
    for (size_t i = 0; i < l.size(); ++i) {
        if (w.subs.count(l[i]->at(1))) continue;
        Sub* s = new Sub; s->m.make(spec_of(*l[i], 3)); s->cfg = l[i]->at(2) % 3;
        w.subs[l[i]->at(1)] = s; w.order.push_back(l[i]->at(1));
    }
}
static void build_all(Plan const& p, World& w)
{
    std::vector<Line const*> l = lines_of(p, "sub");
    for (size_t i = 0; i < l.size(); ++i) {
        if (!w.subs.count(l[i]->at(1))) continue;
        Sub* s = w.subs[l[i]->at(1)];
        if (s->o) continue;
        where("building %s", kn(s));
        guarded("building", [&] { s->o = factory(s->cfg)->build(s->m, l[i]->at(9), 0); });
    }
}

// ---- C06 -------------------------------------------------------------------------------------------------
static void gen06(Rng& r, Plan& p, u64 idx)
{
    if (idx % 16384 == 40) { gen_huge(r, p, 10); return; }
    gen_world(r, p);
    u64 ns = 1 + (r.below(2) ? 0 : r.below(4));
    std::vector<u64> ids;
    u64 fav = r.below(N_KINDS), cfg = pick_cfg(r);
    for (u64 i = 0; i < ns; ++i) {
        u64 kind = i == 0 ? idx % N_KINDS : r.below(2) ? fav : r.below(N_KINDS);
        Spec s = small_spec(r, kind);
        add_sub(p, 0, i, r.below(4) ? cfg : pick_cfg(r), s, r.below(route_count(kind)));
        p.add("map", { i, r.below(3), r.below(3), r.below(2) });
        ids.push_back(i);
    }
    p.set("one", r.below(2));
    gen_writes(r, p, false);
    u64 nt = 1 + r.below(3);
    gen_switches(r, p, 1, nt);
    gen_reader_lines(r, p, 1, nt, ids, r.below(ns), 30, 0, r.below(2), 6);
    if (r.below(4) == 0) gen_shared_use(r, p, 1, 1 + unsigned(r.below(2)), unsigned(r.below(2)));
    if (r.below(4) == 0) { // readers beside freezing threads in the first life
        u64 n0 = 2 + r.below(2);
        gen_switches(r, p, 0, n0);
        gen_reader_lines(r, p, 0, n0, ids, r.below(ns), 20, 0, 0, 4);
        gen_shared_use(r, p, 0, 1 + unsigned(r.below(3)), unsigned(r.below(2)));
    }
    u64 np = r.below(6);
    for (u64 i = 0; i < np; ++i) p.add("post", { r.below(ns), r.below(6), r.next() >> 20, r.below(ns) });
    p.set("unmapfirst", r.below(2));
}

static void run06(Plan const& p)
{
    if (run_huge(p)) return;
    World w; load_models(p, w, 6);
    size_t n = w.order.size();
    if (!n) return;
    bool one = p.cfg("one", 0) & 1;
    durable_init(n + 1, 24 << 20);
    run_life([&] {
        apply_world(p, 0);
        build_all(p, w);
        for (size_t i = 0; i < n; ++i) guarded("before freezing", [&] { check_some(w.subs[w.order[i]]->o, w.subs[w.order[i]]->m, i + 5, 10, "before freezing"); });
        std::vector<std::string> plain(n);
        for (size_t i = 0; i < n; ++i) guarded("freezing", [&] { plain[i] = freeze_to_string(w.subs[w.order[i]]->o, 0); });
        for (size_t i = 0; i < n; ++i) w.subs[w.order[i]]->image = plain[i];
        where("readers beside freezing threads");
        guarded("reading while others freeze", [&] { run_reader_phase(p, 0, w.subs); });
        DiskPlan d; put_writes(p, d, false); disk_plan(d);
        std::string all;
        guarded("freezing", [&] {
            if (one) {
                where("freezing %zu structures to one stream", n);
                LibScope ls;
                std::ofstream f("/simdisk/a.img", std::ios::binary);
                for (size_t i = 0; i < n; ++i) { HarnessScope hs; w.subs[w.order[i]]->o->freeze(f, 0); }
                f.close();
                HarnessScope hs;
                if (!f) violation("stream-failed", "the stream failed although every write was (re)tried successfully");
                all = read_disk("a.img");
            } else for (size_t i = 0; i < n; ++i) {
                where("freezing %s to a file", kn(w.subs[w.order[i]]));
                disk_plan(d);
                w.subs[w.order[i]]->o->freeze("/simdisk/a.img", 0);
                all += read_disk("a.img");
            }
        });
        disk_plan(DiskPlan());
        std::string want; for (size_t i = 0; i < n; ++i) want += plain[i];
        count(C_compared);
        if (all != want) violation("freeze-differs", "two freezes of the same structures gave different bytes (%zu and %zu)", all.size(), want.size());
        for (size_t i = 0; i < n; ++i) {
            guarded("after freezing", [&] { check_some(w.subs[w.order[i]]->o, w.subs[w.order[i]]->m, i + 9, 15, "after freezing"); });
            durable_put(i, plain[i].data(), plain[i].size());
        }
        w.clear();
        heap_check("after freezing");
    });
    count(C_f_restart);
    apply_world(p, 1);
    // the images
    std::vector<std::string> img(n);
    std::string whole; std::vector<size_t> off(n);
    for (size_t i = 0; i < n; ++i) { Durable d = durable_get(i); img[i].assign((const char*)d.data, d.len); off[i] = whole.size(); whole += img[i]; w.subs[w.order[i]]->image = img[i]; }
    if (n > 1) count(C_p_multi_object);
    std::map<u64, size_t> slot; for (size_t i = 0; i < n; ++i) slot[w.order[i]] = i;
    std::vector<std::unique_ptr<ReadOnlyImage> > ro(n);
    std::vector<std::unique_ptr<ReadOnlyImage> > extra;
    std::unique_ptr<ReadOnlyImage> whole_ro;
    std::vector<MFile*> mf(n, (MFile*)0);
    disk_put("whole.img", whole.data(), whole.size());
    std::vector<u64> how(n, 0), align(n, 0), warm(n, 0);
    HeapStat h0 = heap_live();
    std::vector<Line const*> ml = lines_of(p, "map");
    for (size_t i = 0; i < ml.size(); ++i) if (slot.count(ml[i]->at(0))) { size_t k = slot[ml[i]->at(0)]; how[k] = ml[i]->at(1) % 3; align[k] = ml[i]->at(2) % 3; warm[k] = ml[i]->at(3) & 1; }
    for (size_t i = 0; i < n; ++i) {
        Sub* s = w.subs[w.order[i]];
        where("mapping %s", kn(s));
        guarded("mapping", [&] {
            s->o = factory(s->cfg)->empty(s->m.sp.kind);
            u64 rd;
            if (how[i] == 0) { // its own image, alone in memory
                ro[i].reset(new ReadOnlyImage(img[i].data(), img[i].size(), align[i]));
                rd = s->o->map(ro[i]->base, warm[i]);
            } else if (how[i] == 1) { // at its place behind the other structures
                if (!whole_ro) whole_ro.reset(new ReadOnlyImage(whole.data(), whole.size(), align[i]));
                rd = s->o->map(whole_ro->base + off[i], warm[i]);
            } else if (i == 0) {
                mf[i] = new MFile("/simdisk/whole.img");
                rd = s->o->map(*mf[i], warm[i]);
            } else { mf[i] = new MFile("/simdisk/whole.img"); rd = s->o->map(mf[i]->data() + off[i], warm[i]); }
            if (rd != img[i].size()) violation("map-count", "mapping %s read %llu bytes of an image of %zu", kn(s), (unsigned long long)rd, img[i].size());
        });
        count(C_p_mapped_query);
    }
    where("concurrent readers of mapped structures");
    guarded("reading mapped structures", [&] { run_reader_phase(p, 1, w.subs); });
    for (size_t i = 0; i < n; ++i) guarded("reading a mapped structure", [&] { check_all(w.subs[w.order[i]]->o, w.subs[w.order[i]]->m, i * 3 + 1, "mapped"); });
    std::vector<Line const*> post = lines_of(p, "post");
    for (size_t i = 0; i < post.size(); ++i) {
        Line const& l = *post[i];
        if (!slot.count(l.at(0))) continue;
        size_t k = slot[l.at(0)];
        Sub* s = w.subs[w.order[k]];
        where("post %llu on %s", (unsigned long long)(l.at(1) % 6), kn(s));
        guarded("using a mapped structure", [&] {
            switch (l.at(1) % 6) {
            case 0: { std::string a = freeze_to_string(s->o, 0); count(C_compared); if (a != img[k]) violation("refreeze", "a mapped %s froze to other bytes (%zu, image %zu)", kn(s), a.size(), img[k].size()); break; }
            case 1: { // swap with a structure built here
                Obj* b = factory(s->cfg)->build(s->m, l.at(2) % route_count(s->m.sp.kind), 0);
                b->swap(*s->o); count(C_p_swap_mixed);
                check_some(b, s->m, l.at(2), 10, "swapped out"); check_some(s->o, s->m, l.at(2) + 1, 10, "swapped in");
                if (l.at(2) & 1) b->swap(*s->o);
                b->destroy();
                break; }
            case 2: { // map again over the present content
                extra.emplace_back(new ReadOnlyImage(img[k].data(), img[k].size(), l.at(2) % 3));
                s->o->map(extra.back()->base, l.at(2) & 1); break; }
            case 3: { // give it up, then map once more
                s->o->dispose();
                extra.emplace_back(new ReadOnlyImage(img[k].data(), img[k].size(), l.at(2) % 3));
                s->o->map(extra.back()->base, l.at(2) & 1); break; }
            case 4: { // swap between mapped structures of one kind
                if (!slot.count(l.at(3))) break;
                Sub* t = w.subs[l.at(3)];
                if (t == s || t->m.sp.kind != s->m.sp.kind || t->cfg != s->cfg) break;
                s->o->swap(*t->o);
                check_some(s->o, t->m, l.at(2), 10, "swapped"); check_some(t->o, s->m, l.at(2), 10, "swapped");
                s->o->swap(*t->o); break; }
            default: { // its own process reads back what it froze
                Obj* b = factory(s->cfg)->empty(s->m.sp.kind);
                std::string a = freeze_to_string(s->o, 0);
                ReadOnlyImage im(a.data(), a.size(), l.at(2) % 3);
                b->map(im.base, 0); check_some(b, s->m, l.at(2), 12, "frozen and mapped again"); b->destroy(); break; }
            }
            check_some(s->o, s->m, l.at(2) + 7, 8, "mapped structure in use");
        });
    }
    where("ending");
    for (size_t i = 0; i < n; ++i) if (ro[i] && !ro[i]->intact(img[i].data())) violation("image-written", "the mapped image changed");
    if (whole_ro && !whole_ro->intact(whole.data())) violation("image-written", "the mapped image changed");
    if (p.cfg("unmapfirst", 0) & 1) {
        for (size_t i = 0; i < n; ++i) if (ro[i]) ro[i]->unmap();
        for (size_t i = 0; i < extra.size(); ++i) extra[i]->unmap();
        if (whole_ro) whole_ro->unmap();
        for (size_t i = 0; i < n; ++i) { delete mf[i]; mf[i] = 0; }
        where("destroying mapped structures after their images are gone");
    }
    std::vector<std::pair<u64, u64> > ks; for (size_t i = 0; i < n; ++i) ks.push_back(std::make_pair(w.subs[w.order[i]]->cfg, w.subs[w.order[i]]->m.sp.kind));
    w.clear();
    for (size_t i = 0; i < n; ++i) { delete mf[i]; mf[i] = 0; }
    // what was kept once may be a cache; what is kept again by doing the same again is lost
    if (heap_live().blocks != h0.blocks) for (size_t i = 0; i < n; ++i) guarded("mapping again", [&] {
        ReadOnlyImage im(img[i].data(), img[i].size(), how[i] == 2 ? 2 : align[i]);
        for (u64 k = 0; k < 2; ++k) {
            HeapStat a = heap_live();
            Obj* o = factory(ks[i].first)->empty(ks[i].second); o->map(im.base, warm[i]); o->destroy();
            if (k && heap_live().blocks > a.blocks) violation("leak", "mapping and destroying %s leaves %lld blocks (%lld bytes) behind", kind_names[ks[i].second], (long long)(heap_live().blocks - a.blocks), (long long)(heap_live().bytes - a.bytes));
        }
    });
    heap_check("at the end");
}

// ---- C07 -------------------------------------------------------------------------------------------------
// a stream buffer without a buffer: sees every write; accepts a number of bytes, then refuses or throws
struct PickyBuf : std::streambuf {
    std::string got; u64 limit, from, to, calls; bool thr, refused;
    PickyBuf() : limit(~u64(0)), from(~u64(0)), to(0), calls(0), thr(false), refused(false) {}
    std::streamsize take(const char* s, std::streamsize n) {
        HarnessScope hs;
        u64 k = calls++;
        bool transient = k >= from && k < to;
        u64 room = transient ? 0 : got.size() < limit ? limit - got.size() : 0;
        u64 m = std::min<u64>(room, (u64)n);
        got.append(s, m);
        if (m < (u64)n) { refused = true; event(0xF8, k, m); count(thr ? C_f_streambuf_throw : C_f_streambuf_refuse); if (thr) throw std::runtime_error("device error"); }
        return (std::streamsize)m;
    }
    std::streamsize xsputn(const char* s, std::streamsize n) { return take(s, n); }
    int_type overflow(int_type c) { if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c); char ch = traits_type::to_char_type(c); return take(&ch, 1) == 1 ? c : traits_type::eof(); }
    pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) { if (o == 0 && d == std::ios_base::cur) return pos_type((off_type)got.size()); return pos_type(off_type(-1)); }
};

static void gen07(Rng& r, Plan& p, u64 idx)
{
    gen_world(r, p);
    u64 mode = r.below(3);
    p.set("mode", mode);
    u64 ns = mode == 0 ? 1 : 1 + r.below(3);
    u64 cfg = pick_cfg(r);
    for (u64 i = 0; i < ns; ++i) { u64 kind = i == 0 ? idx % N_KINDS : r.below(N_KINDS); Spec s = small_spec(r, kind); if (r.below(3) == 0) s.n = pick_size(r, 40000); add_sub(p, 0, i, cfg, s, r.below(route_count(kind))); }
    // one main fault, sometimes none, sometimes more
    u64 nf = r.below(8) == 0 ? 0 : r.below(5) == 0 ? 2 : 1;
    for (u64 i = 0; i < nf; ++i) switch (r.below(7)) {
        case 0: p.set("cap", r.next() >> 20); break;
        case 1: case 2: p.set("crash", r.next() >> 20); break;
        case 3: p.set("openfail", r.below(3)); break;
        case 4: p.set("closefail", r.below(2)); p.set("closelose", r.below(2) ? 1 + r.below(16) : r.next() >> 20); break;
        case 5: p.add("w", { r.below(r.below(2) ? 2 : 8), 3, 0 }); break;
        default: p.set("cap", r.below(64)); break;
    }
    gen_writes(r, p, r.below(3) == 0);
    p.set("old", r.below(2) ? 0 : 1 + r.below(3));
    p.set("limit", r.below(6) == 0 ? ~u64(0) : r.next() >> 20);
    p.set("transient", r.below(3) == 0 ? 1 + r.below(12) : 0);
    p.set("thr", r.below(2));
    p.set("exc", r.below(3) == 0);
    p.set("flushes", r.below(8));
}
static bool is_prefix(std::string const& a, std::string const& b) { return a.size() <= b.size() && !b.compare(0, a.size(), a); }

static void run07(Plan const& p)
{
    apply_world(p, 0);
    World w; load_models(p, w, 4);
    size_t n = w.order.size();
    if (!n) return;
    u64 mode = p.cfg("mode", 0) % 3;
    if (mode == 0) n = 1;
    build_all(p, w);
    std::string want; std::vector<size_t> ends;
    guarded("freezing", [&] { for (size_t i = 0; i < n; ++i) { want += freeze_to_string(w.subs[w.order[i]]->o, 0); ends.push_back(want.size()); } });
    DiskPlan d;
    put_writes(p, d, true);
    u64 total = want.size();
    if (p.cfg("cap", ~u64(0)) != ~u64(0)) d.cap = p.cfg("cap", 0) % (total + 1);
    if (p.cfg("crash", ~u64(0)) != ~u64(0)) d.crash_at = p.cfg("crash", 0) % (total + 1);
    static const u64 errs[] = { EACCES, ENOENT, EMFILE };
    if (p.cfg("openfail", ~u64(0)) != ~u64(0)) d.open_fail = errs[p.cfg("openfail", 0) % 3];
    if (p.cfg("closefail", ~u64(0)) != ~u64(0)) { d.close_fail = p.cfg("closefail", 0) & 1 ? EIO : ENOSPC; d.close_lose = 1 + p.cfg("closelose", 0) % (total + 1); }
    u64 oldk = p.cfg("old", 0) % 4;
    std::string old(oldk == 0 ? 0 : oldk == 1 ? total + 1000 : oldk == 2 ? total : 17, 'x');
    if (oldk == 2 && total) { old = want; old[old.size() / 2] = (char)(old[old.size() / 2] ^ 0x55); }
    if (oldk) disk_put("t.img", old.data(), old.size());
    Sub* s0 = w.subs[w.order[0]];
    if (mode == 0) {
        where("freezing %s to a named file", kn(s0));
        disk_plan(d);
        bool threw = false; u64 rep = 0;
        try { rep = s0->o->freeze("/simdisk/t.img", 0); }
        catch (std::bad_alloc&) { threw = true; } catch (std::exception&) { threw = true; } catch (...) { threw = true; }
        t_lib = 0;
        bool faulted = disk_faulted();
        std::string now = read_disk("t.img"), crash; bool crashed = disk_crash_image(crash);
        event(0x700, threw, now.size());
        count(C_compared);
        if (!threw) {
            if (now != want) violation("incomplete-freeze-reported-complete", "freeze of %s returned %llu; the file holds %zu bytes%s, the image has %llu (%s)", kn(s0), (unsigned long long)rep, now.size(),
                                       is_prefix(now, want) ? "" : " of something else", (unsigned long long)total, faulted ? "an I/O error had occurred" : "no I/O error had occurred");
            if (rep != total) violation("freeze-count", "freeze reported %llu bytes, the image has %llu", (unsigned long long)rep, (unsigned long long)total);
            count(C_p_complete);
        } else {
            if (!faulted) violation("freeze-failed-without-error", "freeze of %s threw although every write was possible", kn(s0));
            count(C_p_reported_failure);
        }
        if (crashed) { count(C_p_prefix_crash); if (!is_prefix(crash, want)) violation("crash-not-prefix", "death after %llu bytes left %zu bytes that are not a prefix of the image of %s", (unsigned long long)d.crash_at, crash.size(), kn(s0)); }
    } else if (mode == 1) {
        where("freezing to a stream");
        disk_plan(d);
        bool good = false, threw = false;
        u64 fl = p.cfg("flushes", 0);
        {
            LibScope ls;
            std::ofstream f("/simdisk/t.img", std::ios::binary);
            bool opened = f.is_open();
            if (opened && (p.cfg("exc", 0) & 1)) f.exceptions(std::ios::badbit | std::ios::failbit);
            try {
                for (size_t i = 0; i < n; ++i) {
                    HarnessScope hs; w.subs[w.order[i]]->o->freeze(f, 0);
                    if ((fl >> i) & 1) { LibScope l2; f.flush(); }
                }
                f.close();
            } catch (...) { threw = true; t_lib = 1; }
            good = f.good() && !threw;
        }
        t_lib = 0;
        bool faulted = disk_faulted();
        std::string now = read_disk("t.img"), crash; bool crashed = disk_crash_image(crash);
        event(0x701, good, now.size());
        count(C_compared);
        if (good && now != want) violation("incomplete-freeze-reported-complete", "the stream is good after close, the file holds %zu bytes, the images have %llu (%s)", now.size(), (unsigned long long)total, faulted ? "an I/O error had occurred" : "no I/O error");
        if (!good && !faulted) violation("freeze-failed-without-error", "the stream failed although every write was possible");
        count(good ? C_p_complete : C_p_reported_failure);
        if (crashed) { count(C_p_prefix_crash); if (!is_prefix(crash, want)) violation("crash-not-prefix", "death after %llu bytes left %zu bytes that are not a prefix of the images", (unsigned long long)d.crash_at, crash.size()); }
    } else {
        where("freezing to a stream that refuses bytes");
        PickyBuf sb;
        u64 lim = p.cfg("limit", ~u64(0));
        if (p.cfg("transient", 0)) { sb.from = (p.cfg("transient", 0) - 1) % 12; sb.to = sb.from + 1; }
        else if (lim != ~u64(0)) sb.limit = lim % (total + 1);
        sb.thr = p.cfg("thr", 0) & 1;
        bool good, threw = false;
        {
            LibScope ls;
            std::ofstream f;
            static_cast<std::ios&>(f).rdbuf(&sb);
            if (p.cfg("exc", 0) & 1) f.exceptions(std::ios::badbit | std::ios::failbit);
            try { for (size_t i = 0; i < n; ++i) { HarnessScope hs; w.subs[w.order[i]]->o->freeze(f, 0); } }
            catch (...) { threw = true; t_lib = 1; }
            good = f.good() && !threw;
            if (p.cfg("exc", 0) & 1) { try { f.exceptions(std::ios::goodbit); } catch (...) { t_lib = 1; } }
            static_cast<std::ios&>(f).rdbuf(static_cast<std::ofstream&>(f).rdbuf());
        }
        t_lib = 0;
        event(0x702, good, sb.got.size());
        count(C_compared);
        if (good && sb.got != want) violation("incomplete-freeze-reported-complete", "the stream is good, it was given %zu bytes, the images have %llu", sb.got.size(), (unsigned long long)total);
        if (!good && !sb.refused) violation("freeze-failed-without-error", "the stream failed although it refused nothing");
        if (!sb.from && sb.thr) {}
        if (sb.limit != ~u64(0) && !is_prefix(sb.got, want)) violation("crash-not-prefix", "the stream got %zu bytes that are not a prefix of the images", sb.got.size());
        count(good ? C_p_complete : C_p_reported_failure);
    }
    // the disk has recovered: the structures are untouched and the next attempt succeeds
    disk_plan(DiskPlan());
    where("retrying");
    count(C_f_retry);
    for (size_t i = 0; i < n; ++i) {
        Sub* s = w.subs[w.order[i]];
        guarded("retrying a freeze", [&] {
            check_some(s->o, s->m, i + 1, 6, "after a failed freeze");
            u64 rep = s->o->freeze("/simdisk/t.img", 0);
            std::string now = read_disk("t.img"), ref = want.substr(i ? ends[i - 1] : 0, ends[i] - (i ? ends[i - 1] : 0));
            if (now != ref || rep != ref.size()) violation("retry-incomplete", "the retried freeze of %s reported %llu bytes, the file has %zu, the image has %zu", kn(s), (unsigned long long)rep, now.size(), ref.size());
            ReadOnlyImage im(now.data(), now.size(), 1);
            Obj* q = factory(s->cfg)->empty(s->m.sp.kind);
            q->map(im.base, 0); check_some(q, s->m, i + 2, 8, "mapped after a retried freeze"); q->destroy();
            count(C_p_retry_ok);
        });
    }
    w.clear();
    heap_check("at the end");
}

// ---- C08 -------------------------------------------------------------------------------------------------
//  sub t s cfg ...    (first number: thread)
static void gen08(Rng& r, Plan& p, u64 idx)
{
    if (idx % 16384 == 40) { gen_huge(r, p, 10); return; }
    gen_world(r, p);
    u64 nt = 1 + r.below(3), id = 0;
    for (u64 t = 0; t < nt; ++t) {
        u64 ns = 1 + r.below(4), cfg = pick_cfg(r);
        for (u64 i = 0; i < ns; ++i) { u64 kind = id == 0 ? idx % N_KINDS : r.below(N_KINDS); Spec s = small_spec(r, kind); if (r.below(10) == 0) s.n = 0; add_sub(p, t, id++, cfg, s, r.below(route_count(kind))); }
    }
    p.set("pre", r.below(2) ? 0 : r.below(40));
    gen_switches(r, p, 0, nt);
    gen_writes(r, p, false);
}
static void check_tree(Obj* o, u64 size, const char* name)
{
    std::vector<TreeNode> t; std::string d;
    o->size_tree(t, d);
    count(C_compared);
    if (t.empty() || t[0].size != size) violation("size-tree", "%s: the size tree says %llu, size_of says %llu", name, (unsigned long long)(t.empty() ? 0 : t[0].size), (unsigned long long)size);
    for (size_t i = 0; i < t.size(); ++i) {
        u64 sum = 0;
        for (size_t j = i + 1; j < t.size() && t[j].depth > t[i].depth; ++j) if (t[j].depth == t[i].depth + 1) sum += t[j].size;
        if (sum > t[i].size) violation("size-tree-children", "%s: node %s of the size tree claims %llu bytes, its children %llu", name, t[i].name.c_str(), (unsigned long long)t[i].size, (unsigned long long)sum);
        bool inner = i + 1 < t.size() && t[i + 1].depth > t[i].depth;
        if (inner && t[i].size > sum + 64) violation("size-tree-children", "%s: node %s of the size tree claims %llu bytes, its children only %llu", name, t[i].name.c_str(), (unsigned long long)t[i].size, (unsigned long long)sum);
    }
    // the printed tree: one line per node, in order, with its name and size
    size_t at = 0;
    for (size_t i = 0; i < t.size(); ++i) {
        size_t e = d.find('\n', at);
        if (e == std::string::npos) violation("size-tree-dump", "%s: the printed size tree has fewer lines than the tree has nodes", name);
        std::string l = d.substr(at, e - at); at = e + 1;
        if (l.find(t[i].name) == std::string::npos || l.find(std::to_string(t[i].size)) == std::string::npos) violation("size-tree-dump", "%s: a line of the printed size tree is '%s' for node %s of %llu bytes", name, l.c_str(), t[i].name.c_str(), (unsigned long long)t[i].size);
    }
    if (at != d.size()) violation("size-tree-dump", "%s: the printed size tree has more lines than the tree has nodes", name);
}
static void sizes_thread(Plan const& p, World& w, std::vector<Line const*> const& mine, u64 t)
{
    char name[64]; snprintf(name, sizeof name, "/simdisk/s%llu.img", (unsigned long long)t);
    std::string pre(p.cfg("pre", 0) % 64, 'p');
    std::vector<u64> rep, off, szs;
    {
        LibScope ls;
        std::ofstream f(name, std::ios::binary);
        f.write(pre.data(), (std::streamsize)pre.size());
        for (size_t i = 0; i < mine.size(); ++i) {
            HarnessScope hs;
            Sub* s = w.subs[mine[i]->at(1)];
            s->o = factory(s->cfg)->build(s->m, mine[i]->at(9), 0);
            u64 sz = s->o->size_of();
            check_tree(s->o, sz, kn(s));
            u64 a, b; { LibScope l2; a = (u64)(std::streamoff)f.tellp(); }
            u64 wr = s->o->freeze(f, 0);
            { LibScope l2; b = (u64)(std::streamoff)f.tellp(); }
            count(C_compared);
            event(0x800 + i, wr, sz);
            if (b - a != wr) violation("freeze-count", "freezing %s reported %llu bytes, the stream moved by %llu", kn(s), (unsigned long long)wr, (unsigned long long)(b - a));
            if (wr != sz + 8) violation("size-of", "freezing %s took %llu bytes, size_of computed %llu", kn(s), (unsigned long long)wr, (unsigned long long)sz);
            if (s->o->size_of() != sz) violation("size-of", "size_of changed by freezing");
            rep.push_back(wr); off.push_back(a); szs.push_back(sz);
        }
        f.close();
        if (!f) { HarnessScope hs; violation("stream-failed", "the stream failed although every write was (re)tried successfully"); }
    }
    std::string all = read_disk(name + 9);
    u64 end = pre.size(); for (size_t i = 0; i < rep.size(); ++i) end += rep[i];
    if (all.size() != end) violation("freeze-count", "freezes reported %llu bytes in total, the file has %zu", (unsigned long long)(end - pre.size()), all.size() - pre.size());
    if (mine.size() > 1) count(C_p_multi_object);
    ReadOnlyImage im(all.data(), all.size(), all.size() % 3);
    for (size_t i = 0; i < mine.size(); ++i) {
        Sub* s = w.subs[mine[i]->at(1)];
        Obj* q = factory(s->cfg)->empty(s->m.sp.kind);
        u64 rd = q->map(im.base + off[i], i & 1);
        count(C_compared);
        if (rd != rep[i]) violation("map-count", "mapping %s read %llu bytes, freezing it had reported %llu", kn(s), (unsigned long long)rd, (unsigned long long)rep[i]);
        u64 sz = q->size_of();
        if (sz != szs[i]) violation("size-of", "the mapped %s has size %llu, the original %llu", kn(s), (unsigned long long)sz, (unsigned long long)szs[i]);
        check_tree(q, sz, kn(s));
        u64 again = q->freeze(name, 0);
        std::string f2 = read_disk(name + 9);
        if (again != rep[i] || f2.size() != again) violation("freeze-count", "freezing a mapped %s reported %llu bytes, the file has %zu, the original took %llu", kn(s), (unsigned long long)again, f2.size(), (unsigned long long)rep[i]);
        check_some(q, s->m, i, 4, "mapped");
        q->destroy();
    }
}
static void run08(Plan const& p)
{
    if (run_huge(p)) return;
    apply_world(p, 0);
    World w; load_models(p, w, 12);
    std::vector<std::vector<Line const*> > by;
    std::vector<Line const*> l = lines_of(p, "sub", 12);
    std::map<u64, int> seen;
    for (size_t i = 0; i < l.size(); ++i) { u64 t = l[i]->at(0) % 4; if (seen[l[i]->at(1)]++) continue; if (by.size() <= t) by.resize(t + 1); by[t].push_back(l[i]); }
    if (by.empty()) return;
    DiskPlan d; put_writes(p, d, false); disk_plan(d);
    std::vector<std::function<void()> > bodies;
    for (size_t t = 0; t < by.size(); ++t) bodies.push_back([&, t] { guarded("accounting", [&] { sizes_thread(p, w, by[t], t); }); });
    std::vector<Switch> s, h; u64 first;
    get_switches(p, 0, s, h, first);
    run_threads(bodies, s, h, first);
    w.clear();
    heap_check("at the end");
}

// ---- C09 -------------------------------------------------------------------------------------------------
//  sub 0 0 cfg kind var gen n seed p route
//  v salt route hist origin seed               one life that makes the same content
static void gen09(Rng& r, Plan& p, u64 idx)
{
    gen_world(r, p);
    u64 kind = idx % N_KINDS;
    Spec s = small_spec(r, kind);
    if (r.below(8) == 0) s.n = r.below(3);
    add_sub(p, 0, 0, pick_cfg(r), s, r.below(route_count(kind)));
    p.set("dflt", r.below(10) == 0);
    u64 nv = 2 + r.below(3);
    for (u64 i = 0; i < nv; ++i) p.add("v", { 1 + r.below(40), r.below(route_count(kind)), r.below(8), r.below(6), r.next() >> 30 });
}
static void run09(Plan const& p)
{
    World w; load_models(p, w, 1);
    if (w.order.empty()) return;
    Sub* s = w.subs[w.order[0]];
    Line const* sl = lines_of(p, "sub")[0];
    bool dflt = p.cfg("dflt", 0) & 1;
    std::vector<Line const*> vs = lines_of(p, "v", 6);
    durable_init(1, 24 << 20);
    auto make = [&](u64 route) -> Obj* { return dflt ? factory(s->cfg)->empty(s->m.sp.kind) : factory(s->cfg)->build(s->m, route, 0); };
    run_life([&] {
        apply_world(p, 0);
        guarded("building", [&] { Obj* o = make(sl->at(9)); std::string a = freeze_to_string(o, 0); durable_put(0, a.data(), a.size()); event(0x900, a.size()); o->destroy(); });
    });
    Durable d = durable_get(0);
    std::string want((const char*)d.data, d.len);
    for (size_t i = 0; i < vs.size(); ++i) run_life([&] {
        Line const& v = *vs[i];
        apply_world(p, v.at(0));
        where("variant %zu of %s: history %llu origin %llu route %llu", i, kn(s), (unsigned long long)(v.at(2) % 8), (unsigned long long)(v.at(3) % 6), (unsigned long long)v.at(1));
        Rng r(v.at(4));
        std::string got;
        auto body = [&] {
            // what happened in this memory before
            for (u64 h = 0; h < v.at(2) % 8; ++h) {
                Model m; m.make(small_spec(r, r.below(2) ? s->m.sp.kind : r.below(N_KINDS)));
                Obj* o = factory(s->cfg)->build(m, r.below(route_count(m.sp.kind)), 0);
                check_some(o, m, h, 2, "earlier structure");
                if (r.below(4)) o->destroy(); // some stay
            }
            Obj* o = 0;
            switch (v.at(3) % 6) {
            case 0: case 1: o = make(v.at(1)); break;
            case 2: { // from the earlier image
                ReadOnlyImage im(want.data(), want.size(), v.at(4) % 3);
                o = factory(s->cfg)->empty(s->m.sp.kind); o->map(im.base, v.at(4) & 1);
                got = freeze_to_string(o, 0); o->destroy(); o = 0; break; }
            case 3: { // swapped into an object that held something else
                Model m; Spec sp = small_spec(r, s->m.sp.kind); m.make(sp);
                o = factory(s->cfg)->build(m, r.below(route_count(sp.kind)), 0);
                Obj* q = make(v.at(1)); o->swap(*q); q->destroy(); break; }
            case 4: { // after an attempt that failed
                if (dflt) { o = make(v.at(1)); break; }
                arm_alloc(1 + r.below(12), r.below(2));
                try { o = make(v.at(1)); } catch (std::bad_alloc&) { t_lib = 0; o = 0; }
                disarm_alloc();
                if (!o) o = make(v.at(1));
                break; }
            default: { // frozen twice, the first time to a full disk
                o = make(v.at(1));
                DiskPlan dp; dp.cap = v.at(4) % (want.size() + 1); disk_plan(dp);
                try { o->freeze("/simdisk/full.img", 0); } catch (std::exception&) { t_lib = 0; }
                disk_plan(DiskPlan()); break; }
            }
            if (o) { got = freeze_to_string(o, 0); if (!dflt) check_some(o, s->m, 3, 3, "variant"); o->destroy(); }
        };
        // on a thread whose stack holds other leftovers
        std::vector<std::function<void()> > b(1, [&] { guarded("building the same content again", body); });
        run_threads(b, std::vector<Switch>(), std::vector<Switch>(), 0);
        count(C_compared); count(C_p_alt_build);
        u64 hsh = 0; for (size_t k = 0; k < got.size(); ++k) hsh = hsh * 31 + (uint8_t)got[k];
        event(0x901, got.size(), hsh);
        if (got != want) {
            size_t k = 0; while (k < got.size() && k < want.size() && got[k] == want[k]) ++k;
            violation("image-not-determined-by-content", "%s%s of %llu elements: the same content froze to different bytes (%zu and %zu, first difference at %zu)", dflt ? "default-constructed " : "", kn(s), (unsigned long long)s->m.length(), want.size(), got.size(), k);
        }
    });
}

// ---- C10 -------------------------------------------------------------------------------------------------
//  sub 0 0 cfg kind var gen n seed p route
//  hop cfg align warm crash seed               a life of build cfg: maps, reads, writes the next image
static void gen10(Rng& r, Plan& p, u64 idx)
{
    gen_world(r, p);
    u64 kind = idx % N_KINDS;
    Spec s = small_spec(r, kind);
    add_sub(p, 0, 0, 0, s, r.below(route_count(kind)));
    p.set("writer", r.below(N_CONFIGS));
    u64 nh = 1 + r.below(4);
    std::vector<u64> ids(1, 0);
    for (u64 h = 0; h < nh; ++h) {
        p.add("hop", { r.below(N_CONFIGS), r.below(3), r.below(2), r.below(2) ? 0 : 1 + r.below(1000000), r.next() >> 30 });
        u64 nt = 1 + r.below(2);
        if (r.below(2)) { gen_switches(r, p, h + 1, nt); gen_reader_lines(r, p, h + 1, nt, ids, 0, 0, 0, 0, 4); }
    }
}
// writes the structure; the process may die on the way: then a new life starts over
static void write_image(Plan const& p, Obj* o, u64 crash, const char* who)
{
    std::string want = freeze_to_string(o, 0);
    if (crash) {
        DiskPlan d; d.crash_at = crash % (want.size() + 1); disk_plan(d);
        { LibScope ls; std::ofstream f("/simdisk/x.img", std::ios::binary); { HarnessScope hs; o->freeze(f, 0); } f.close(); }
        std::string torn;
        if (disk_crash_image(torn)) { count(C_p_prefix_crash); if (!is_prefix(torn, want)) violation("crash-not-prefix", "%s: a writer that died left bytes that are not a prefix of the image", who); }
        disk_plan(DiskPlan());
        std::string again = freeze_to_string(o, 0); count(C_f_retry);
        if (again != want) violation("freeze-differs", "%s: the retried freeze gave other bytes", who);
    }
    (void)p;
    durable_put(0, want.data(), want.size());
}
static void run10(Plan const& p)
{
    World w; load_models(p, w, 1);
    if (w.order.empty()) return;
    Sub* s = w.subs[w.order[0]];
    Line const* sl = lines_of(p, "sub")[0];
    durable_init(1, 24 << 20);
    u64 prev = p.cfg("writer", 0) % N_CONFIGS;
    run_life([&] {
        apply_world(p, 0);
        where("build %s writes %s", factory(prev)->name(), kn(s));
        guarded("building", [&] { Obj* o = factory(prev)->build(s->m, sl->at(9), 0); write_image(p, o, 0, factory(prev)->name()); o->destroy(); });
    });
    std::vector<Line const*> hops = lines_of(p, "hop", 8);
    for (size_t h = 0; h < hops.size(); ++h) {
        Line const& l = *hops[h];
        u64 cfg = l.at(0) % N_CONFIGS;
        if (cfg != prev) count(C_p_xconfig);
        if ((cfg == CFG_REF) != (prev == CFG_REF)) count(C_p_xrelease);
        run_life([&] {
            count(C_f_restart);
            apply_world(p, 1 + h);
            where("hop %zu: build %s reads %s frozen by build %s", h, factory(cfg)->name(), kn(s), factory(prev)->name());
            char ctx[120]; snprintf(ctx, sizeof ctx, "frozen by build %s, mapped by build %s", factory(prev)->name(), factory(cfg)->name());
            Durable d = durable_get(0);
            std::string img((const char*)d.data, d.len);
            guarded(ctx, [&] {
                ReadOnlyImage im(img.data(), img.size(), l.at(1) % 3);
                s->o = factory(cfg)->empty(s->m.sp.kind); s->cfg = cfg;
                u64 rd = s->o->map(im.base, l.at(2) & 1);
                count(C_compared);
                if (rd != img.size()) violation("map-count", "%s: %llu of %zu bytes were read", ctx, (unsigned long long)rd, img.size());
                check_all(s->o, s->m, l.at(4), ctx);
                run_reader_phase(p, h + 1, w.subs);
                check_some(s->o, s->m, l.at(4) + 1, 10, ctx);
                write_image(p, s->o, l.at(3), ctx);
                s->o->destroy(); s->o = 0;
                if (!im.intact(img.data())) violation("image-written", "the mapped image changed");
            });
        });
        prev = cfg;
    }
}

const Scenario sc_c06 = { "C06", gen06, run06 };
const Scenario sc_c07 = { "C07", gen07, run07 };
const Scenario sc_c08 = { "C08", gen08, run08 };
const Scenario sc_c09 = { "C09", gen09, run09 };
const Scenario sc_c10 = { "C10", gen10, run10 };

} // namespace sim
