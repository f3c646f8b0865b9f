// C11-C15: line readers, mapped lines and file handles, builders, failing memory and input, object lives.
#include "scen.hpp"
#include <errno.h>
#include <stdexcept>

namespace sim {

static std::vector<Line const*> lines_of(Plan const& p, const char* verb, size_t max = 512)
{
    std::vector<Line const*> v;
    for (size_t i = 0; i < p.lines.size() && v.size() < max; ++i) if (p.lines[i].verb == verb) v.push_back(&p.lines[i]);
    return v;
}
static u64 hash_of(std::string const& s) { u64 h = s.size(); for (size_t i = 0; i < s.size(); ++i) h = h * 1099511628211ULL + (uint8_t)s[i]; return h; }
static std::string show(std::string const& s)
{
    std::string o = "\"";
    for (size_t i = 0; i < s.size() && i < 24; ++i) { char b[8]; unsigned char c = (unsigned char)s[i]; if (c == '\n') o += "\\n"; else if (c == '\r') o += "\\r"; else if (c < 32 || c > 126 || c == '"') { snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += s[i]; }
    o += s.size() > 24 ? "...\"" : "\"";
    return o + " (" + std::to_string(s.size()) + " chars)";
}

// ---- texts ------------------------------------------------------------------------------------------------
//  gen: style; n: number of lines; p: shape
static std::string make_text(u64 gen, u64 n, u64 seed, u64 p, bool mapped)
{
    Rng r(seed);
    std::string t;
    n = std::min<u64>(n, 400);
    u64 longs = 0;
    for (u64 i = 0; i < n; ++i) {
        u64 len;
        switch (gen % 6) {
        case 0: len = r.below(4); break;
        case 1: len = r.below(80); break;
        case 2: len = r.below(3) ? r.below(10) : 4080 + r.below(40); break;         // around a stdio buffer
        case 3: len = r.below(2) ? r.below(50) : 65500 + r.below(80); break;        // around the reader's buffer
        case 4: len = r.below(2) ? r.below(6) : 65533 + r.below(5); break;
        default: len = r.below(3) ? r.below(300) : r.below(140000); break;
        }
        if (len > 3000 && ++longs > 6) len = r.below(20);
        u64 st = r.below(8);
        for (u64 k = 0; k < len; ++k) {
            char c;
            if (st < 5) c = char('a' + (k + i * 7) % 26);
            else if (st == 5) c = '\r';
            else c = char(1 + r.below(255));
            if (c == '\n') c = 'N';
            if (mapped && st == 7 && r.below(9) == 0) c = 0;
            t += c;
        }
        if (len > 60000) count(C_p_long_line);
        if (r.below(4) == 0) { u64 k = 1 + r.below(2); while (k--) t += '\r'; }
        if (i + 1 < n || !(p & 1)) t += '\n';
        else { count(C_p_partial_line); if (mapped) while (!t.empty() && t[t.size() - 1] == '\r') t.erase(t.size() - 1); } // CR at an unterminated end: not specified
    }
    return t;
}
static std::vector<std::string> keep_lines(std::string const& t)
{
    std::vector<std::string> v; size_t b = 0;
    while (b < t.size()) { size_t e = t.find('\n', b); if (e == std::string::npos) { v.push_back(t.substr(b)); break; } v.push_back(t.substr(b, e + 1 - b)); b = e + 1; }
    return v;
}
static std::string trimmed(std::string s) { while (!s.empty() && (s[s.size() - 1] == '\n' || s[s.size() - 1] == '\r')) s.erase(s.size() - 1); return s; }

// ---- C11 -------------------------------------------------------------------------------------------------
//  txt t gen n seed p trim api bufmode         thread t reads this stream
//  rd t size stall                             the next read call of thread t returns at most size bytes (0 = fails for good)
struct Feed {
    std::string text; size_t at; std::vector<std::pair<u64, u64> > reads; size_t k; bool failed; bool eof;
    Feed() : at(0), k(0), failed(false), eof(false) {}
};
static ssize_t feed_read(void* c, char* buf, size_t n)
{
    HarnessScope hs;
    Feed* f = (Feed*)c;
    u64 lim = n, stall = 0;
    if (f->k < f->reads.size()) { lim = f->reads[f->k].first; stall = f->reads[f->k].second; }
    ++f->k;
    if (stall) { count(C_f_stalled_read); for (u64 i = 0; i < stall % 8; ++i) yield_point(); }
    if (f->failed || lim == 0) { if (!f->failed) count(C_f_read_error); f->failed = true; event(0xF9, f->k); errno = EIO; return -1; }
    size_t m = std::min<size_t>(std::min<size_t>(n, (size_t)lim), f->text.size() - f->at);
    if (m < n && f->at + m < f->text.size()) count(C_f_short_read);
    memcpy(buf, f->text.data() + f->at, m);
    f->at += m;
    return (ssize_t)m;
}

static void gen11(Rng& r, Plan& p, u64)
{
    gen_world(r, p);
    u64 nt = 1 + r.below(3);
    gen_switches(r, p, 0, nt);
    for (u64 t = 0; t < nt; ++t) {
        u64 k = 1 + r.below(2);
        for (u64 i = 0; i < k; ++i) p.add("txt", { t, r.below(6), r.below(4) ? r.below(12) : r.below(60), r.next() >> 30, r.below(2), r.below(2), r.below(3), r.below(3) + 3 * r.below(4) });
        u64 nr = r.below(3) ? r.below(20) : 0;
        for (u64 i = 0; i < nr; ++i) p.add("rd", { t, r.below(25) == 0 ? 0 : r.below(3) ? 1 + r.below(60) : 1 + r.below(70000), r.below(4) ? 0 : 1 + r.below(6) });
    }
}
static void read_stream(Line const& l, std::vector<std::pair<u64, u64> > const& reads)
{
    Feed fd; fd.text = make_text(l.at(1), l.at(2), l.at(3), l.at(4), false); fd.reads = reads;
    bool trim = l.at(5) & 1; u64 api = l.at(6) % 3;
    std::vector<std::string> want = keep_lines(fd.text), got;
    cookie_io_functions_t io; memset(&io, 0, sizeof io); io.read = feed_read;
    FILE* f = fopencookie(&fd, "r", io);
    if (!f) harness_error("fopencookie failed");
    char big[256];
    if (l.at(7) % 3 == 1) setvbuf(f, 0, _IONBF, 0);
    else if (l.at(7) % 3 == 2) setvbuf(f, big, _IOFBF, sizeof big);
    Factory* fa = factory(CFG_MAIN);
    size_t limit = want.size() + 5;
    bool ended = false, broken = false; // broken: the error was visible when the last line came
    if (api < 2) {
        std::string line; // reused, as callers do; sometimes it holds something already
        if (api == 1) line = "leftover from before";
        while (got.size() < limit) {
            bool ok; { ok = fa->getline(line, f, trim); }
            if (!ok) { ended = true; break; }
            got.push_back(std::string(line.data(), line.size()));
            event(0xB00, line.size(), hash_of(got.back()));
        }
        if (ended && !broken) { // stays at the end
            bool ok = fa->getline(line, f, trim);
            if (ok) violation("line-after-end", "a line %s was read after the end of the stream", show(line).c_str());
        }
        { LibScope ls; std::string().swap(line); }
    } else {
        // one iterator after another goes on (as `*it++` and the standard algorithms make them do); copies left behind keep their line
        Lines* it = fa->lines(f, trim);
        std::vector<std::pair<Lines*, size_t> > kept;
        Rng cr(l.at(3) + 77); u64 copies = l.at(7) / 3 % 4;
        while (got.size() < limit) {
            if (it->done()) { ended = true; break; }
            std::string s; it->get(s); got.push_back(s);
            event(0xB01, s.size(), hash_of(s));
            Lines* c = 0;
            if (copies && cr.below(copies + 1) == 0 && kept.size() < 4) { c = it->clone(); count(C_p_cursor_copy); }
            else if (copies && !kept.empty() && cr.below(4) == 0) { kept[0].first->assign(*it); kept[0].second = got.size() - 1; }
            if (c && cr.below(2)) std::swap(c, it); // the copy goes on, the original stays
            it->inc();
            if (c) kept.push_back(std::make_pair(c, got.size() - 1));
            for (size_t k = 0; k < kept.size(); ++k) {
                if (kept[k].first->done()) violation("lost-line", "a copy of the iterator at line %zu is at the end after another one went on", kept[k].second);
                std::string w; kept[k].first->get(w);
                if (w != got[kept[k].second]) violation("wrong-line", "a copy of the iterator at line %zu reads %s after another one went on, it was %s", kept[k].second, show(w).c_str(), show(got[kept[k].second]).c_str());
            }
            if (kept.size() == 4 && cr.below(3) == 0) { kept[1].first->destroy(); kept.erase(kept.begin() + 1); }
        }
        for (size_t k = 0; k < kept.size(); ++k) kept[k].first->destroy();
        it->destroy();
    }
    fclose(f);
    count(C_compared);
    if (!ended) violation("too-many-lines", "a stream of %zu lines gave more than %zu", want.size(), limit - 1);
    for (size_t i = 0; i < got.size(); ++i) {
        if (i >= want.size()) violation("invented-line", "a stream of %zu lines gave one more: %s", want.size(), show(got[i]).c_str());
        std::string exp = trim ? trimmed(want[i]) : want[i];
        if (got[i] == exp) continue;
        if (fd.failed && i + 1 == got.size()) { // cut by the error: a prefix of the line
            bool pre = want[i].compare(0, got[i].size(), got[i]) == 0;
            if (pre) continue;
        }
        violation("wrong-line", "line %zu of %zu is %s, expected %s%s", i, want.size(), show(got[i]).c_str(), show(exp).c_str(), fd.failed ? " (the stream had failed)" : "");
    }
    if (!fd.failed && got.size() != want.size()) violation("lost-line", "a stream of %zu lines gave %zu", want.size(), got.size());
}
static void run11(Plan const& p)
{
    apply_world(p, 0);
    std::vector<Line const*> tx = lines_of(p, "txt", 12), rd = lines_of(p, "rd", 400);
    u64 nt = 0;
    for (size_t i = 0; i < tx.size(); ++i) nt = std::max(nt, tx[i]->at(0) % 4 + 1);
    if (!nt) return;
    std::vector<std::function<void()> > bodies;
    for (u64 t = 0; t < nt; ++t) bodies.push_back([&, t] {
        std::vector<std::pair<u64, u64> > reads;
        for (size_t i = 0; i < rd.size(); ++i) if (rd[i]->at(0) % 4 == t) reads.push_back(std::make_pair(rd[i]->at(1), rd[i]->at(2)));
        for (size_t i = 0; i < tx.size(); ++i) if (tx[i]->at(0) % 4 == t) {
            guarded("reading lines", [&] { read_stream(*tx[i], reads); });
        }
    });
    std::vector<Switch> s, h; u64 first; get_switches(p, 0, s, h, first);
    run_threads(bodies, s, h, first);
    heap_check("at the end");
}

// ---- C12 -------------------------------------------------------------------------------------------------
//  file id gen n seed p                        a file
//  it t file arm mode seed shared              thread t opens a file and iterates with copies; or uses the shared range, or a copy of the shared iterator
//  share file pos                              before the threads: the file is opened, an iterator is moved pos lines ahead
//  af t file mode arm                          thread t uses a file holder
//  bad kind                                    a file that cannot be opened (0), mapped (1), or does not exist (2)
static void gen12(Rng& r, Plan& p, u64)
{
    gen_world(r, p);
    u64 nf = 1 + r.below(3), nt = 1 + r.below(3);
    for (u64 i = 0; i < nf; ++i) p.add("file", { i, r.below(8) ? r.below(3) : 3 + r.below(3), r.below(8) == 0 ? 0 : r.below(4) ? r.below(10) : r.below(60), r.next() >> 30, r.below(2), r.below(3) });
    gen_switches(r, p, 0, nt);
    bool share = r.below(3) == 0;
    if (share) for (u64 i = 0; i < nf; ++i) if (r.below(3)) p.add("share", { i, r.below(4) });
    for (u64 t = 0; t < nt; ++t) {
        u64 k = 1 + r.below(3);
        for (u64 i = 0; i < k; ++i) {
            u64 arm = r.below(4) ? 0 : 1 + r.below(8);
            if (r.below(3)) p.add("it", { t, r.below(nf), arm, r.below(4), r.next() >> 30, share ? r.below(3) : 0 });
            else p.add("af", { t, r.below(nf), r.below(4), arm });
        }
    }
    if (r.below(2)) p.add("bad", { r.below(10), r.below(4) });
}
static std::vector<std::string> mapped_lines(std::string const& t)
{
    std::vector<std::string> v = keep_lines(t);
    for (size_t i = 0; i < v.size(); ++i) if (!v[i].empty() && v[i][v[i].size() - 1] == '\n') { v[i].erase(v[i].size() - 1); if (!v[i].empty() && v[i][v[i].size() - 1] == '\r') v[i].erase(v[i].size() - 1); }
    return v;
}
struct Walker { Lines* l; size_t i; };
static void walk_lines(Lines* first, std::vector<std::string> const& want, u64 seed, size_t at = 0)
{
    std::vector<Walker> ws; ws.push_back(Walker{ first, at });
    Rng r(seed);
    auto check = [&](Walker& w) {
        bool d = w.l->done();
        count(C_compared);
        if (d != (w.i >= want.size())) violation(d ? "lost-line" : "invented-line", "after %zu of %zu lines the iterator is %s", w.i, want.size(), d ? "at the end" : "not at the end");
        if (d) return;
        std::string s; w.l->get(s);
        event(0xC00, w.i, hash_of(s));
        if (s != want[w.i]) violation("wrong-line", "line %zu of %zu is %s, expected %s", w.i, want.size(), show(s).c_str(), show(want[w.i]).c_str());
    };
    try {
        u64 moves = 0;
        for (;;) {
            if (++moves > 3000) break;
            // some walker that is not at the end
            std::vector<size_t> act; for (size_t k = 0; k < ws.size(); ++k) if (ws[k].i < want.size()) act.push_back(k);
            for (size_t k = 0; k < ws.size(); ++k) if (r.below(4) == 0) check(ws[k]);
            if (act.empty()) break;
            size_t k = act[r.below(act.size())];
            u64 what = r.below(12);
            if (what == 0 && ws.size() < 5) { Lines* c = ws[k].l->clone(); count(C_p_cursor_copy); ws.push_back(Walker{ c, ws[k].i }); }
            else if (what == 1 && ws.size() > 1) { size_t j = r.below(ws.size()); if (j != k) { ws[j].l->assign(*ws[k].l); ws[j].i = ws[k].i; if (!ws[j].l->same(*ws[k].l)) violation("iterator-equality", "an assigned iterator differs from its source"); } }
            else { check(ws[k]); ws[k].l->inc(); ws[k].i++; check(ws[k]); }
        }
        for (size_t k = 0; k < ws.size(); ++k) check(ws[k]);
    } catch (std::bad_alloc&) { HarnessScope hs; t_lib = 0; for (size_t k = 0; k < ws.size(); ++k) ws[k].l->destroy(); throw; }
    for (size_t k = 0; k < ws.size(); ++k) ws[k].l->destroy();
}
static void run12(Plan const& p)
{
    apply_world(p, 0);
    disk_reset();
    std::vector<Line const*> fl = lines_of(p, "file", 8);
    std::map<u64, std::string> text; std::map<u64, std::vector<std::string> > want;
    for (size_t i = 0; i < fl.size(); ++i) {
        u64 id = fl[i]->at(0);
        if (text.count(id)) continue;
        std::string t = make_text(fl[i]->at(1), fl[i]->at(2), fl[i]->at(3), fl[i]->at(4), true);
        if (fl[i]->at(5) % 3 == 1 && !t.empty() && t[t.size() - 1] == '\n') { // a length that is a multiple of the page size
            size_t pad = (4096 - t.size() % 4096) % 4096; t.insert(0, pad, 'q'); }
        text[id] = t; want[id] = mapped_lines(t);
        char n[32]; snprintf(n, sizeof n, "f%llu", (unsigned long long)id); disk_put(n, t.data(), t.size());
        if (t.empty()) count(C_p_empty_subject);
    }
    int fds = open_fds();
    std::vector<Line const*> ops; u64 nt = 0;
    for (size_t i = 0; i < p.lines.size(); ++i) if (p.lines[i].verb == "it" || p.lines[i].verb == "af") { if (!text.count(p.lines[i].at(1)) || ops.size() >= 24) continue; ops.push_back(&p.lines[i]); nt = std::max(nt, p.lines[i].at(0) % 4 + 1); }
    struct Shared { MmapLines* m; Lines* it; size_t pos; };
    std::map<u64, Shared> shared;
    std::vector<Line const*> sl = lines_of(p, "share", 8);
    for (size_t i = 0; i < sl.size(); ++i) {
        u64 id = sl[i]->at(0);
        if (!text.count(id) || shared.count(id)) continue;
        guarded("opening a shared file", [&] {
            char name[48]; snprintf(name, sizeof name, "/simdisk/f%llu", (unsigned long long)id);
            Shared sh; sh.m = factory(CFG_MAIN)->mmap_lines(name); sh.it = sh.m->begin(); sh.pos = 0;
            while (sh.pos < sl[i]->at(1) && sh.pos < want[id].size()) { sh.it->inc(); ++sh.pos; }
            shared[id] = sh;
        });
    }
    std::vector<std::function<void()> > bodies;
    for (u64 t = 0; t < nt; ++t) bodies.push_back([&, t] {
        for (size_t i = 0; i < ops.size(); ++i) {
            Line const& l = *ops[i];
            if (l.at(0) % 4 != t) continue;
            char name[48]; snprintf(name, sizeof name, "/simdisk/f%llu", (unsigned long long)l.at(1));
            std::string const& tx = text[l.at(1)];
            if (l.verb == "it") {
                where("iterating over mapped lines");
                if (l.at(2)) arm_alloc(l.at(2), false);
                HeapStat before = heap_live_here();
                bool failed = false;
                try {
                    if (l.at(5) % 3 && shared.count(l.at(1))) {
                        Shared& sh = shared[l.at(1)];
                        for (u64 k = 0; k < 1 + l.at(3) % 2; ++k) {
                            if (l.at(5) % 3 == 1) { Lines* b = sh.m->begin(); walk_lines(b, want[l.at(1)], l.at(4) + k); }
                            else { Lines* b = sh.it->clone(); walk_lines(b, want[l.at(1)], l.at(4) + k, sh.pos); }
                        }
                        count(C_p_cursor_copy);
                    } else if (l.at(3) % 4 == 3) { // lines of a buffer in memory
                        ReadOnlyImage im(tx.data(), tx.size(), 0);
                        Lines* b = factory(CFG_MAIN)->buffer_lines(im.base, tx.size());
                        walk_lines(b, want[l.at(1)], l.at(4));
                    } else {
                        MmapLines* m = factory(CFG_MAIN)->mmap_lines(name);
                        try {
                            u64 k = 1 + l.at(3) % 3;
                            while (k--) { Lines* b = m->begin(); walk_lines(b, want[l.at(1)], l.at(4) + k); }
                        } catch (...) { t_lib = 0; m->destroy(); throw; }
                        m->destroy();
                    }
                } catch (std::bad_alloc&) { t_lib = 0; failed = true; }
                catch (std::exception& x) { t_lib = 0; bool fired = disarm_alloc(); if (fired) failed = true; else violation("unexpected-exception", "iterating over the lines of a file of %zu bytes: %s", tx.size(), x.what()); }
                bool fired = disarm_alloc();
                if (failed && !fired && l.at(2) == 0) violation("unexpected-exception:bad_alloc", "bad_alloc although no allocation failed");
                HeapStat after = heap_live_here();
                if (after.blocks != before.blocks) violation("leak", "%lld blocks leaked by %s iteration over lines", (long long)(after.blocks - before.blocks), failed ? "a failed" : "an");
            } else {
                where("using a file holder");
                if (l.at(3)) arm_alloc(l.at(3), false);
                try {
                    AutoFile* a = factory(CFG_MAIN)->auto_file(name, "rb");
                    try {
                        std::string got; char buf[300];
                        FILE* f = a->get();
                        if (!f) violation("no-handle", "the file holder has no handle");
                        u64 stop = l.at(2) % 4 == 1 ? tx.size() / 2 : tx.size() + 1;
                        for (;;) { size_t n = fread(buf, 1, sizeof buf, f); if (!n) break; got.append(buf, n); yield_point(); if (got.size() >= stop) break; }
                        count(C_compared);
                        if (l.at(2) % 4 != 1 && got != tx) violation("wrong-content", "reading through the file holder gave %zu bytes of %zu", got.size(), tx.size());
                        if (l.at(2) % 4 == 2) throw std::runtime_error("user error");
                    } catch (...) { t_lib = 0; a->destroy(); throw; }
                    a->destroy();
                } catch (std::bad_alloc&) { t_lib = 0; } catch (std::runtime_error&) { t_lib = 0; }
                disarm_alloc();
            }
        }
    });
    std::vector<Switch> s, h; u64 first; get_switches(p, 0, s, h, first);
    if (nt) run_threads(bodies, s, h, first);
    for (std::map<u64, Shared>::iterator i = shared.begin(); i != shared.end(); ++i) guarded("using a shared iterator afterwards", [&] {
        walk_lines(i->second.it, want[i->first], i->first, i->second.pos); // destroys it
        i->second.m->destroy(); });
    if (open_fds() != fds) violation("handle-leak", "%d more file descriptors open than before", open_fds() - fds);
    if (files_opened() != files_closed()) violation("handle-leak", "%llu files opened, %llu closed", (unsigned long long)files_opened(), (unsigned long long)files_closed());
    if (maps_live()) violation("handle-leak", "%ld file mappings left", maps_live());
    std::vector<Line const*> bad = lines_of(p, "bad", 4);
    for (size_t i = 0; i < bad.size(); ++i) {
        u64 k = bad[i]->at(0) % 10;
        if (k >= 6) { // positioning or asking for the size fails: an exception, or the content after all
            static const u64 errs[] = { EIO, EINVAL, EOVERFLOW, ESPIPE };
            std::string const some = "one\ntwo\r\n\nthree"; disk_put("odd", some.data(), some.size());
            DiskPlan d; (k & 1 ? d.stat_fail : d.seek_fail) = errs[bad[i]->at(1) % 4];
            where("a file that cannot be %s", k & 1 ? "sized" : "positioned");
            disk_plan(d);
            bool threw = false;
            HeapStat before = heap_live_here();
            try {
                if (k < 8) { AutoFile* a = factory(CFG_MAIN)->auto_file("/simdisk/odd", "rb"); std::string got; char b[40]; size_t n; while ((n = fread(b, 1, sizeof b, a->get())) > 0) got.append(b, n); a->destroy(); if (got != some) violation("wrong-content", "reading through the file holder gave %zu bytes of %zu", got.size(), some.size()); }
                else { MmapLines* m = factory(CFG_MAIN)->mmap_lines("/simdisk/odd"); Lines* b = m->begin(); walk_lines(b, mapped_lines(some), 3); m->destroy(); }
            } catch (std::exception&) { threw = true; } catch (...) { threw = true; }
            t_lib = 0;
            bool faulted = disk_faulted();
            disk_plan(DiskPlan());
            count(C_compared);
            event(0xC02, k, threw);
            if (threw && !faulted) violation("unexpected-exception", "a readable file was reported as failing");
            if (open_fds() != fds) violation("handle-leak", "%d more file descriptors open after a failure", open_fds() - fds);
            if (heap_live_here().blocks != before.blocks) violation("leak", "%lld blocks leaked by a file that could not be %s", (long long)(heap_live_here().blocks - before.blocks), k & 1 ? "sized" : "positioned");
            if (files_opened() != files_closed()) violation("handle-leak", "%llu files opened, %llu closed", (unsigned long long)files_opened(), (unsigned long long)files_closed());
            if (maps_live()) violation("handle-leak", "%ld file mappings left", maps_live());
            continue;
        }
        where("a file that fails (%llu)", (unsigned long long)k);
        std::string some = "one\ntwo\n"; disk_put("bad", some.data(), some.size());
        const char* name = k == 2 || k == 5 ? "/simdisk/missing" : "/simdisk/bad";
        DiskPlan d; if (k % 3 == 0) d.open_fail = EACCES; if (k == 1) d.mmap_fail = ENOMEM;
        if (k == 4) d.open_fail = EMFILE;
        disk_plan(d);
        bool threw = false;
        HeapStat before = heap_live_here();
        try {
            if (k < 3) { MmapLines* m = factory(CFG_MAIN)->mmap_lines(name); m->destroy(); }
            else { AutoFile* a = factory(CFG_MAIN)->auto_file(name, "rb"); a->destroy(); }
        } catch (std::exception&) { threw = true; } catch (...) { threw = true; }
        t_lib = 0;
        disk_plan(DiskPlan());
        count(C_compared);
        event(0xC01, k, threw);
        if (!threw) violation("failure-not-reported", "a file that could not be %s was not reported by an exception", k == 1 ? "mapped" : "opened");
        if (open_fds() != fds) violation("handle-leak", "%d more file descriptors open after a failure", open_fds() - fds);
        if (heap_live_here().blocks != before.blocks) violation("leak", "%lld blocks leaked by a file that could not be %s", (long long)(heap_live_here().blocks - before.blocks), k == 1 ? "mapped" : "opened");
        if (files_opened() != files_closed()) violation("handle-leak", "%llu files opened, %llu closed", (unsigned long long)files_opened(), (unsigned long long)files_closed());
    }
    heap_check("at the end");
}

// ---- C13 -------------------------------------------------------------------------------------------------
//  e t slot op a b c                           an edit
//  arm t k persistent                          the next edit of t meets a failing allocation
typedef std::vector<uint8_t> Bits;
static void gen13(Rng& r, Plan& p, u64 idx)
{
    if (idx % 4096 / 8 == 3 && idx % 8 < 2) { gen_huge(r, p, 4); return; }
    gen_world(r, p);
    u64 nt = r.below(4) ? 1 : 2;
    gen_switches(r, p, 0, nt);
    u64 arms = r.below(2) ? 12 : 0;
    u64 cfg = r.below(5) ? CFG_MAIN : r.below(2) ? CFG_NOINTR : CFG_POPCNT;
    p.set("cfg", cfg);
    for (u64 t = 0; t < nt; ++t) {
        u64 n = r.below(3) ? r.below(16) : r.below(60), last = r.below(12);
        for (u64 i = 0; i < n; ++i) {
            if (r.below(100) < arms) p.add("arm", { t, 1 + r.below(3), r.below(3) == 0 });
            u64 op = r.below(3) ? r.below(14) : last; last = op;
            u64 a = r.below(5) == 0 ? 64 * r.below(6) : r.below(4) ? r.below(130) : r.below(1500);
            p.add("e", { t, r.below(3), op, a, r.next() >> (r.below(4) ? 0 : 40), r.below(64) });
        }
    }
}
static void builder_compare(Builder* b, Bits const& want, const char* after)
{
    count(C_compared);
    u64 n = b->size();
    if (n != want.size()) violation("builder-size", "%s: the builder has %llu bits, its history defines %zu", after, (unsigned long long)n, want.size());
    std::vector<u64> w; b->words(w);
    if (w.size() * 64 < n) violation("builder-size", "%s: %zu words hold %llu bits", after, w.size(), (unsigned long long)n);
    for (u64 i = 0; i < n; ++i) if (((w[i / 64] >> (i % 64)) & 1) != want[i]) violation("builder-bits", "%s: bit %llu of %llu is %d", after, (unsigned long long)i, (unsigned long long)n, int((w[i / 64] >> (i % 64)) & 1));
    u64 h = n; for (size_t i = 0; i < w.size(); ++i) h = mix64(h ^ w[i]);
    event(0xD00, n, h);
}
static void edit_thread(Plan const& p, u64 t)
{
    u64 cfg = p.cfg("cfg", 0) % 3;
    Builder* b[3] = { 0, 0, 0 }; Bits m[3];
    u64 armk = 0, armp = 0;
    for (size_t li = 0; li < p.lines.size(); ++li) {
        Line const& l = p.lines[li];
        if (l.verb == "arm" && l.at(0) % 4 == t) { armk = std::max<u64>(1, l.at(1)); armp = l.at(2); continue; }
        if (l.verb != "e" || l.at(0) % 4 != t) continue;
        u64 k = l.at(1) % 3, op = l.at(2) % 14, a = std::min<u64>(l.at(3), 6000), v = l.at(4), c = l.at(5);
        if (!b[k] && op != 13) {
            u64 n0 = op == 12 ? a : 0; bool init = op == 12 && (v & 1);
            guarded("starting a builder", [&] { b[k] = factory(cfg)->builder(n0, init); });
            m[k].assign(n0, init);
            builder_compare(b[k], m[k], "fresh builder");
            if (op == 12) continue;
        }
        Bits app; bool appending = false;
        u64 j = (k + 1 + c % 2) % 3;
        bool failed = false;
        static const char* const names[] = { "push_back", "push_back run", "append_bits", "zero_extend", "one_extend", "set", "set_bits", "append", "reverse", "reserve", "swap", "finish", "-", "drop" };
        where("builder %s", names[op]);
        if (op == 7 && !b[j]) { guarded("starting a builder", [&] { b[j] = factory(cfg)->builder(0, false); }); m[j].clear(); }
        if (op == 10 && !b[j]) { guarded("starting a builder", [&] { b[j] = factory(cfg)->builder(0, false); }); m[j].clear(); }
        if (armk && op != 13 && op != 11) { arm_alloc(armk, armp); }
        Bits old = m[k];
        try {
            switch (op) {
            case 0: app.assign(1, v & 1); appending = true; b[k]->push_back(v & 1); break;
            case 1: { appending = true; u64 n = a % 200; for (u64 i = 0; i < n; ++i) app.push_back((v >> (i % 64)) & 1); for (u64 i = 0; i < n; ++i) b[k]->push_back(app[i]); break; }
            case 2: { appending = true; u64 len = c % 8 == 0 ? 64 : a % 65; u64 bits = len == 64 ? v : v & ((u64(1) << len) - 1); for (u64 i = 0; i < len; ++i) app.push_back((bits >> i) & 1); b[k]->append_bits(bits, len); break; }
            case 3: appending = true; app.assign(a, 0); b[k]->zero_extend(a); break;
            case 4: appending = true; app.assign(a, 1); b[k]->one_extend(a); break;
            case 5: if (!m[k].empty()) { u64 pos = c % 8 == 7 ? m[k].size() - 1 : v % m[k].size(); m[k][pos] = c & 1; old = m[k]; b[k]->set(pos, c & 1); } break;
            case 6: { u64 len = std::min<u64>(a % 65, m[k].size()); u64 pos = c % 4 == 3 ? m[k].size() - len : v % (m[k].size() - len + 1); u64 bits = mix64(v); if (len < 64) bits &= (u64(1) << len) - 1; if (m[k].empty()) break;
                for (u64 i = 0; i < len; ++i) m[k][pos + i] = (bits >> i) & 1; old = m[k]; b[k]->set_bits(pos, bits, len); break; }
            case 7: appending = true; app = m[j]; b[k]->append(*b[j]); break;
            case 8: { Bits rev(m[k].rbegin(), m[k].rend()); b[k]->reverse(); m[k] = rev; break; }
            case 9: b[k]->reserve(c % 3 == 0 ? a / 3 : m[k].size() + a); break;
            case 10: b[k]->swap(*b[j]); m[k].swap(m[j]); break;
            case 11: {
                Model md; md.sp.kind = c % 3 == 0 ? K_BV : K_RS; md.sp.var = c & 3; md.bits = m[k];
                Spec sp; sp.kind = md.sp.kind;
                // turn the bits into a model by way of the plain constructor
                md = Model(); md.sp = sp; md.sp.var = (c & 3); md.bits = m[k];
                md.sanity_bits();
                Obj* o = 0;
                guarded("finishing a builder", [&] { o = b[k]->finish(md.sp.kind, md.sp.var); });
                b[k]->destroy(); b[k] = 0; m[k].clear();
                guarded("querying what was built", [&] { check_all(o, md, v, "made from a builder");
                    for (u64 i = 0; i < md.bits.size(); ++i) { Query q; q.op = Q_AT; q.a = i; Ans got, wa(1, md.bits[i]); o->query(q, got); if (got != wa) compare(md, q, wa, got, "made from a builder"); } });
                o->destroy();
                break; }
            case 13: if (b[k]) { b[k]->destroy(); b[k] = 0; m[k].clear(); } break;
            default: break;
            }
        } catch (std::bad_alloc&) { t_lib = 0; failed = true; }
        catch (std::exception& x) { t_lib = 0; violation("unexpected-exception", "builder %s: %s", names[op], x.what()); }
        if (armk && op != 13 && op != 11) {
            bool fired = disarm_alloc(); armk = 0;
            if (failed && !fired) violation("unexpected-exception:bad_alloc", "builder %s: bad_alloc although no allocation failed", names[op]);
        } else if (failed) violation("unexpected-exception:bad_alloc", "builder %s: bad_alloc although no allocation failed", names[op]);
        if (!b[k]) continue;
        if (failed) {
            count(C_p_builder_failed_op);
            u64 n = b[k]->size();
            if (n < old.size() || n > old.size() + (appending ? app.size() : 0))
                violation("builder-after-failure", "%s of %zu bits failed: the builder had %zu bits and now has %llu", names[op], app.size(), old.size(), (unsigned long long)n);
            m[k] = old; m[k].insert(m[k].end(), app.begin(), app.begin() + (ptrdiff_t)(n - old.size()));
        } else if (appending) m[k].insert(m[k].end(), app.begin(), app.end());
        char ctx[60]; snprintf(ctx, sizeof ctx, "after %s%s", failed ? "a failed " : "", names[op]);
        builder_compare(b[k], m[k], ctx);
        if (b[j] && (op == 7 || op == 10)) builder_compare(b[j], m[j], ctx);
    }
    for (int k = 0; k < 3; ++k) if (b[k]) {
        Model md; md.sp.kind = K_BV; md.bits = m[k]; md.sanity_bits();
        Obj* o = 0;
        guarded("finishing a builder", [&] { o = b[k]->finish(K_BV, 0); });
        guarded("querying what was built", [&] { check_all(o, md, 17, "made from a builder"); });
        o->destroy(); b[k]->destroy();
    }
}
static void run13(Plan const& p)
{
    if (run_huge(p)) return;
    apply_world(p, 0);
    u64 nt = 0;
    std::vector<Line const*> e = lines_of(p, "e");
    for (size_t i = 0; i < e.size(); ++i) nt = std::max(nt, e[i]->at(0) % 4 + 1);
    if (!nt) return;
    std::vector<std::function<void()> > bodies;
    for (u64 t = 0; t < nt; ++t) bodies.push_back([&, t] { edit_thread(p, t); });
    std::vector<Switch> s, h; u64 first; get_switches(p, 0, s, h, first);
    run_threads(bodies, s, h, first);
    if (u64 kept = heap_live().blocks) { // a cache, or lost: do it all again
        run_threads(bodies, s, h, first);
        if (heap_live().blocks > kept) violation("leak", "%llu blocks live after all builders are gone, %llu when all was done again", (unsigned long long)kept, (unsigned long long)heap_live().blocks);
    }
    heap_check("at the end");
}

// ---- C14 -------------------------------------------------------------------------------------------------
//  sub 0 s cfg kind var gen n seed p route     exists before, queried by readers meanwhile
//  try t cfg kind var gen n seed p route what k persistent seed
//      what: 0 allocation failure in a build, 1 input failure in a build, 2 both, 3 assign, 4 take over, 5 enumeration, 6 input failure in assign
static void gen14(Rng& r, Plan& p, u64 idx)
{
    gen_world(r, p);
    u64 nt = 1 + r.below(3);
    u64 ns = r.below(3);
    for (u64 i = 0; i < ns; ++i) { Spec s = pick_spec(r, r.below(N_KINDS), 3000); std::vector<u64> v; v.push_back(0); v.push_back(i); v.push_back(r.below(3)); put_spec(v, s); v.push_back(r.below(route_count(s.kind))); p.add("sub", v); }
    gen_switches(r, p, 0, nt);
    for (u64 t = 0; t < nt; ++t) {
        u64 k = 1 + r.below(2);
        for (u64 i = 0; i < k; ++i) {
            u64 kind = t == 0 && i == 0 ? idx % N_KINDS : r.below(N_KINDS);
            Spec s = pick_spec(r, kind, r.below(3) ? 800 : 9000);
            u64 what = r.below(3) ? 0 : r.below(3);
            if (kind <= K_MV64 && r.below(2)) what = 3 + (r.below(2) ? r.below(2) : 3);
            if ((kind == K_TKE || kind == K_TKM) && r.below(3) == 0) what = 5;
            u64 route = what == 1 || what == 2 ? (kind <= K_MV64 && r.below(2) ? 2 : 0) : r.below(route_count(kind));
            std::vector<u64> v; v.push_back(t); v.push_back(r.below(6) ? CFG_MAIN : 1 + r.below(2)); put_spec(v, s); v.push_back(route); v.push_back(what); v.push_back(r.next() >> 20); v.push_back(r.below(4) == 0); v.push_back(r.next() >> 30);
            p.add("try", v);
        }
    }
}
static void attempt(Line const& l, std::map<u64, Sub*>& subs)
{
    u64 cfg = l.at(1) % 3, route = l.at(8), what = l.at(9) % 7, kraw = l.at(10), pers = l.at(11) & 1, seed = l.at(12);
    Model m; m.make(spec_of(l, 2));
    const char* kn = kind_names[m.sp.kind];
    Factory* f = factory(cfg);
    if (what >= 3 && what != 5 && m.sp.kind > K_MV64) what = 0;
    if (what == 5 && m.sp.kind != K_TKE && m.sp.kind != K_TKM) what = 0;
    Obj* target = 0; Model tm;                   // assignments and enumerations work on an existing object
    if (what >= 3) {
        Spec sp = m.sp; sp.n = seed % 50; sp.seed ^= 77;
        if (what == 5) sp = m.sp;
        tm.make(sp);
        guarded("building", [&] { target = f->build(tm, 0, 0); });
    }
    // how many allocations / element reads the whole takes
    reset_allocs_seen();
    InputFault in;
    u64 nalloc = 0;
    auto act = [&](Obj*& made) {
        made = 0;
        switch (what) {
        case 3: case 6: target->v_assign(m, &in); break;
        case 4: target->v_steal(m); break;
        case 5: if (tm.vals.size()) check_some(target, tm, seed, 4, "enumerating"); break;
        default: made = f->build(m, route, &in);
        }
    };
    HeapStat h0 = heap_live_here();
    guarded("trying without faults", [&] { Obj* o; act(o); nalloc = allocs_seen(); if (o) o->destroy(); });
    u64 kept = heap_live_here().blocks - h0.blocks;
    if (what != 3 && what != 4 && what != 6 && kept) { // a cache, or lost: once more
        in = InputFault(); h0 = heap_live_here();
        guarded("trying without faults", [&] { Obj* o; act(o); if (o) o->destroy(); });
        if (heap_live_here().blocks != h0.blocks) violation("leak", "%lld blocks leaked by building and destroying %s", (long long)(heap_live_here().blocks - h0.blocks), kn); }
    u64 nread = in.seen;
    if (what == 3 || what == 4 || what == 6) { guarded("restoring", [&] { target->v_assign(tm, 0); }); h0 = heap_live_here(); }
    // now with the fault
    in = InputFault();
    bool use_alloc = what == 0 || what == 2 || what == 3 || what == 4 || what == 5, use_in = what == 1 || what == 2 || what == 6;
    if (use_in && nread) in.at = 1 + (kraw / 7) % nread;
    if (use_alloc && nalloc) arm_alloc(1 + kraw % nalloc, pers);
    bool threw = false, wrong = false; std::string wtext; Obj* o = 0;
    where("%s: attempt with a fault (what %llu, %llu allocations, %llu elements)", kn, (unsigned long long)what, (unsigned long long)nalloc, (unsigned long long)nread);
    try { act(o); }
    catch (std::bad_alloc&) { t_lib = 0; threw = true; if (!use_alloc) { wrong = true; wtext = "bad_alloc"; } }
    catch (InputError&) { t_lib = 0; threw = true; if (!use_in) { wrong = true; wtext = "input error"; } }
    catch (std::exception& x) { t_lib = 0; threw = true; wrong = true; wtext = x.what(); }
    catch (...) { t_lib = 0; threw = true; wrong = true; wtext = "something unknown"; }
    bool fired = disarm_alloc() || (in.at && in.seen >= in.at);
    in.at = 0;
    event(0xE00 + what, threw, fired);
    count(C_compared);
    if (threw && (wrong || !fired)) violation("wrong-exception", "%s: the caller got %s", kn, wrong ? wtext.c_str() : "an exception although nothing failed");
    if (fired) count(C_p_alloc_reached);
    if (threw) {
        HeapStat h1 = heap_live_here();
        bool vec = what == 3 || what == 4 || what == 6;
        if (!vec && h1.blocks != h0.blocks) violation("leak", "%s of %llu elements: a failed %s left %lld blocks (%lld bytes) allocated", kn, (unsigned long long)m.length(), what == 5 ? "enumeration" : "build", (long long)(h1.blocks - h0.blocks), (long long)(h1.bytes - h0.bytes));
        if (vec) { // valid, and empty or unchanged
            guarded("using the target of a failed assignment", [&] {
                Query q; q.op = Q_SIZE; Ans a; target->query(q, a);
                if (a[0] != 0) { if (a[0] != tm.vals.size()) violation("assign-half", "%s: after a failed assignment of %zu elements over %zu the target says %llu", kn, m.vals.size(), tm.vals.size(), (unsigned long long)a[0]); check_some(target, tm, seed, 8, "target of a failed assignment"); }
                std::string img = freeze_to_string(target, 0);
            });
        }
        if (what == 5) guarded("after a failed enumeration", [&] { check_some(target, tm, seed + 1, 5, "after a failed enumeration"); });
    } else if (o) { guarded("after a fault that did not matter", [&] { check_some(o, m, seed, 10, "built"); }); o->destroy(); o = 0; }
    // everything else is as before
    for (std::map<u64, Sub*>::iterator i = subs.begin(); i != subs.end(); ++i) guarded("bystanders", [&] { check_some(i->second->o, i->second->m, seed + i->first, 4, "bystander of a failed build"); });
    // retry
    where("%s: retry", kn);
    count(C_f_retry);
    guarded("retrying", [&] {
        Obj* r; act(r);
        if (r) { check_all(r, m, seed + 3, "retried build"); r->destroy(); }
        else if (what == 3 || what == 4 || what == 6) check_all(target, m, seed + 3, "retried assignment");
        count(C_p_retry_ok);
    });
    if (target) target->destroy();
}
static void run14(Plan const& p)
{
    apply_world(p, 0);
    std::map<u64, Sub*> subs;
    std::vector<Line const*> sl = lines_of(p, "sub", 4), tl = lines_of(p, "try", 16);
    for (size_t i = 0; i < sl.size(); ++i) {
        if (subs.count(sl[i]->at(1))) continue;
        Sub* s = new Sub; s->m.make(spec_of(*sl[i], 3)); s->cfg = sl[i]->at(2) % 3;
        guarded("building", [&] { s->o = factory(s->cfg)->build(s->m, sl[i]->at(9), 0); });
        subs[sl[i]->at(1)] = s;
        guarded("warming up", [&] { freeze_to_string(s->o, 0); });
    }
    u64 nt = 0;
    for (size_t i = 0; i < tl.size(); ++i) nt = std::max(nt, tl[i]->at(0) % 4 + 1);
    if (!nt) return;
    std::vector<std::function<void()> > bodies;
    for (u64 t = 0; t < nt; ++t) bodies.push_back([&, t] { for (size_t i = 0; i < tl.size(); ++i) if (tl[i]->at(0) % 4 == t) attempt(*tl[i], subs); });
    std::vector<Switch> s, h; u64 first; get_switches(p, 0, s, h, first);
    run_threads(bodies, s, h, first);
    for (std::map<u64, Sub*>::iterator i = subs.begin(); i != subs.end(); ++i) { guarded("bystanders", [&] { check_some(i->second->o, i->second->m, 5, 10, "bystander"); }); i->second->o->destroy(); delete i->second; }
    heap_check("at the end");
}

// ---- C15 -------------------------------------------------------------------------------------------------
//  img k cfg kind var gen n seed p route align         a read-only image, shared by all threads
//  sl t slot op a seed kind var gen n seed p route     one step of a slot's life
enum { L_BUILD, L_MAP, L_SWAP, L_DISPOSE, L_CLEAR, L_ASSIGN, L_STEAL, L_DESTROY, L_FREEZE, L_QUERY, L_SELF, N_L };
static const char* const lnames[] = { "build", "map", "swap", "dispose", "clear", "assign", "steal", "destroy", "freeze", "query", "remap" };
struct Slot { Obj* o; u64 kind; std::shared_ptr<Model> m; bool mapped; Slot() : o(0), kind(0), mapped(false) {} };

static void gen15(Rng& r, Plan& p, u64 idx)
{
    gen_world(r, p);
    u64 nt = 1 + r.below(3), cfg = r.below(5) ? CFG_MAIN : 1 + r.below(2);
    p.set("cfg", cfg);
    u64 k1 = idx % N_KINDS, k2 = r.below(3) ? k1 : r.below(N_KINDS);
    u64 ni = 1 + r.below(3);
    for (u64 i = 0; i < ni; ++i) { u64 kind = r.below(3) ? k1 : k2; Spec s = pick_spec(r, kind, 2500); std::vector<u64> v; v.push_back(i); put_spec(v, s); v.push_back(r.below(route_count(kind))); v.push_back(r.below(3)); p.add("img", v); }
    gen_switches(r, p, 0, nt);
    for (u64 t = 0; t < nt; ++t) {
        u64 n = 2 + r.below(r.below(3) ? 8 : 24);
        for (u64 i = 0; i < n; ++i) {
            u64 kind = r.below(4) ? k1 : k2;
            u64 c = r.below(20), op = c < 4 ? L_BUILD : c < 8 ? L_MAP : c < 12 ? L_SWAP : c < 13 ? L_DISPOSE : c < 14 ? L_CLEAR : c < 15 ? L_ASSIGN : c < 16 ? L_STEAL : c < 17 ? L_DESTROY : c < 18 ? L_FREEZE : c < 19 ? L_QUERY : L_SELF;
            if (kind <= K_MV64 && r.below(4) == 0) op = L_CLEAR + r.below(3);
            Spec s = pick_spec(r, kind, r.below(4) ? 400 : 2500);
            if (r.below(10) == 0) s.n = 0;
            std::vector<u64> v; v.push_back(t); v.push_back(r.below(4)); v.push_back(op); v.push_back(r.below(8)); v.push_back(r.next() >> 30); put_spec(v, s); v.push_back(r.below(route_count(kind)));
            p.add("sl", v);
        }
    }
}
struct Img { std::shared_ptr<Model> m; std::string bytes; std::shared_ptr<ReadOnlyImage> ro; };
static void slot_check(Slot& s, u64 seed, u64 n, const char* ctx, std::map<u64, std::string> const& blank)
{
    if (!s.o) return;
    if (s.m) { check_some(s.o, *s.m, seed, n, ctx); return; }
    // empty: freezes like a fresh one
    if (s.kind <= K_MV64 || s.kind == K_BV) { Query q; q.op = Q_SIZE; Ans a; s.o->query(q, a); count(C_compared); if (a[0]) violation("not-empty", "%s: an emptied %s has %llu elements", ctx, kind_names[s.kind], (unsigned long long)a[0]); }
    char name[48]; snprintf(name, sizeof name, "/simdisk/z%d.img", cur_thread());
    s.o->freeze(name, 0);
    count(C_compared);
    if (blank.count(s.kind) && read_disk(name + 9) != blank.find(s.kind)->second) violation("not-empty", "%s: an emptied %s does not freeze like a fresh one", ctx, kind_names[s.kind]);
}
static void life_thread(Plan const& p, u64 t, u64 cfg, std::map<u64, Img> const& imgs, std::map<u64, std::string> const& blank)
{
    Slot sl[4];
    std::vector<Img> own; // images frozen here
    Factory* f = factory(cfg);
    for (size_t li = 0; li < p.lines.size(); ++li) {
        Line const& l = p.lines[li];
        if (l.verb != "sl" || l.at(0) % 4 != t) continue;
        Slot& s = sl[l.at(1) % 4];
        u64 op = l.at(2) % N_L, a = l.at(3), seed = l.at(4);
        Spec sp = spec_of(l, 5);
        if (sp.n > 20000) sp.n = 20000;
        where("thread %llu slot %llu: %s", (unsigned long long)t, (unsigned long long)(l.at(1) % 4), lnames[op]);
        event(0xF00 + op, l.at(1) % 4, a);
        guarded(lnames[op], [&] {
            if (op == L_BUILD || ((op == L_MAP || op == L_SWAP || op == L_ASSIGN || op == L_STEAL) && !s.o)) {
                if (s.o) s.o->destroy();
                s = Slot();
                std::shared_ptr<Model> m(new Model); m->make(sp);
                s.o = f->build(*m, l.at(11), 0); s.m = m; s.kind = sp.kind;
            }
            if (!s.o) return;
            switch (op) {
            case L_MAP: {
                Img const* im = 0;
                for (u64 k = 0; k < 8 && !im; ++k) { std::map<u64, Img>::const_iterator i = imgs.find((a + k) % 8); if (i != imgs.end() && i->second.m->sp.kind == s.kind) im = &i->second; }
                if ((a & 4) && !own.empty()) { Img const& c = own[seed % own.size()]; if (c.m->sp.kind == s.kind) im = &c; }
                if (!im) return;
                if (s.m && !s.mapped) count(C_p_swap_mixed);
                s.o->map(im->ro->base, a & 1); s.m = im->m; s.mapped = true; break; }
            case L_SWAP: {
                Slot& o = sl[(l.at(1) + 1 + a % 3) % 4];
                if (o.o && (o.kind != s.kind)) return;
                if (!o.o) { o.o = f->empty(s.kind); o.kind = s.kind; o.m.reset(); o.mapped = false; }
                if (o.mapped != s.mapped) count(C_p_swap_mixed);
                s.o->swap(*o.o); std::swap(s.m, o.m); std::swap(s.mapped, o.mapped);
                slot_check(o, seed + 1, 6, "swapped with", blank); break; }
            case L_DISPOSE: s.o->dispose(); s.m.reset(); s.mapped = false; break;
            case L_CLEAR: if (s.o->is_vector()) { s.o->v_clear(); s.m.reset(); s.mapped = false; } break;
            case L_ASSIGN: case L_STEAL: if (s.o->is_vector()) {
                std::shared_ptr<Model> m(new Model); sp.kind = s.kind; if ((a & 2) && s.m) sp.n = s.m->vals.size(); m->make(sp); // often as long as the present content
                if (op == L_ASSIGN) s.o->v_assign(*m, 0); else s.o->v_steal(*m);
                s.m = m; s.mapped = false; } break;
            case L_DESTROY: s.o->destroy(); s = Slot(); return;
            case L_FREEZE: {
                if (!s.m || own.size() > 6) return;
                char name[48]; snprintf(name, sizeof name, "/simdisk/o%llu.img", (unsigned long long)t);
                s.o->freeze(name, 0);
                Img im; im.m = s.m; im.bytes = read_disk(name + 9); im.ro.reset(new ReadOnlyImage(im.bytes.data(), im.bytes.size(), a % 3)); own.push_back(im); break; }
            case L_SELF: { // map over itself: onto the image of its own content
                if (!s.m) return;
                char name[48]; snprintf(name, sizeof name, "/simdisk/o%llu.img", (unsigned long long)t);
                if (own.size() > 6) return;
                s.o->freeze(name, 0);
                Img im; im.m = s.m; im.bytes = read_disk(name + 9); im.ro.reset(new ReadOnlyImage(im.bytes.data(), im.bytes.size(), a % 3)); own.push_back(im);
                s.o->map(im.ro->base, 0); s.mapped = true; break; }
            default: break;
            }
            slot_check(s, seed, op == L_QUERY ? 20 : 8, lnames[op], blank);
        });
    }
    where("thread %llu: last look", (unsigned long long)t);
    for (int i = 0; i < 4; ++i) guarded("last look", [&] { slot_check(sl[i], u64(i), 8, "last look", blank); });
    for (size_t i = 0; i < own.size(); ++i) if (!own[i].ro->intact(own[i].bytes.data())) violation("image-written", "mapped memory changed");
    if (p.cfg("heap", 0) & 1) for (size_t i = 0; i < own.size(); ++i) own[i].ro->unmap();
    for (int i = 0; i < 4; ++i) if (sl[i].o) sl[i].o->destroy();
}
static void run15(Plan const& p)
{
    apply_world(p, 0);
    u64 cfg = p.cfg("cfg", 0) % 3;
    std::map<u64, std::string> blank;
    std::map<u64, Img> imgs;
    std::vector<Line const*> il = lines_of(p, "img", 8);
    guarded("preparing", [&] {
        for (size_t i = 0; i < il.size(); ++i) {
            u64 k = il[i]->at(0) % 8;
            if (imgs.count(k)) continue;
            Img im; im.m.reset(new Model); Spec sp = spec_of(*il[i], 1); if (sp.n > 20000) sp.n = 20000; im.m->make(sp);
            Obj* o = factory(cfg)->build(*im.m, il[i]->at(7), 0);
            im.bytes = freeze_to_string(o, 0); o->destroy();
            im.ro.reset(new ReadOnlyImage(im.bytes.data(), im.bytes.size(), il[i]->at(8) % 3));
            imgs[k] = im;
        }
        for (size_t i = 0; i < p.lines.size(); ++i) if (p.lines[i].verb == "sl") { u64 k = p.lines[i].at(5) % N_KINDS; if (blank.count(k)) continue; Obj* o = factory(cfg)->empty(k); blank[k] = freeze_to_string(o, 0); o->destroy(); }
    });
    HeapStat h0 = heap_live();
    u64 nt = 0;
    std::vector<Line const*> l = lines_of(p, "sl");
    for (size_t i = 0; i < l.size(); ++i) nt = std::max(nt, l[i]->at(0) % 4 + 1);
    if (!nt) return;
    std::vector<std::function<void()> > bodies;
    for (u64 t = 0; t < nt; ++t) bodies.push_back([&, t] { life_thread(p, t, cfg, imgs, blank); });
    std::vector<Switch> s, h; u64 first; get_switches(p, 0, s, h, first);
    run_threads(bodies, s, h, first);
    for (std::map<u64, Img>::iterator i = imgs.begin(); i != imgs.end(); ++i) if (!i->second.ro->intact(i->second.bytes.data())) violation("image-written", "mapped memory changed");
    HeapStat h1 = heap_live();
    if (h1.blocks > h0.blocks) { // a cache, or lost: do it all again
        run_threads(bodies, s, h, first);
        if (heap_live().blocks > h1.blocks) violation("leak", "%lld blocks (%lld bytes) live after every object is gone", (long long)(h1.blocks - h0.blocks), (long long)(h1.bytes - h0.bytes));
    }
    heap_check("at the end");
}

const Scenario sc_c11 = { "C11", gen11, run11 };
const Scenario sc_c12 = { "C12", gen12, run12 };
const Scenario sc_c13 = { "C13", gen13, run13 };
const Scenario sc_c14 = { "C14", gen14, run14 };
const Scenario sc_c15 = { "C15", gen15, run15 };

} // namespace sim
