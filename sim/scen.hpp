#pragma once
#include "subjects.hpp"
#include <map>
#include <memory>
#include <string.h>
#include <algorithm>

namespace sim {

struct Scenario {
    const char* prop;
    void (*gen)(Rng& r, Plan& p, u64 index);
    void (*run)(Plan const& p);
};
extern const Scenario scenarios[];
extern const size_t n_scenarios;

// ---- helpers shared by the scenarios ----------------------------------------------------------------
std::string ans_text(Ans const& a);
void compare(Model const& m, Query const& q, Ans const& want, Ans const& got, const char* ctx);
// one query resolved from raw numbers; false if there is no such query
bool check_query(Obj* o, Model const& m, u64 op, u64 a, u64 b, u64 c, const char* ctx);
extern bool g_bound_steps;                                      // C21: bound the steps of queries and cursors
u64 query_bound(Model const& m, Query const& q, Ans const& want);
u64 cursor_bound(Model const& m, u64 walk);                     // walk: words or elements it moves over
void bounded(u64 steps, u64 limit, Model const& m, const char* what, const char* ctx);
void check_some(Obj* o, Model const& m, u64 seed, u64 n, const char* ctx);      // n queries derived from a seed
void check_all(Obj* o, Model const& m, u64 seed, const char* ctx);               // every kind of query at many places

Spec spec_of(Line const& l, size_t at);                         // kind var gen n seed p
void put_spec(std::vector<u64>& v, Spec const& s);

void gen_switches(Rng& r, Plan& p, u64 e, u64 nthr);
void get_switches(Plan const& p, u64 e, std::vector<Switch>& s, std::vector<Switch>& h, u64& first);
void gen_world(Rng& r, Plan& p);                                // heap mode, stale memory
void apply_world(Plan const& p, u64 salt);                      // salt: another life has other memory contents

std::string read_disk(const char* name);
std::string freeze_to_string(Obj* o, u64* reported);            // through an ofstream on the simulated disk, no faults

struct ReadOnlyImage {                                          // image bytes in read-only memory, guard pages around
    char* base; size_t len; char* region; size_t region_len;
    ReadOnlyImage(const void* p, size_t n, u64 align_mode);
    ~ReadOnlyImage();
    void unmap();
    bool intact(const void* p) const { return base && !memcmp(base, p, len); }
};

struct ObjPtr {                                                 // owning
    Obj* p;
    ObjPtr(Obj* q = 0) : p(q) {}
    ObjPtr(ObjPtr&& o) : p(o.p) { o.p = 0; }
    ObjPtr& operator=(ObjPtr&& o) { if (p) p->destroy(); p = o.p; o.p = 0; return *this; }
    ~ObjPtr() { if (p) p->destroy(); }
    void reset() { if (p) p->destroy(); p = 0; }
    Obj* operator->() const { return p; }
};

template <typename F> void guarded(const char* ctx, F f)       // no exception expected
{
    try { f(); }
    catch (InputError&) { t_lib = 0; violation("unexpected-exception", "%s: input error although none was injected", ctx); }
    catch (std::bad_alloc&) { t_lib = 0; violation("unexpected-exception:bad_alloc", "%s: bad_alloc although no allocation was made to fail", ctx); }
    catch (std::exception& e) { t_lib = 0; violation("unexpected-exception", "%s: %s", ctx, e.what()); }
    catch (...) { t_lib = 0; violation("unexpected-exception", "%s: unknown exception", ctx); }
}

// readers (scen_readers.cpp)
struct Sub { Model m; Obj* o; u64 cfg; std::string image; Sub() : o(0), cfg(0) {} };
struct CurPair { LibCursor* l; MCursor m; Sub* s; CurPair() : l(0), s(0) {} };
void reader_thread(Plan const& p, u64 e, u64 t, std::map<u64, Sub*>& subs, std::map<u64, CurPair>& protos);
void need_images(Plan const& p, u64 e, std::map<u64, Sub*>& subs);
void gen_shared_use(Rng& r, Plan& p, u64 e, unsigned frz, unsigned mp);
void run_reader_phase(Plan const& p, u64 e, std::map<u64, Sub*>& subs);
void gen_readers(Rng& r, Plan& p, u64 const* kinds, size_t nk, unsigned cursor_pct, unsigned alloc_pct, u64 cap, bool large = false);
void run_readers(Plan const& p);
void insert_line(Rng& r, Plan& p, u64 e, const char* verb, std::vector<u64> const& v);
u64 n_threads(Plan const& p, u64 e);
struct Last { u64 sub, op; Last() : sub(0), op(0) {} };           // what a thread is asking just now
extern Last g_last[8];
bool nest_line(Line const& l, std::map<u64, Sub*>& subs);       // scen_nest.cpp
void plan_signals(Plan const& p, u64 e, u64 nt, std::map<u64, Sub*>& subs);
// reader lines for nt threads over subjects 0..ns-1
void gen_reader_lines(Rng& r, Plan& p, u64 e, u64 nt, std::vector<u64> const& ids, u64 fav, unsigned cursor_pct, unsigned alloc_pct, u64 nproto, u64 maxops);

// more than 2^32 bits (scen_huge.cpp): 0 bits, 1 rank/select, 2 select directory, 3 parentheses, 4 builder
void gen_huge(Rng& r, Plan& p, u64 which, u64 log2 = 0);
bool run_huge(Plan const& p);

extern const Scenario sc_c01, sc_c02, sc_c03, sc_c04, sc_c05, sc_c06, sc_c07, sc_c08, sc_c09, sc_c10, sc_c11, sc_c12, sc_c13, sc_c14, sc_c15, sc_c19, sc_c20, sc_c21, sc_c22, sc_c23;

} // namespace sim
