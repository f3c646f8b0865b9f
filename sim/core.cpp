#include "core.hpp"
#include <atomic>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <map>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>
#include <dlfcn.h>

namespace sim {

const char* const counter_names[N_COUNTERS] = {
#define X(n) #n,
    SIM_COUNTERS(X)
#undef X
};

Res* g_res = 0;
bool g_verbose = false;
__thread int t_lib = 0;
static __thread int t_id = -1;          // simulated thread id
static __thread u64 t_alloc_seen = 0, t_alloc_fail = 0;
static __thread bool t_alloc_persist = false, t_alloc_fired = false;
static bool g_mt = false;               // simulated threads are running
static u64 g_steps = 0;
static u64 g_step_limit = 400ULL * 1000 * 1000;

void count(Counter c, u64 n) { if (g_res) g_res->counters[c] += n; }

void event(u64 a, u64 b, u64 c)
{
    if (!g_res) return;
    g_res->loghash = mix64(g_res->loghash ^ mix64(a * 3 + 1) ^ mix64(b * 5 + 2) ^ mix64(c * 7 + 3));
    if (g_verbose) { char buf[160]; int n = snprintf(buf, sizeof buf, "ev t%d %llx %llx %llx\n", t_id,
        (unsigned long long)a, (unsigned long long)b, (unsigned long long)c); (void)!syscall(SYS_write, 2, buf, n); }
}

void where(const char* fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    if (g_res) vsnprintf(g_res->where, sizeof g_res->where, fmt, ap);
    va_end(ap);
    if (g_verbose && g_res) { char buf[600]; int n = snprintf(buf, sizeof buf, "-- t%d %s\n", t_id, g_res->where); (void)!syscall(SYS_write, 2, buf, n); }
}

static void vreport(int status, const char* cls, const char* fmt, va_list ap)
{
    if (g_res && g_res->status < 2) {
        g_res->status = status;
        snprintf(g_res->cls, sizeof g_res->cls, "%s", cls);
        vsnprintf(g_res->msg, sizeof g_res->msg, fmt, ap);
    }
    syscall(SYS_exit_group, status == 2 ? 99 : 98);
    for (;;) {}
}
void violation(const char* cls, const char* fmt, ...) { va_list ap; va_start(ap, fmt); vreport(2, cls, fmt, ap); va_end(ap); abort(); }
void harness_error(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vreport(3, "harness", fmt, ap); va_end(ap); abort(); }

// ------------------------------------------------------------------------------------------------
// plans
// ------------------------------------------------------------------------------------------------
u64 Plan::cfg(const char* name, u64 dflt) const
{
    std::string v = std::string("cfg.") + name;
    for (size_t i = 0; i < lines.size(); ++i) if (lines[i].verb == v) return lines[i].at(0, dflt);
    return dflt;
}
void Plan::set(const char* name, u64 v) { add((std::string("cfg.") + name).c_str(), std::vector<u64>(1, v)); }
std::string Plan::text() const
{
    std::string o = "plan " + prop + "\n";
    for (size_t i = 0; i < lines.size(); ++i) {
        o += lines[i].verb;
        for (size_t j = 0; j < lines[i].a.size(); ++j) o += " " + std::to_string(lines[i].a[j]);
        o += "\n";
    }
    return o;
}
bool Plan::parse(std::string const& text, Plan& out)
{
    out = Plan();
    size_t i = 0;
    bool first = true;
    while (i < text.size()) {
        size_t e = text.find('\n', i);
        if (e == std::string::npos) e = text.size();
        std::string l = text.substr(i, e - i);
        i = e + 1;
        if (l.empty() || l[0] == '#') continue;
        std::vector<std::string> tok;
        size_t p = 0;
        while (p < l.size()) {
            size_t q = l.find(' ', p);
            if (q == std::string::npos) q = l.size();
            if (q > p) tok.push_back(l.substr(p, q - p));
            p = q + 1;
        }
        if (tok.empty()) continue;
        if (first) { if (tok[0] != "plan" || tok.size() < 2) return false; out.prop = tok[1]; first = false; continue; }
        Line ln; ln.verb = tok[0];
        for (size_t k = 1; k < tok.size(); ++k) ln.a.push_back(strtoull(tok[k].c_str(), 0, 10));
        out.lines.push_back(ln);
    }
    return !first;
}

// ------------------------------------------------------------------------------------------------
// heap: library allocations live in an arena at a fixed address, one region per simulated thread
// ------------------------------------------------------------------------------------------------
static const uintptr_t ARENA = 0x100000000000ULL;
static const u64 REGION = 1ULL << 34;
static const int NREG = 10;             // 0 = main, t + 1 = simulated thread t
static const u64 BIG = 64u << 20, GIANT = 1ULL << 32;
static const u64 MAGIC_LIVE = 0x51C0FFEE51C0FFEEULL, MAGIC_FREE = 0xDEADF9EEDEADF9EEULL;

struct Hdr { u64 magic; u64 size; u64 total; Hdr* prev; u64 mode; Hdr* next_free; }; // 48 bytes, payload 16-aligned

static bool g_arena = false;
static u64 g_alloc_max = 1ULL << 30;
void heap_giant() { g_alloc_max = 6ULL << 30; }
static u64 g_heap_mode = 0, g_junk = 0xCDCDCDCDCDCDCDCDULL;
struct Reg { uintptr_t cur; Hdr* last; Hdr* freelist[64]; };
static Reg g_reg[NREG];
static HeapStat g_live[NREG];
static u64 g_peak[NREG];
static __thread u64 t_init = 0;         // depth of one-time initialisations of this thread; their memory stays for good

static void arena_init()
{
    if (g_arena) return;
    void* p = (void*)syscall(SYS_mmap, (void*)ARENA, REGION * NREG, PROT_READ | PROT_WRITE,
                             MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)ARENA) { static const char m[] = "arena mmap failed\n"; (void)!syscall(SYS_write, 2, m, sizeof m); _exit(97); }
    for (int i = 0; i < NREG; ++i) { memset(&g_reg[i], 0, sizeof g_reg[i]); g_reg[i].cur = ARENA + REGION * u64(i); }
    g_arena = true;
}
u64 heap_fill_word() { return g_junk; }
static inline bool in_arena(const void* p) { return (uintptr_t)p - ARENA < REGION * NREG; }

void heap_config(u64 mode, u64 junk)
{
    arena_init();
    g_heap_mode = mode; g_junk = junk;
    count(C_f_stale_memory);
    if (mode == 1) count(C_f_memory_reuse);
    if (mode == 2) count(C_f_guarded_heap);
}

static inline void fill(void* p, u64 n, u64 w) { uint8_t* b = (uint8_t*)p; u64 i = 0; for (; i + 8 <= n; i += 8) memcpy(b + i, &w, 8);
    for (; i < n; ++i) b[i] = (uint8_t)(w >> (8 * (i % 8))); }
static inline bool filled(const void* p, u64 n, u64 w) { const uint8_t* b = (const uint8_t*)p; u64 i = 0; u64 x;
    for (; i + 8 <= n; i += 8) { memcpy(&x, b + i, 8); if (x != w) return false; }
    for (; i < n; ++i) if (b[i] != (uint8_t)(w >> (8 * (i % 8)))) return false; return true; }
static const u64 CANARY = 0xC3A5C3A5C3A5C3A5ULL, POISON = 0xFDFDFDFDFDFDFDFDULL;

static void* arena_alloc(u64 n)
{
    arena_init();
    int r = t_id + 1;
    Reg& g = g_reg[r];
    u64 pay = (n + 15) & ~15ULL;
    if (!pay) pay = 16;
    Hdr* h = 0;
    u64 mode = g_heap_mode;
    if (mode == 2 && pay > (1u << 22)) mode = 0;
    int cls = (int)(pay / 16 < 64 ? pay / 16 : 0);
    if (mode == 1 && cls && g.freelist[cls]) {
        h = g.freelist[cls];
        g.freelist[cls] = h->next_free;
        if (h->magic != MAGIC_FREE || !filled(h + 1, h->total, POISON))
            violation("heap:write-after-free", "a freed block of %llu bytes was written before its reuse", (unsigned long long)h->size);
        h->magic = MAGIC_LIVE;
    } else {
        uintptr_t at;
        if (mode == 2) {
            uintptr_t start = (g.cur + 4095) & ~4095ULL;
            u64 span = (sizeof(Hdr) + pay + 4095) & ~4095ULL;
            at = start + span - pay - sizeof(Hdr);
            g.cur = start + span + 4096;
            if (syscall(SYS_mprotect, start + span, 4096, PROT_NONE)) harness_error("mprotect failed");
        } else {
            at = g.cur;
            g.cur += sizeof(Hdr) + pay + 32;
        }
        if (g.cur > ARENA + REGION * u64(r + 1)) { // simulated machine is out of memory
            violation("heap:exhausted", "more than %llu bytes requested", (unsigned long long)REGION);
        }
        h = (Hdr*)at;
        h->prev = g.last; g.last = h; h->total = pay; h->mode = mode; h->magic = MAGIC_LIVE;
        if (mode != 2) fill((char*)(h + 1) + pay, 32, CANARY);
    }
    h->size = n; h->next_free = t_init ? h : 0;
    if (n < GIANT) fill(h + 1, n, g_junk);      // else: fresh zero pages
    else syscall(SYS_madvise, ((uintptr_t)(h + 1) + 4095) & ~4095ULL, n & ~4095ULL, MADV_HUGEPAGE);
    fill((char*)(h + 1) + n, h->total - n, CANARY);
    if (!t_init) { g_live[r].blocks++; g_live[r].bytes += n; }
    if (g_live[r].bytes > g_peak[r]) g_peak[r] = g_live[r].bytes;
    return h + 1;
}

static void check_block(Hdr* h, const char* when)
{
    if (!filled((char*)(h + 1) + h->size, h->total - h->size, CANARY) ||
        (h->mode != 2 && !filled((char*)(h + 1) + h->total, 32, CANARY)))
        violation("heap:overrun", "%s: memory past a block of %llu bytes was overwritten", when, (unsigned long long)h->size);
}

static void arena_free(void* p)
{
    Hdr* h = (Hdr*)p - 1;
    int r = (int)(((uintptr_t)p - ARENA) / REGION);
    if (h->magic == MAGIC_FREE) violation("heap:double-free", "a block of %llu bytes was released twice", (unsigned long long)h->size);
    if (h->magic != MAGIC_LIVE) violation("heap:bad-free", "memory that is not an allocated block was released");
    check_block(h, "on release");
    if (h->next_free != h) { g_live[r].blocks--; g_live[r].bytes -= h->size; }
    h->next_free = 0;
    if (h->mode == 2) {
        h->magic = MAGIC_FREE;
        uintptr_t start = (uintptr_t)h & ~4095ULL;
        uintptr_t end = ((uintptr_t)(h + 1) + h->total + 4095) & ~4095ULL;
        // keep the header page readable (it is shared with the payload only when the payload is small):
        // make everything inaccessible but remember the links first
        Hdr* prev = h->prev;
        Reg& g = g_reg[r];
        if (g.last == h) g.last = prev;
        else { for (Hdr* q = g.last; q; q = q->prev) if (q->prev == h) { q->prev = prev; break; } }
        if (syscall(SYS_mprotect, start, end - start, PROT_NONE)) harness_error("mprotect failed");
        return;
    }
    h->magic = MAGIC_FREE;
    if (h->total >= BIG) { // hand the pages back; a later access is caught by the hardware
        h->mode = 3;
        uintptr_t a = ((uintptr_t)(h + 1) + 4095) & ~4095ULL, b = ((uintptr_t)(h + 1) + h->total) & ~4095ULL;
        syscall(SYS_madvise, a, b - a, MADV_DONTNEED);
        if (syscall(SYS_mprotect, a, b - a, PROT_NONE)) harness_error("mprotect failed");
        return;
    }
    fill(h + 1, h->total, POISON);
    int cls = (int)(h->total / 16 < 64 ? h->total / 16 : 0);
    if (g_heap_mode == 1 && cls) { h->next_free = g_reg[r].freelist[cls]; g_reg[r].freelist[cls] = h; }
}

static void set_own_stop(u64 at);
struct WorkState { bool on; u64 own0, steps, bytes, max_bytes, live0, peak; char what[80]; };
static WorkState g_work[NREG];
static void work_over(const char* of, u64 got, u64 max)
{
    WorkState& w = g_work[t_id + 1];
    w.on = false;
    char cls[128]; snprintf(cls, sizeof cls, "unbounded-work:%s", w.what);
    violation(cls, "%s took %llu %s of its own thread and goes on, more than %llu", w.what, (unsigned long long)got, of, (unsigned long long)max);
}
void work_begin(u64 steps, u64 bytes, u64 peak, const char* what)
{
    WorkState& w = g_work[t_id + 1];
    w.on = true; w.own0 = own_steps(); w.steps = steps; set_own_stop(w.own0 + steps + 1); w.bytes = 0; w.max_bytes = bytes; w.live0 = g_live[t_id + 1].bytes; w.peak = peak;
    snprintf(w.what, sizeof w.what, "%s", what);
    g_peak[t_id + 1] = w.live0;
}
void work_allow(u64 steps, u64 bytes, u64 peak)
{
    WorkState& w = g_work[t_id + 1];
    w.steps = steps; w.max_bytes = bytes; w.peak = peak; set_own_stop(w.own0 + steps + 1);
}
void work_cancel() { g_work[t_id + 1].on = false; set_own_stop(~u64(0)); }
Work work_end()
{
    WorkState& w = g_work[t_id + 1];
    w.on = false; set_own_stop(~u64(0));
    Work r; r.steps = own_steps() - w.own0; r.bytes = w.bytes; r.peak = g_peak[t_id + 1] - w.live0;
    if (r.steps > w.steps) work_over("steps", r.steps, w.steps);
    if (r.peak > w.peak) work_over("bytes at once", r.peak, w.peak);
    return r;
}
HeapStat heap_live() { HeapStat s = { 0, 0 }; for (int i = 0; i < NREG; ++i) { s.blocks += g_live[i].blocks; s.bytes += g_live[i].bytes; } return s; }
HeapStat heap_live_here() { return g_live[t_id + 1]; }

void heap_check(const char* when)
{
    if (!g_arena) return;
    for (int r = 0; r < NREG; ++r)
        for (Hdr* h = g_reg[r].last; h; h = h->prev) {
            if (h->magic == MAGIC_LIVE) check_block(h, when);
            else if (h->magic == MAGIC_FREE) {
                if (h->mode != 3 && !filled(h + 1, h->total, POISON))
                    violation("heap:write-after-free", "%s: a released block of %llu bytes was written", when, (unsigned long long)h->size);
            } else violation("heap:overrun", "%s: a block header was overwritten", when);
        }
}

void arm_alloc(u64 kth, bool persistent) { t_alloc_fail = kth; t_alloc_persist = persistent; t_alloc_fired = false; t_alloc_seen = 0; }
bool disarm_alloc() { bool f = t_alloc_fired; t_alloc_fail = 0; t_alloc_fired = false; return f; }
u64 allocs_seen() { return t_alloc_seen; }
void reset_allocs_seen() { t_alloc_seen = 0; }

static void* do_new(size_t n, bool nothrow)
{
    if (!t_lib) {
        void* p = malloc(n ? n : 1);
        if (!p) harness_error("out of memory in the harness");
        return p;
    }
    ++t_alloc_seen;
    count(C_allocs);
    WorkState& w = g_work[t_id + 1];
    if (w.on && (w.bytes += n) > w.max_bytes) work_over("bytes of memory", w.bytes, w.max_bytes);
    bool fail = false;
    if (t_alloc_fail && (t_alloc_seen == t_alloc_fail || (t_alloc_persist && t_alloc_seen > t_alloc_fail))) {
        fail = true;
        count(t_alloc_persist ? C_f_alloc_fail_persistent : C_f_alloc_fail);
    }
    if (n > g_alloc_max) fail = true; // the simulated machine has 1 GB per request
    if (fail) {
        t_alloc_fired = true;
        if (nothrow) return 0;
        throw std::bad_alloc();
    }
    return arena_alloc(n);
}
void* lib_alloc(size_t n) { return arena_alloc(n); }
static void do_delete(void* p)
{
    if (!p) return;
    if (in_arena(p)) arena_free(p); else free(p);
}

// ------------------------------------------------------------------------------------------------
// threads
// ------------------------------------------------------------------------------------------------
static const uintptr_t STACKS = 0x180000000000ULL;
static const u64 STACK_SIZE = 1u << 20;
static const u64 STACK_STRIDE = STACK_SIZE + 4096;     // an inaccessible page below each stack
static const u64 STACK_FILL = 160u << 10;
static const u64 SMALL_STACK = 96u << 10;
static const int MAX_THR = NREG - 1;
enum { RUNNABLE, STALLED, DONE };
struct Thr { std::atomic<int> go; int state; u64 stall_left; int init_depth; bool stall_due; pthread_t th; const std::function<void()>* body; int idx; };
static Thr g_thr[MAX_THR];
static int g_nthr = 0, g_cur = -1;
static std::atomic<int> g_main_go;
static std::vector<Switch> g_sl, g_hl;
static size_t g_sp, g_hp;
static u64 g_sleft, g_hleft;
static u64 g_since_switch = 0;
static u64 g_blocked_spins = 0;
static std::vector<u64> g_stalls;       // per thread: own steps until it stalls (0 = never)
static bool g_small_stacks = false;
static int g_nstalled = 0;
static u64 g_stall_limit = 0;           // others must have finished by this step
static const u64 STALL_BOUND = 60ULL * 1000 * 1000;
void stall_plan(std::vector<u64> const& s) { g_stalls = s; }
void small_stacks(bool on) { g_small_stacks = on; }

static void fwait(std::atomic<int>& f) { while (f.load(std::memory_order_acquire) == 0) syscall(SYS_futex, &f, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0); f.store(0, std::memory_order_relaxed); }
static void fwake(std::atomic<int>& f) { f.store(1, std::memory_order_release); syscall(SYS_futex, &f, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

int cur_thread() { return t_id; }

static int pick_runnable(u64 pick, bool exclude_self)
{
    int n = 0, list[MAX_THR];
    for (int i = 0; i < g_nthr; ++i) if (g_thr[i].state == RUNNABLE && !(exclude_self && i == g_cur)) list[n++] = i;
    if (!n) return -1;
    return list[pick % u64(n)];
}
static void note_switch(int from, int to, u64 tag)
{
    count(C_switches);
    g_since_switch = 0;
    if (g_res) g_res->ilhash = mix64(g_res->ilhash ^ mix64(u64(from) * 131 + u64(to) * 17 + (tag << 12)));
    event(0x5317C4, u64(from) << 8 | u64(to), tag);
}
static void switch_to(int next, u64 tag)
{
    if (next < 0 || next == g_cur) return;
    int me = g_cur;
    note_switch(me, next, tag);
    g_cur = next;
    fwake(g_thr[next].go);
    fwait(g_thr[me].go);
}
static u64 g_last_edge = 0;
static inline void advance_s() { ++g_sp; g_sleft = g_sp < g_sl.size() ? g_sl[g_sp].count : 0; }
static inline void advance_h() { ++g_hp; g_hleft = g_hp < g_hl.size() ? g_hl[g_hp].count : 0; }

// the thread is held by the operating system until every other one is done (or stalled too)
static void resume_stalled(int i) { g_thr[i].state = RUNNABLE; if (--g_nstalled == 0) g_stall_limit = 0; }
static void do_stall()
{
    Thr& me = g_thr[g_cur];
    if (me.init_depth) { me.stall_due = true; return; }     // one-time initialisation: the language makes others wait
    me.stall_due = false;
    int next = pick_runnable(0, true);
    if (next < 0) return;
    count(C_f_thread_stall); event(0x57A11, u64(g_cur));
    me.state = STALLED;
    ++g_nstalled;
    g_stall_limit = g_steps + STALL_BOUND;
    switch_to(next, 5);
}

// interruptions: between two steps of a thread a handler runs on its stack
struct SigState { std::vector<Signal> l[2]; size_t at[2]; u64 left[2], times[2]; int depth; uintptr_t tls; };
static SigState g_sig[MAX_THR];
static bool g_sig_on = false;
static std::function<void(u64)> g_sig_fn;
void signal_plan(std::vector<std::vector<Signal> > const& s, std::function<void(u64)> const& fn)
{
    g_sig_on = false;
    for (int i = 0; i < MAX_THR; ++i) {
        SigState& g = g_sig[i];
        for (int h = 0; h < 2; ++h) {
            g.l[h].clear(); g.at[h] = 0; g.depth = 0;
            if (size_t(i) < s.size()) for (size_t k = 0; k < s[size_t(i)].size(); ++k) if (s[size_t(i)][k].count && (s[size_t(i)][k].hot & 1) == u64(h)) g.l[h].push_back(s[size_t(i)][k]);
            g.left[h] = g.l[h].empty() ? 0 : g.l[h][0].count; g.times[h] = 0;
            if (g.left[h]) g_sig_on = true;
        }
    }
    g_sig_fn = fn;
}
static void deliver(SigState& g, int h);
static inline void sig_tick(int h)
{
    SigState& g = g_sig[t_id];
    if (g.left[h] && g.depth < 2 && --g.left[h] == 0) deliver(g, h);
}

static void step_slow_s()
{
    u64 pick = g_sl[g_sp].pick;
    advance_s();
    count(C_f_preempt);
    switch_to(pick_runnable(pick, true), g_last_edge);
}
static __thread u64 t_own = 0;          // steps of this thread
static __thread u64 t_own_stop = ~u64(0);
static void own_stop()
{
    WorkState& w = g_work[t_id + 1];
    if (w.on && !t_init && t_own - w.own0 > w.steps) work_over("steps", t_own - w.own0, w.steps);
}
u64 own_steps() { return t_own; }
static void set_own_stop(u64 at) { t_own_stop = at; }
static void deliver(SigState& g, int h)
{
    if (t_init || g_thr[t_id].init_depth) { g.left[h] = 1; return; }    // one-time initialisation: after it
    Signal s = g.l[h][g.at[h]];
    if (++g.times[h] < s.times) g.left[h] = s.count;
    else { ++g.at[h]; g.times[h] = 0; g.left[h] = g.at[h] < g.l[h].size() ? g.l[h][g.at[h]].count : 0; }
    u64 own = t_own, seen = t_alloc_seen, fail = t_alloc_fail; bool pers = t_alloc_persist, fired = t_alloc_fired; int err = errno;
    t_alloc_fail = 0; t_alloc_persist = false;
    ++g.depth;
    count(C_f_signal); event(0x516A1, u64(t_id) << 8 | u64(g.depth), s.id);
    { HarnessScope hs; g_sig_fn(s.id); }
    --g.depth;
    t_own = own; t_alloc_seen = seen; t_alloc_fail = fail; t_alloc_persist = pers; t_alloc_fired = fired; errno = err;
}
static inline void step()
{
    ++g_steps; ++t_own;
    if (__builtin_expect(g_steps > g_step_limit, 0))
        violation("no-progress", "more than %llu steps without finishing", (unsigned long long)g_step_limit);
    if (__builtin_expect(t_own >= t_own_stop, 0)) own_stop();
    if (!g_mt || t_id < 0) return;
    if (__builtin_expect(g_sig_on, 0)) sig_tick(0);
    if (__builtin_expect(--g_thr[g_cur].stall_left == 0, 0)) do_stall();
    if (__builtin_expect(g_nstalled && g_steps > g_stall_limit, 0))
        violation("held-up", "a thread makes no progress while another one is stalled");
    if (g_sleft && --g_sleft == 0) { step_slow_s(); return; }
    if (__builtin_expect(++g_since_switch > 3000000, 0)) {
        g_since_switch = 0;
        count(C_forced_switches);
        switch_to(pick_runnable(u64(g_cur), true), 1);
    }
}

// addresses that simulated threads wrote and that are not private to one of them
static const size_t HOTCAP = 1 << 14;
static uintptr_t g_hot[HOTCAP];
static size_t g_nhot = 0;
static inline size_t hot_slot(uintptr_t k) { return mix64(k) & (HOTCAP - 1); }
static bool hot_has(uintptr_t k) { if (!g_nhot) return false; for (size_t i = hot_slot(k); g_hot[i]; i = (i + 1) & (HOTCAP - 1)) if (g_hot[i] == k) return true; return false; }
static void hot_add(uintptr_t k) { if (g_nhot > HOTCAP / 2) return; size_t i = hot_slot(k); for (; g_hot[i]; i = (i + 1) & (HOTCAP - 1)) if (g_hot[i] == k) return; g_hot[i] = k; ++g_nhot; }

static inline bool is_tls(uintptr_t p)
{
    return p > g_sig[t_id].tls && p < STACKS + 4096 + u64(t_id) * STACK_STRIDE + STACK_SIZE;
}
static inline bool is_private(uintptr_t p)
{
    uintptr_t s = STACKS + 4096 + u64(t_id) * STACK_STRIDE;
    if (p - s < STACK_SIZE) return true;
    uintptr_t a = ARENA + REGION * u64(t_id + 1);
    return p - a < REGION;
}
static void hot_event()
{
    count(C_p_hot_access);
    if (g_sig_on) sig_tick(1);
    if (g_hleft && --g_hleft == 0) {
        u64 pick = g_hl[g_hp].pick;
        advance_h();
        count(C_f_preempt);
        count(C_hot_switches);
        switch_to(pick_runnable(pick, true), 2);
    }
}
static inline void access(void* p, bool store)
{
    if (!t_lib) return;
    step();
    if (!g_mt || t_id < 0) return;
    if (__builtin_expect(g_sig_on, 0) && is_tls((uintptr_t)p)) sig_tick(1);
    if (store) {
        if (is_private((uintptr_t)p)) return;
        hot_add((uintptr_t)p >> 3);
        hot_event();
    } else if (g_nhot) {
        if (hot_has((uintptr_t)p >> 3)) hot_event();
    }
}

// what the library copies or fills in one call: accesses, and work by the word
void bulk(const void* d, bool store, const void* s, size_t n)
{
    if (!t_lib || !n) return;
    if (s) access(const_cast<void*>(s), false);
    if (d) access(const_cast<void*>(d), store);
    t_own += n / 8;
}
void yield_point()
{
    if (t_id < 0 || !g_mt) return;
    ++t_lib; step(); --t_lib;
}

// a blocking primitive found its resource taken: let another thread run
static void block_yield()
{
    if (t_id < 0 || !g_mt) { syscall(SYS_sched_yield); return; }
    if (++g_blocked_spins > 200000) violation("deadlock", "every simulated thread is blocked or spinning on a lock");
    int next = -1;
    for (int d = 1; d < g_nthr; ++d) { int i = (g_cur + d) % g_nthr; if (g_thr[i].state == RUNNABLE) { next = i; break; } }
    if (next < 0 && g_nstalled) violation("held-up", "a thread waits for a lock that a stalled thread holds");
    if (next < 0) violation("deadlock", "the last runnable thread waits for a lock no one will release");
    switch_to(next, 3);
}

static __thread u64 t_own_at = 0;
static void init_enter() { if (!t_init++) t_own_at = t_own;
    if (t_id >= 0 && g_mt) ++g_thr[t_id].init_depth; }
static void init_leave() { if (t_init && --t_init == 0) t_own = t_own_at; // done once, not work of this call
    if (t_id >= 0 && g_mt && g_thr[t_id].init_depth && --g_thr[t_id].init_depth == 0 && g_thr[t_id].stall_due) g_thr[t_id].stall_left = 1; }

static void* thr_main(void* arg)
{
    Thr* me = (Thr*)arg;
    t_id = me->idx;
    static char alt[MAX_THR][1 << 16];
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt[t_id]; ss.ss_size = sizeof alt[0];
    sigaltstack(&ss, 0);
    g_sig[t_id].tls = (uintptr_t)__builtin_frame_address(0) + 16;
    fwait(me->go);
    (*me->body)();
    if (t_lib) harness_error("thread ended inside the library scope");
    me->state = DONE;
    // hand over
    int next = -1;
    for (int d = 1; d <= g_nthr; ++d) { int i = (me->idx + d) % g_nthr; if (g_thr[i].state == RUNNABLE) { next = i; break; } }
    if (next < 0 && g_nstalled) for (int i = 0; i < g_nthr; ++i) if (g_thr[i].state == STALLED) { resume_stalled(i); next = i; break; }
    if (next >= 0) { note_switch(me->idx, next, 4); g_cur = next; fwake(g_thr[next].go); }
    else { g_cur = -1; fwake(g_main_go); }
    return 0;
}

void run_threads(std::vector<std::function<void()> > const& bodies, std::vector<Switch> const& steps,
                 std::vector<Switch> const& hot, u64 first)
{
    if (bodies.empty()) return;
    if (bodies.size() > size_t(MAX_THR)) harness_error("too many threads");
    arena_init();
    static bool stacks = false;
    if (!stacks) {
        void* p = (void*)syscall(SYS_mmap, (void*)STACKS, 4096 + STACK_STRIDE * MAX_THR, PROT_NONE,
                                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != (void*)STACKS) harness_error("stack mmap failed");
        for (int i = 0; i < MAX_THR; ++i) if (syscall(SYS_mprotect, STACKS + 4096 + u64(i) * STACK_STRIDE, STACK_SIZE, PROT_READ | PROT_WRITE)) harness_error("mprotect failed");
        stacks = true;
    }
    g_nthr = (int)bodies.size();
    g_sl = steps; g_hl = hot; g_sp = g_hp = 0;
    g_sleft = g_sl.empty() ? 0 : g_sl[0].count;
    g_hleft = g_hl.empty() ? 0 : g_hl[0].count;
    g_since_switch = 0; g_blocked_spins = 0; g_last_edge = 0; g_nstalled = 0; g_stall_limit = 0;
    memset(g_hot, 0, sizeof g_hot); g_nhot = 0;
    for (int i = 0; i < g_nthr; ++i) {
        uint8_t* st = (uint8_t*)(STACKS + 4096 + u64(i) * STACK_STRIDE);
        u64 sz = g_small_stacks ? SMALL_STACK : STACK_SIZE;     // a small one has its guard page right below
        if (g_small_stacks) syscall(SYS_mprotect, st + STACK_SIZE - SMALL_STACK - 4096, 4096, PROT_NONE);
        else syscall(SYS_mprotect, st, STACK_SIZE, PROT_READ | PROT_WRITE);
        fill(st + STACK_SIZE - std::min(sz, STACK_FILL), std::min(sz, STACK_FILL), g_junk);
        g_thr[i].go.store(0); g_thr[i].state = RUNNABLE; g_thr[i].stall_left = size_t(i) < g_stalls.size() ? g_stalls[size_t(i)] : 0; g_thr[i].init_depth = 0; g_thr[i].stall_due = false; g_thr[i].body = &bodies[i]; g_thr[i].idx = i;
        pthread_attr_t at; pthread_attr_init(&at);
        pthread_attr_setstack(&at, st + STACK_SIZE - sz, sz);
        if (pthread_create(&g_thr[i].th, &at, thr_main, &g_thr[i])) harness_error("pthread_create failed");
        pthread_attr_destroy(&at);
    }
    count(C_threads, u64(g_nthr));
    g_main_go.store(0);
    g_mt = true;
    g_cur = int(first % u64(g_nthr));
    fwake(g_thr[g_cur].go);
    fwait(g_main_go);
    g_mt = false;
    for (int i = 0; i < g_nthr; ++i) pthread_join(g_thr[i].th, 0);
    g_nthr = 0; g_stalls.clear(); g_sig_on = false; g_sig_fn = nullptr;
    count(C_steps, g_steps); g_steps = 0;
}

// ------------------------------------------------------------------------------------------------
// lives and the durable world
// ------------------------------------------------------------------------------------------------
static uint8_t* g_dur = 0;
static size_t g_dur_slots = 0, g_dur_cap = 0;

void durable_init(size_t slots, size_t cap)
{
    g_dur_slots = slots; g_dur_cap = (cap + 4095 + 16) & ~size_t(4095);
    g_dur = (uint8_t*)syscall(SYS_mmap, 0, slots * g_dur_cap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (g_dur == (uint8_t*)-1) harness_error("durable mmap failed");
}
void durable_put(size_t s, const void* p, size_t n)
{
    if (s >= g_dur_slots || n + 16 > g_dur_cap) harness_error("durable slot %zu too small for %zu bytes", s, n);
    uint8_t* d = g_dur + s * g_dur_cap;
    u64 len = n; memcpy(d, &len, 8); memcpy(d + 16, p, n);
}
Durable durable_get(size_t s)
{
    if (s >= g_dur_slots) harness_error("no durable slot %zu", s);
    uint8_t* d = g_dur + s * g_dur_cap;
    Durable r; memcpy(&r.len, d, 8); r.data = d + 16; return r;
}

void run_life(std::function<void()> const& fn)
{
    count(C_lives);
    pid_t pid = fork();
    if (pid < 0) harness_error("fork failed");
    if (!pid) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        alarm(190);
        fn();
        syscall(SYS_exit_group, 0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
    if (WIFEXITED(st)) syscall(SYS_exit_group, WEXITSTATUS(st));
    if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); }
    harness_error("life ended strangely: %d", st);
}

static void on_signal(int sig)
{
    if (g_res && g_res->status < 2) {
        g_res->status = 2;
        snprintf(g_res->cls, sizeof g_res->cls, "crash:%s", sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" :
                 sig == SIGILL ? "SIGILL" : sig == SIGXCPU ? "cpu-limit" : sig == SIGALRM ? "hang" : "SIGABRT");
        snprintf(g_res->msg, sizeof g_res->msg, "the process got signal %d", sig);
    }
    syscall(SYS_exit_group, 99);
}
void install_signal_handling()
{
    static char alt[1 << 16];
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt;
    sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
    int sigs[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGXCPU, SIGALRM };
    for (size_t i = 0; i < sizeof sigs / sizeof *sigs; ++i) sigaction(sigs[i], &sa, 0);
}
void child_limits()
{
    struct rlimit rl; rl.rlim_cur = 40; rl.rlim_max = 160;
    setrlimit(RLIMIT_CPU, &rl);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    alarm(200);
}
void more_time()
{
    struct rlimit rl; rl.rlim_cur = 150; rl.rlim_max = 160;
    setrlimit(RLIMIT_CPU, &rl);
    g_step_limit = 4000ULL * 1000 * 1000;
}

// ------------------------------------------------------------------------------------------------
// disk
// ------------------------------------------------------------------------------------------------
struct SimFile { int fd; };         // memfd holding the content
static std::map<std::string, SimFile>* g_files = 0;
struct FdInfo { bool used, was; bool writer; std::string name; };
static FdInfo* g_fds = 0;
static const int MAXFD = 1024;
static DiskPlan* g_disk = 0;
static u64 g_written = 0, g_wcall = 0;
static bool g_crashed = false, g_faulted = false, g_crash_after_error = false;
static std::string* g_crash_img = 0;
static const char PFX[] = "/simdisk/";

static bool is_sim(const char* p) { return p && !strncmp(p, PFX, sizeof PFX - 1); }

static std::string slurp_fd(int fd)
{
    std::string o; char buf[65536]; off_t at = 0;
    for (;;) { ssize_t n = pread(fd, buf, sizeof buf, at); if (n <= 0) break; o.append(buf, size_t(n)); at += n; }
    return o;
}
static int new_memfd() { int fd = (int)syscall(SYS_memfd_create, "simfile", 0); if (fd < 0) harness_error("memfd_create failed"); 
    int hi = fcntl(fd, F_DUPFD, 200); if (hi >= 0) { syscall(SYS_close, fd); fd = hi; } return fd; }

void disk_reset()
{
    HarnessScope hs;
    if (!g_files) { g_files = new std::map<std::string, SimFile>; g_fds = new FdInfo[MAXFD](); g_disk = new DiskPlan; g_crash_img = new std::string; }
    for (std::map<std::string, SimFile>::iterator i = g_files->begin(); i != g_files->end(); ++i) syscall(SYS_close, i->second.fd);
    g_files->clear();
    *g_disk = DiskPlan(); g_written = g_wcall = 0; g_crashed = g_faulted = false; g_crash_img->clear();
}
void disk_plan(DiskPlan const& p) { if (!g_files) disk_reset(); *g_disk = p; g_written = g_wcall = 0; g_crashed = g_faulted = false; g_crash_img->clear(); }
void disk_put(const char* name, const void* p, size_t n)
{
    if (!g_files) disk_reset();
    HarnessScope hs;
    SimFile f;
    if (g_files->count(name)) { f = (*g_files)[name]; if (ftruncate(f.fd, 0)) {} } else f.fd = new_memfd();
    size_t at = 0;
    while (at < n) { ssize_t w = pwrite(f.fd, (const char*)p + at, n - at, (off_t)at); if (w <= 0) harness_error("memfd write failed"); at += size_t(w); }
    (*g_files)[name] = f;
}
bool disk_get(const char* name, std::string& out)
{
    if (!g_files || !g_files->count(name)) return false;
    HarnessScope hs;
    out = slurp_fd((*g_files)[name].fd);
    return true;
}
u64 disk_size(const char* name)
{
    if (!g_files || !g_files->count(name)) return 0;
    struct stat st; if (syscall(SYS_fstat, (*g_files)[name].fd, &st)) return 0;
    return (u64)st.st_size;
}
// hash of the non-zero content and its places, without reading the holes
u64 disk_hash(const char* name)
{
    if (!g_files || !g_files->count(name)) return 0;
    HarnessScope hs;
    int fd = (*g_files)[name].fd;
    u64 h = 0; off_t end = (off_t)disk_size(name), at = 0;
    std::vector<u64> buf(8192);
    while (at < end) {
        off_t d = (off_t)syscall(SYS_lseek, fd, at, SEEK_DATA);
        if (d < 0) break;
        off_t e = (off_t)syscall(SYS_lseek, fd, d, SEEK_HOLE);
        d &= ~(off_t)65535;
        for (; d < e; d += 65536) {
            memset(&buf[0], 0, 65536);
            ssize_t n = pread(fd, &buf[0], 65536, d);
            if (n <= 0) break;
            for (size_t i = 0; i < 8192; ++i) if (buf[i]) h = mix64(h ^ mix64((u64)d + 8 * i) ^ buf[i]);
        }
        at = d > e ? d : e;
    }
    return h;
}
// what an already failed stream writes afterwards is up to the stream, not to the library
bool disk_crash_image(std::string& out) { if (!g_crashed || g_crash_after_error) return false; out = *g_crash_img; return true; }
bool disk_faulted() { return g_faulted; }

int open_fds()
{
    int n = 0;
    for (int i = 0; i < 200; ++i) if (fcntl(i, F_GETFD) >= 0) ++n;
    return n;
}

// opens a simulated file: a private descriptor on the same memfd
static int sim_open(const char* path, bool write, bool trunc)
{
    HarnessScope hs;
    if (!g_files) disk_reset();
    std::string name(path + sizeof PFX - 1);
    if (g_disk->open_fail) { count(C_f_open_fail); g_faulted = true; errno = (int)g_disk->open_fail; event(0xF0, g_disk->open_fail); return -1; }
    if (!g_files->count(name)) {
        if (!write) { errno = ENOENT; return -1; }
        SimFile f; f.fd = new_memfd(); (*g_files)[name] = f;
    }
    SimFile& f = (*g_files)[name];
    if (write && trunc && ftruncate(f.fd, 0)) {}
    char proc[64]; snprintf(proc, sizeof proc, "/proc/self/fd/%d", f.fd);
    int fd = (int)syscall(SYS_openat, AT_FDCWD, proc, write ? O_RDWR : O_RDONLY, 0);
    if (fd < 0) { fd = dup(f.fd); if (fd >= 0) lseek(fd, 0, SEEK_SET); }
    if (fd < 0 || fd >= MAXFD) harness_error("cannot open simulated file");
    g_fds[fd].used = true; g_fds[fd].writer = write; g_fds[fd].name = name;
    return fd;
}

struct MapOf { char* first; size_t second; int fd; };    // a mapping and the memfd behind it
static std::vector<MapOf>* g_maps = 0;
static bool is_hole(const char* p, size_t n)
{
    if (!g_maps) return false;
    for (size_t i = 0; i < g_maps->size(); ++i) {
        MapOf& m = (*g_maps)[i];
        if (p < m.first || p + n > m.first + m.second) continue;
        off_t d = (off_t)syscall(SYS_lseek, m.fd, p - m.first, SEEK_DATA);
        return d < 0 ? errno == ENXIO : d >= p - m.first + (off_t)n;
    }
    return false;
}
// stores n bytes at the end of the file; long stretches of zeros become holes
static void store_sparse(int fd, const char* p, size_t n)
{
    static const char zero[65536] = { 0 };
    for (size_t at = 0; at < n;) {
        size_t c = std::min<size_t>(sizeof zero, n - at);
        if (!is_hole(p + at, c) && memcmp(p + at, zero, c)) {
            for (size_t d = 0; d < c;) { ssize_t w = (ssize_t)syscall(SYS_write, fd, p + at + d, c - d); if (w <= 0) harness_error("memfd write"); d += size_t(w); }
        } else syscall(SYS_lseek, fd, (off_t)c, SEEK_CUR);
        at += c;
    }
    off_t pos = (off_t)syscall(SYS_lseek, fd, 0, SEEK_CUR);
    struct stat st;
    if (!syscall(SYS_fstat, fd, &st) && st.st_size < pos && ftruncate(fd, pos)) harness_error("ftruncate failed");
}
static ssize_t sim_write(int fd, const char* p, size_t n)
{
    HarnessScope hs;
    u64 k = g_wcall++;
    size_t allow = std::min<size_t>(n, 0x7ffff000);     // as the system does
    yield_point();
    if (k < g_disk->writes.size()) {
        u64 kind = g_disk->writes[k].first, arg = g_disk->writes[k].second;
        if (kind == 2) { count(C_f_eintr_write); event(0xF2, k); errno = EINTR; return -1; }
        if (kind == 3) { count(C_f_eio_write); g_faulted = true; event(0xF3, k); errno = EIO; return -1; }
        if (kind == 1) { u64 lim = arg ? arg : 1; if (lim < allow) { allow = lim; count(C_f_short_write); event(0xF1, k, lim); } }
    }
    if (g_written + allow > g_disk->cap) {
        u64 left = g_disk->cap > g_written ? g_disk->cap - g_written : 0;
        if (!left) { count(C_f_enospc); g_faulted = true; event(0xF4, k); errno = ENOSPC; return -1; }
        allow = left; count(C_f_short_write);
    }
    if (!g_crashed && g_written + allow > g_disk->crash_at) {
        u64 part = g_disk->crash_at - g_written;
        size_t at = 0;
        while (at < part) { ssize_t w = (ssize_t)syscall(SYS_write, fd, p + at, part - at); if (w <= 0) harness_error("memfd write"); at += size_t(w); }
        *g_crash_img = slurp_fd((*g_files)[g_fds[fd].name].fd);
        g_crashed = true; g_crash_after_error = g_faulted; count(C_f_crash); event(0xF5, k, g_disk->crash_at);
        p += part; 
        u64 rest = allow - part; at = 0;
        while (at < rest) { ssize_t w = (ssize_t)syscall(SYS_write, fd, p + at, rest - at); if (w <= 0) harness_error("memfd write"); at += size_t(w); }
        g_written += allow;
        return (ssize_t)allow;
    }
    size_t at = 0;
    if (allow >= (8u << 20)) { store_sparse(fd, p, allow); at = allow; }
    while (at < allow) { ssize_t w = (ssize_t)syscall(SYS_write, fd, p + at, allow - at); if (w <= 0) harness_error("memfd write"); at += size_t(w); }
    g_written += allow;
    return (ssize_t)allow;
}

// stdio handles on simulated files: each is closed exactly once
static FILE* g_open_files[64]; static FILE* g_closed_files[64]; static int g_nclosed = 0;
static u64 g_fopened = 0, g_fclosed = 0;
static void file_opened(FILE* f)
{
    if (!f) return;
    ++g_fopened;
    for (int i = 0; i < 64; ++i) if (g_closed_files[i] == f) g_closed_files[i] = 0;
    for (int i = 0; i < 64; ++i) if (!g_open_files[i]) { g_open_files[i] = f; return; }
    harness_error("too many open files");
}
static void file_closing(FILE* f)
{
    for (int i = 0; i < 64; ++i) if (g_open_files[i] == f) { g_open_files[i] = 0; g_closed_files[g_nclosed++ % 64] = f; ++g_fclosed; return; }
    for (int i = 0; i < 64; ++i) if (f && g_closed_files[i] == f) violation("double-close", "a file was closed twice");
}
u64 files_opened() { return g_fopened; }
u64 files_closed() { return g_fclosed; }
long maps_live() { return g_maps ? (long)g_maps->size() : 0; }
static void close_lost(int fd)          // the error at close time came from data that could not be stored
{
    HarnessScope hs;
    if (!g_fds[fd].writer || !g_files->count(g_fds[fd].name)) return;
    int m = (*g_files)[g_fds[fd].name].fd;
    struct stat st; if (fstat(m, &st)) return;
    u64 lose = g_disk->close_lose < (u64)st.st_size ? g_disk->close_lose : (u64)st.st_size;
    if (lose && ftruncate(m, (off_t)((u64)st.st_size - lose))) {}
}

static bool sim_fd(int fd) { return g_fds && fd >= 0 && fd < MAXFD && g_fds[fd].used; }

} // namespace sim

// ------------------------------------------------------------------------------------------------
// replaced and interposed functions
// ------------------------------------------------------------------------------------------------
void* operator new(size_t n) { return sim::do_new(n, false); }
void* operator new[](size_t n) { return sim::do_new(n, false); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return sim::do_new(n, true); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { return sim::do_new(n, true); }
void operator delete(void* p) noexcept { sim::do_delete(p); }
void operator delete[](void* p) noexcept { sim::do_delete(p); }
void operator delete(void* p, size_t) noexcept { sim::do_delete(p); }
void operator delete[](void* p, size_t) noexcept { sim::do_delete(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { sim::do_delete(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { sim::do_delete(p); }

extern "C" {

void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop)
{
    static uint32_t n = 0;
    if (start == stop || *start) return;
    for (uint32_t* x = start; x < stop; ++x) *x = ++n;
}
void __sanitizer_cov_trace_pc_guard(uint32_t* g)
{
    if (!sim::t_lib) return;
    if (sim::g_res) sim::g_res->edges[*g & 0xFFFF] = 1;
    sim::g_last_edge = *g;
    sim::step();
}
#define ACC(n) void __sanitizer_cov_load##n(void* p) { sim::access(p, false); } void __sanitizer_cov_store##n(void* p) { sim::access(p, true); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
#undef ACC

// blocking primitives: never block for real inside the simulation
int pthread_mutex_lock(pthread_mutex_t* m) { int r; while ((r = pthread_mutex_trylock(m)) == EBUSY) sim::block_yield(); sim::g_blocked_spins = 0; return r; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { int r; while ((r = pthread_rwlock_tryrdlock(m)) == EBUSY) sim::block_yield(); sim::g_blocked_spins = 0; return r; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { int r; while ((r = pthread_rwlock_trywrlock(m)) == EBUSY) sim::block_yield(); sim::g_blocked_spins = 0; return r; }
int pthread_spin_lock(pthread_spinlock_t* m) { int r; while ((r = pthread_spin_trylock(m)) == EBUSY) sim::block_yield(); sim::g_blocked_spins = 0; return r; }

int pthread_once(pthread_once_t* c, void (*fn)(void))
{
    volatile int* s = (volatile int*)c;
    for (;;) {
        if (*s == 2) return 0;
        if (*s == 0) { *s = 1; sim::init_enter(); try { fn(); } catch (...) { *s = 0; sim::init_leave(); throw; } *s = 2; sim::init_leave(); sim::g_blocked_spins = 0; return 0; }
        sim::block_yield();
    }
}
int __cxa_guard_acquire(uint64_t* g)
{
    volatile char* b = (volatile char*)g;
    for (;;) {
        if (b[0]) return 0;
        if (!b[1]) { b[1] = 1; sim::init_enter(); sim::g_blocked_spins = 0; return 1; }
        sim::block_yield();
    }
}
void __cxa_guard_release(uint64_t* g) { volatile char* b = (volatile char*)g; b[0] = 1; b[1] = 0; sim::init_leave(); }
void __cxa_guard_abort(uint64_t* g) { volatile char* b = (volatile char*)g; b[1] = 0; sim::init_leave(); }
int sched_yield(void) noexcept { if (sim::t_lib) sim::block_yield(); else syscall(SYS_sched_yield); return 0; }

void __assert_fail(const char* expr, const char* file, unsigned line, const char* fn) noexcept
{
    (void)line; (void)fn;
    const char* s = strrchr(file, '/');
    sim::violation("assert", "assertion failed in %s: %s", s ? s + 1 : file, expr);
}

// disk
FILE* fopen64(const char* path, const char* mode)
{
    static FILE* (*real)(const char*, const char*) = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen64");
    if (!sim::is_sim(path)) return real(path, mode);
    bool w = strpbrk(mode, "wa+") != 0, tr = strchr(mode, 'w') != 0;
    int fd = sim::sim_open(path, w, tr);
    if (fd < 0) return 0;
    if (strchr(mode, 'a')) lseek(fd, 0, SEEK_END);
    FILE* f = fdopen(fd, mode);
    sim::file_opened(f);
    return f;
}
FILE* fopen(const char* path, const char* mode) { return fopen64(path, mode); }
FILE* fopencookie(void* c, const char* mode, cookie_io_functions_t io) noexcept
{
    static FILE* (*real)(void*, const char*, cookie_io_functions_t) = (FILE* (*)(void*, const char*, cookie_io_functions_t))dlsym(RTLD_NEXT, "fopencookie");
    FILE* f = real(c, mode, io);
    if (f) for (int i = 0; i < 64; ++i) if (sim::g_closed_files[i] == f) sim::g_closed_files[i] = 0;     // another one, at the same address
    return f;
}
int fclose(FILE* f)
{
    static int (*real)(FILE*) = (int (*)(FILE*))dlsym(RTLD_NEXT, "fclose");
    sim::file_closing(f);
    int fd = fileno(f);
    bool s = sim::sim_fd(fd);
    int r = real(f);        // flushes through write() below
    if (s) { sim::g_fds[fd].used = false; sim::g_fds[fd].was = true; }
    if (s && sim::g_disk->close_fail) {
        sim::close_lost(fd); sim::count(sim::C_f_close_fail); sim::g_faulted = true; sim::event(0xF6); errno = (int)sim::g_disk->close_fail; return EOF; }
    return r;
}
int open64(const char* path, int flags, ...)
{
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
    if (!sim::is_sim(path)) return (int)syscall(SYS_openat, AT_FDCWD, path, flags, m);
    return sim::sim_open(path, (flags & O_ACCMODE) != O_RDONLY, flags & O_TRUNC);
}
int open(const char* path, int flags, ...)
{
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
    return open64(path, flags, m);
}
int rename(const char* a, const char* b)
{
    if (!sim::is_sim(a) || !sim::is_sim(b)) return (int)syscall(SYS_rename, a, b);
    sim::HarnessScope hs;
    std::string x(a + sizeof sim::PFX - 1), y(b + sizeof sim::PFX - 1);
    if (!sim::g_files || !sim::g_files->count(x)) { errno = ENOENT; return -1; }
    (*sim::g_files)[y] = (*sim::g_files)[x]; sim::g_files->erase(x);
    return 0;
}
int unlink(const char* a)
{
    if (!sim::is_sim(a)) return (int)syscall(SYS_unlink, a);
    sim::HarnessScope hs;
    if (!sim::g_files || !sim::g_files->erase(a + sizeof sim::PFX - 1)) { errno = ENOENT; return -1; }
    return 0;
}
int remove(const char* a) { return unlink(a); }
int close(int fd)
{
    if (sim::sim_fd(fd)) { sim::g_fds[fd].used = false; sim::g_fds[fd].was = true; }
    int r = (int)syscall(SYS_close, fd);
    if (r && errno == EBADF && sim::g_fds && fd >= 0 && fd < sim::MAXFD && sim::g_fds[fd].was) sim::violation("double-close", "a file descriptor was closed twice");
    return r;
}
#define SEEKS(f, fd, ret) if (sim::sim_fd(fd) && sim::g_disk->seek_fail) { sim::count(sim::C_f_seek_fail); sim::g_faulted = true; sim::event(0xFA); errno = (int)sim::g_disk->seek_fail; return ret; }
#define REAL(ret, name, args) static ret (*real) args = (ret (*) args)dlsym(RTLD_NEXT, #name)
int fseek(FILE* f, long o, int w) { REAL(int, fseek, (FILE*, long, int)); SEEKS(f, fileno(f), -1) return real(f, o, w); }
int fseeko(FILE* f, off_t o, int w) { REAL(int, fseeko, (FILE*, off_t, int)); SEEKS(f, fileno(f), -1) return real(f, o, w); }
int fseeko64(FILE* f, off64_t o, int w) { REAL(int, fseeko64, (FILE*, off64_t, int)); SEEKS(f, fileno(f), -1) return real(f, o, w); }
long ftell(FILE* f) { REAL(long, ftell, (FILE*)); SEEKS(f, fileno(f), -1) return real(f); }
off_t ftello(FILE* f) { REAL(off_t, ftello, (FILE*)); SEEKS(f, fileno(f), -1) return real(f); }
off_t lseek(int fd, off_t o, int w) noexcept { SEEKS(0, fd, (off_t)-1) return (off_t)syscall(SYS_lseek, fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) noexcept { SEEKS(0, fd, (off64_t)-1) return (off64_t)syscall(SYS_lseek, fd, o, w); }
#define STATS(fd) if (sim::sim_fd(fd) && sim::g_disk->stat_fail) { sim::count(sim::C_f_stat_fail); sim::g_faulted = true; sim::event(0xFB); errno = (int)sim::g_disk->stat_fail; return -1; }
int fstat(int fd, struct stat* st) noexcept { STATS(fd) return (int)syscall(SYS_fstat, fd, st); }
int fstat64(int fd, struct stat64* st) noexcept { STATS(fd) return (int)syscall(SYS_fstat, fd, st); }
int munmap(void* a, size_t n) noexcept
{
    if (sim::g_maps) { sim::HarnessScope hs; for (size_t i = 0; i < sim::g_maps->size(); ++i) if ((*sim::g_maps)[i].first == (char*)a) { sim::g_maps->erase(sim::g_maps->begin() + (ptrdiff_t)i); break; } }
    return (int)syscall(SYS_munmap, a, n);
}
ssize_t write(int fd, const void* p, size_t n) { if (sim::sim_fd(fd)) return sim::sim_write(fd, (const char*)p, n); return syscall(SYS_write, fd, p, n); }
ssize_t writev(int fd, const struct iovec* v, int cnt)
{
    if (!sim::sim_fd(fd)) return syscall(SYS_writev, fd, v, cnt);
    sim::HarnessScope hs;
    std::string all;
    sim::u64 total = 0;
    for (int i = 0; i < cnt; ++i) total += v[i].iov_len;
    if (total > (64u << 20)) { // one piece after the other
        ssize_t done = 0;
        for (int i = 0; i < cnt; ++i) { if (!v[i].iov_len) continue; ssize_t w = sim::sim_write(fd, (const char*)v[i].iov_base, v[i].iov_len); if (w < 0) return done ? done : w; done += w; if ((size_t)w < v[i].iov_len) break; }
        return done;
    }
    for (int i = 0; i < cnt; ++i) all.append((const char*)v[i].iov_base, v[i].iov_len);
    return sim::sim_write(fd, all.data(), all.size());
}
static void* do_mmap(void* a, size_t n, int prot, int fl, int fd, off_t off)
{
    if (sim::sim_fd(fd) && sim::g_disk->mmap_fail) { sim::count(sim::C_f_mmap_fail); sim::g_faulted = true; sim::event(0xF7); errno = (int)sim::g_disk->mmap_fail; return MAP_FAILED; }
    void* r = (void*)syscall(SYS_mmap, a, n, prot, fl, fd, off);
    if (sim::sim_fd(fd) && r != MAP_FAILED) { sim::HarnessScope hs; if (!sim::g_maps) sim::g_maps = new std::vector<sim::MapOf>; sim::MapOf m = { (char*)r, n, (*sim::g_files)[sim::g_fds[fd].name].fd }; sim::g_maps->push_back(m); }
    return r;
}
void* mmap64(void* a, size_t n, int prot, int fl, int fd, off_t off) { return do_mmap(a, n, prot, fl, fd, off); }
void* mmap(void* a, size_t n, int prot, int fl, int fd, off_t off) { return do_mmap(a, n, prot, fl, fd, off); }

// the calls the instrumented objects make to these (build.py renames them there)
void* sim_memcpy(void* d, const void* s, size_t n) { sim::bulk(d, true, s, n); return memcpy(d, s, n); }
void* sim_memmove(void* d, const void* s, size_t n) { sim::bulk(d, true, s, n); return memmove(d, s, n); }
void* sim_memset(void* d, int c, size_t n) { sim::bulk(d, true, 0, n); return memset(d, c, n); }
int sim_memcmp(const void* a, const void* b, size_t n) { sim::bulk(a, false, b, n); return memcmp(a, b, n); }
int sim_bcmp(const void* a, const void* b, size_t n) { sim::bulk(a, false, b, n); return memcmp(a, b, n); }
void* sim_memchr(const void* a, int c, size_t n) { void* r = (void*)memchr(a, c, n); sim::bulk(a, false, 0, r ? size_t((char*)r - (char*)a) + 1 : n); return r; }
size_t sim_strlen(const char* a) { size_t n = strlen(a); sim::bulk(a, false, 0, n + 1); return n; }
} // extern "C"
