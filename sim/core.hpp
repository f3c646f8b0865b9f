// Simulator kernel: one run = one process in which every source of nondeterminism is owned here.
//  - thread interleaving (real threads, parked and released one at a time; preemption at instrumented steps)
//  - allocator (addresses, reuse, stale contents, failure)
//  - stale stack contents
//  - disk (open/write/close/mmap under the real ofstream and mapped_file_source)
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <functional>

namespace sim {

typedef uint64_t u64;

inline u64 mix64(u64 x) { x += 0x9E3779B97F4A7C15ULL; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL; return x ^ (x >> 31); }

struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s(mix64(seed ^ 0xD1B54A32D192ED03ULL)) {}
    u64 next() { s += 0x9E3779B97F4A7C15ULL; u64 z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    u64 range(u64 a, u64 b) { return a + below(b - a + 1); } // inclusive
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
};

// ---- plans: a list of lines, each a verb and numbers -------------------------------------------
struct Line { std::string verb; std::vector<u64> a;
    u64 at(size_t i, u64 d = 0) const { return i < a.size() ? a[i] : d; } };

struct Plan {
    std::string prop;
    std::vector<Line> lines;
    void add(const char* verb, std::vector<u64> const& args) { Line l; l.verb = verb; l.a = args; lines.push_back(l); }
    u64 cfg(const char* name, u64 dflt) const;      // "cfg.<name> value"
    void set(const char* name, u64 v);
    std::string text() const;
    static bool parse(std::string const& text, Plan& out);
};

// ---- counters -----------------------------------------------------------------------------------
#define SIM_COUNTERS(X) \
    X(runs) X(steps) X(switches) X(forced_switches) X(hot_switches) X(lib_calls) X(compared) \
    X(allocs) X(threads) X(lives) \
    X(f_alloc_fail) X(f_alloc_fail_persistent) X(f_short_write) X(f_eintr_write) X(f_enospc) X(f_eio_write) \
    X(f_open_fail) X(f_close_fail) X(f_crash) X(f_mmap_fail) X(f_seek_fail) X(f_stat_fail) X(f_short_read) X(f_stalled_read) X(f_read_error) \
    X(f_input_throw) X(f_streambuf_refuse) X(f_streambuf_throw) X(f_stale_memory) X(f_memory_reuse) X(f_guarded_heap) X(f_restart) X(f_unmapped) \
    X(f_preempt) X(f_retry) X(f_thread_stall) X(f_signal) X(f_nested_call) \
    X(p_hot_access) X(p_nonempty) X(p_large) X(p_superblocks) X(p_overflow_block) X(p_many_hints) X(p_wide_values) X(p_duplicates) \
    X(p_empty_subject) X(p_mapped_query) X(p_cursor_copy) X(p_take64_then_scan) X(p_retry_ok) X(p_partial_line) X(p_long_line) \
    X(p_multi_object) X(p_unaligned_image) X(p_prefix_crash) X(p_reported_failure) X(p_complete) X(p_xconfig) X(p_xrelease) \
    X(p_alloc_reached) X(p_swap_mixed) X(p_alt_build) X(p_builder_failed_op) X(p_self_check) X(p_shared_freeze) X(p_huge) X(p_long) X(p_giant_image) X(p_long_mapped) X(p_bounded) X(p_bound_quarter) X(p_work)
enum Counter {
#define X(n) C_##n,
    SIM_COUNTERS(X)
#undef X
    N_COUNTERS
};
extern const char* const counter_names[N_COUNTERS];

// ---- per-run results, in memory shared with the worker -------------------------------------------
struct Res {
    int status;                 // 0 = running, 1 = ok, 2 = violation, 3 = harness error
    char cls[160];
    char msg[2048];
    char where[512];
    u64 loghash, ilhash;
    u64 counters[N_COUNTERS];
    uint8_t edges[1 << 16];
};
extern Res* g_res;

void count(Counter c, u64 n = 1);
[[noreturn]] void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void harness_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void where(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void event(u64 a, u64 b = 0, u64 c = 0);            // into the run's event-log hash
extern bool g_verbose;

// ---- library scope: the code between these two runs "inside the system" ------------------------------
extern __thread int t_lib;
struct LibScope { LibScope() { ++t_lib; } ~LibScope() { --t_lib; } };
struct HarnessScope { int saved; HarnessScope() : saved(t_lib) { t_lib = 0; } ~HarnessScope() { t_lib = saved; } };
#define LIB(e) ([&]() -> decltype(auto) { ::sim::LibScope ls_; ::sim::count(::sim::C_lib_calls); return (e); }())
#define LIBV(s) do { ::sim::LibScope ls_; ::sim::count(::sim::C_lib_calls); s; } while (0)

// ---- heap ----------------------------------------------------------------------------------------
struct HeapStat { u64 blocks, bytes; };
void heap_config(u64 mode, u64 junk);               // mode 0 = never reuse, 1 = LIFO reuse, 2 = page guard
HeapStat heap_live();                               // library blocks live now
HeapStat heap_live_here();                          // of those, the ones this thread allocated
void heap_check(const char* when);                  // canaries, poison of freed blocks
void arm_alloc(u64 kth, bool persistent);           // this thread: fail the kth library allocation from now on
bool disarm_alloc();                                // true if it fired since armed
u64 allocs_seen();                                  // library allocations of this thread since armed/reset
void reset_allocs_seen();
// from here to work_end this thread may make so many steps (a copied or filled word is one too) and request so many bytes, and
// hold so many bytes more than now; else: violation "unbounded-work:<what>"
void work_begin(u64 steps, u64 bytes, u64 peak, const char* what);
void work_allow(u64 steps, u64 bytes, u64 peak);    // from work_begin on, other limits
void work_cancel();
struct Work { u64 steps, bytes, peak; };
Work work_end();
u64 heap_fill_word();
void* lib_alloc(size_t n);                          // library memory that never fails (what a caller provides)

// ---- threads --------------------------------------------------------------------------------------
struct Switch { u64 count, pick; };
void run_threads(std::vector<std::function<void()> > const& bodies, std::vector<Switch> const& steps,
                 std::vector<Switch> const& hot, u64 first);
void stall_plan(std::vector<u64> const& s);         // for the next run_threads: thread i stalls after s[i] own steps
// for the next run_threads: what interrupts thread i, in the order of the plan. The handler runs on the thread's own
// stack between two of its steps inside the library (hot: accesses to thread-local or shared memory are counted instead)
struct Signal { u64 hot, count, times, id; };
void signal_plan(std::vector<std::vector<Signal> > const& s, std::function<void(u64)> const& handler);
void small_stacks(bool on);                         // 96 KB
u64 own_steps();                                    // steps this thread made inside the library so far
int cur_thread();                                   // -1 outside run_threads
void yield_point();                                 // cooperative: lets the plan switch (I/O stalls)

// ---- process lives ---------------------------------------------------------------------------------
// Runs fn in a forked process (a fresh life of the program); returns when it ended normally;
// a violation or crash there ends this process the same way.
void run_life(std::function<void()> const& fn);

// Shared scratch that survives lives (the durable world): created by the run before the first life.
struct Durable { u64 len; uint8_t* data; };
void durable_init(size_t slots, size_t cap_each);
void durable_put(size_t slot, const void* p, size_t n);
Durable durable_get(size_t slot);

// ---- disk --------------------------------------------------------------------------------------------
struct DiskPlan {
    u64 cap;            // bytes the disk holds (~0 = unlimited): short write, then ENOSPC
    u64 crash_at;       // the process dies when this many bytes have been written (~0 = never)
    u64 open_fail;      // errno for the open (0 = none)
    u64 close_fail;     // errno for close (0 = none)
    u64 close_lose;     // bytes at the end that the failed close lost
    u64 mmap_fail;      // errno for mmap of the file (0 = none)
    u64 seek_fail;      // errno for positioning in the file (0 = none)
    u64 stat_fail;      // errno for asking its size (0 = none)
    std::vector<std::pair<u64, u64> > writes;   // per write call: (kind, arg); 1 = short to arg bytes, 2 = EINTR, 3 = EIO
    DiskPlan() : cap(~0ULL), crash_at(~0ULL), open_fail(0), close_fail(0), close_lose(0), mmap_fail(0), seek_fail(0), stat_fail(0) {}
};
void disk_reset();
void disk_plan(DiskPlan const& p);
void disk_put(const char* name, const void* p, size_t n);       // create a file under /simdisk/
bool disk_get(const char* name, std::string& out);
u64 disk_size(const char* name);
u64 disk_hash(const char* name);                                // for files too long to read
bool disk_crash_image(std::string& out);                        // what was in the file when the process died
bool disk_faulted();                                            // an error (not a retry) was delivered
int open_fds();
u64 files_opened();                                             // stdio handles on simulated files so far
u64 files_closed();
long maps_live();                                               // mappings of simulated files

void install_signal_handling();
void child_limits();
void heap_giant();         // single allocations of more than 1 GB succeed
void more_time();          // for the few runs over more than 2^32 bits

} // namespace sim
