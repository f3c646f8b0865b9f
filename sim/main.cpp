// gen <prop> <seed>            print the plan of a seed
// replay <file> [-v]           run a plan file (in a fresh child process), print the outcome
// work <prop> <base> <start> <step> <count> <seconds> <hashfile>   run seeds, print failures and totals
#include "scen.hpp"
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

using namespace sim;

static const Scenario* find(std::string const& p) { for (size_t i = 0; i < n_scenarios; ++i) if (p == scenarios[i].prop) return &scenarios[i]; return 0; }

static u64 seed_of(u64 base, u64 idx) { return mix64(mix64(base) ^ (idx * 0x9E3779B97F4A7C15ULL)); }
static Plan make_plan(const Scenario* s, u64 seed, u64 idx) { Plan p; p.prop = s->prop; Rng r(seed); s->gen(r, p, idx); return p; }

static void esc(std::string& o, const char* s) { for (; *s; ++s) { if (*s == '"' || *s == '\\') { o += '\\'; o += *s; } else if ((unsigned char)*s < 32) o += ' '; else o += *s; } }

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + 1e-9 * double(t.tv_nsec); }

static void run_child(const Scenario* s, Plan const& p)
{
    memset((void*)g_res, 0, sizeof *g_res);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(97); }
    if (!pid) {
        install_signal_handling();
        child_limits();
        count(C_runs);
        s->run(p);
        if (g_res->status == 0) g_res->status = 1;
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (g_res->status == 0 || (g_res->status == 1 && st != 0)) {
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { g_res->status = 3; snprintf(g_res->cls, sizeof g_res->cls, "killed"); }
        else { g_res->status = 2; snprintf(g_res->cls, sizeof g_res->cls, "crash:ended-%s-%d", WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)); snprintf(g_res->msg, sizeof g_res->msg, "the simulated process ended by itself"); }
    }
}

static std::string outcome(u64 seed, u64 idx)
{
    std::string o = "{\"seed\":\"" + std::to_string(seed) + "\",\"index\":" + std::to_string(idx) + ",\"status\":" + std::to_string(g_res->status) + ",\"cls\":\"";
    esc(o, g_res->cls); o += "\",\"msg\":\""; esc(o, g_res->msg); o += "\",\"where\":\""; esc(o, g_res->where);
    char b[80]; snprintf(b, sizeof b, "\",\"hash\":\"%016llx\",\"il\":\"%016llx\"}", (unsigned long long)g_res->loghash, (unsigned long long)g_res->ilhash);
    return o + b;
}

int main(int argc, char** argv)
{
    if (argc < 3) return 97;
    g_res = (Res*)mmap(0, sizeof(Res), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void*)g_res, 0, sizeof *g_res);
    for (int c = 0; c < 3; ++c) factory(u64(c));
    factory(3);
    std::string mode = argv[1];
    if (mode == "gen" || mode == "genidx") {
        const Scenario* s = find(argv[2]); if (!s || argc < 4) return 97;
        u64 seed = strtoull(argv[3], 0, 10), idx = argc > 4 ? strtoull(argv[4], 0, 10) : 0;
        if (mode == "genidx") seed = seed_of(seed, idx);
        fputs(make_plan(s, seed, idx).text().c_str(), stdout);
        return 0;
    }
    if (mode == "replay") {
        // many files may be given: one outcome per line
        for (int i = 2; i < argc; ++i) {
            std::string f = argv[i];
            if (f == "-v") { g_verbose = true; continue; }
            std::string t; FILE* in = fopen(f.c_str(), "rb"); if (!in) { perror("open"); return 97; }
            char buf[4096]; size_t n; while ((n = fread(buf, 1, sizeof buf, in)) > 0) t.append(buf, n); fclose(in);
            Plan p; if (!Plan::parse(t, p)) { fprintf(stderr, "bad plan\n"); return 97; }
            const Scenario* s = find(p.prop); if (!s) return 97;
            run_child(s, p);
            printf("%s\n", outcome(0, 0).c_str()); fflush(stdout);
        }
        return 0;
    }
    if (mode == "work") {
        if (argc < 9) return 97;
        const Scenario* s = find(argv[2]); if (!s) return 97;
        u64 base = strtoull(argv[3], 0, 10), start = strtoull(argv[4], 0, 10), step = strtoull(argv[5], 0, 10), cnt = strtoull(argv[6], 0, 10);
        double secs = atof(argv[7]);
        int maxfail = argc > 9 ? atoi(argv[9]) : 3;
        bool all = argc > 10;   // print every outcome (determinism test)
        int ncpu = (int)sysconf(_SC_NPROCESSORS_ONLN);
        cpu_set_t cs, have; CPU_ZERO(&have); sched_getaffinity(0, sizeof have, &have);
        int k = (int)(start % u64(ncpu)), seen = 0;
        for (int c = 0; c < CPU_SETSIZE; ++c) if (CPU_ISSET(c, &have)) { if (seen == k % CPU_COUNT(&have)) { CPU_ZERO(&cs); CPU_SET(c, &cs); sched_setaffinity(0, sizeof cs, &cs); break; } ++seen; }
        static u64 tot[N_COUNTERS]; static u64 runs_with[N_COUNTERS]; static uint8_t edges[1 << 16];
        std::unordered_set<u64> il, hist;
        double t0 = now(); u64 done = 0, nontriv = 0, last = 0; int fails = 0;
        for (u64 i = 0; i < cnt; ++i) {
            if (now() - t0 > secs) break;
            u64 idx = start + i * step, seed = seed_of(base, idx);
            last = idx;
            Plan p = make_plan(s, seed, idx);
            run_child(s, p);
            ++done;
            for (int c = 0; c < N_COUNTERS; ++c) { tot[c] += g_res->counters[c]; if (g_res->counters[c]) runs_with[c]++; }
            const u64* ew = (const u64*)g_res->edges; u64* tw = (u64*)edges; for (size_t e = 0; e < sizeof edges / 8; ++e) tw[e] |= ew[e];
            bool fault = false;
            for (int c = C_f_alloc_fail; c <= C_f_nested_call; ++c) if (c != C_f_stale_memory && c != C_f_memory_reuse && c != C_f_guarded_heap && g_res->counters[c]) fault = true;
            if (g_res->counters[C_compared] && (g_res->counters[C_switches] || g_res->counters[C_lives] || fault)) { ++nontriv; hist.insert(g_res->loghash); }
            if (g_res->counters[C_switches]) il.insert(g_res->ilhash);
            if (all) printf("R %s\n", outcome(seed, idx).c_str());
            if (g_res->status != 1) {
                printf("F %s\n", outcome(seed, idx).c_str()); fflush(stdout);
                if (++fails >= maxfail) break;
            }
        }
        u64 ne = 0; for (size_t e = 0; e < sizeof edges; ++e) ne += edges[e];
        printf("T {\"runs\":%llu,\"seconds\":%.3f,\"fails\":%d,\"nontrivial\":%llu,\"last\":%llu,\"edges\":%llu", (unsigned long long)done, now() - t0, fails, (unsigned long long)nontriv, (unsigned long long)last, (unsigned long long)ne);
        printf(",\"counters\":{"); for (int c = 0; c < N_COUNTERS; ++c) printf("%s\"%s\":%llu", c ? "," : "", counter_names[c], (unsigned long long)tot[c]);
        printf("},\"runs_with\":{"); for (int c = 0; c < N_COUNTERS; ++c) printf("%s\"%s\":%llu", c ? "," : "", counter_names[c], (unsigned long long)runs_with[c]);
        printf("}}\n");
        FILE* hf = fopen(argv[8], "wb");
        if (hf) {
            u64 n = il.size(); fwrite(&n, 8, 1, hf); for (u64 x : il) fwrite(&x, 8, 1, hf);
            n = hist.size(); fwrite(&n, 8, 1, hf); for (u64 x : hist) fwrite(&x, 8, 1, hf);
            fwrite(edges, 1, sizeof edges, hf);
            fclose(hf);
        }
        return 0;
    }
    return 97;
}
