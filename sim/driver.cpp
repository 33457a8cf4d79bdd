// Simulation driver: generates cases from seeds, runs each in a pristine forked
// process, gates, minimises and writes violations. Not instrumented.
#include "case.h"

#include <algorithm>
#include <errno.h>
#include <fcntl.h>
#include <filesystem>
#include <signal.h>
#include <set>
#include <sstream>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>

namespace fs = std::filesystem;

static constexpr int MAXPH = 4;
static constexpr size_t TEXT_SZ = 4u << 20;
struct Shared { // one per worker, shared between manager, zygote and runs
    char text[TEXT_SZ];
    uint32_t text_len;
    SimResult res[MAXPH];
};
static constexpr uintptr_t SHARED = 0x310000000000ull;

std::vector<const Scenario*>& RegisterScenario::all()
{
    static std::vector<const Scenario*> v;
    return v;
}
static const Scenario* find_scenario(const std::string& n)
{
    for (auto* s : RegisterScenario::all())
        if (n == s->name) return s;
    return nullptr;
}

// ------------------------------------------------------------------ case text
std::string Case::text() const
{
    std::ostringstream o;
    const Scenario* s = find_scenario(scenario);
    o << "rpysim-case 1\nscenario " << scenario << "\nseed " << seed << "\nfaults " << faults << "\n";
    for (auto& kv : p) o << "param " << kv.first << " " << kv.second << "\n";
    o << "heap " << heap.fill << " " << heap.reuse << " " << heap.seed << "\n";
    o << "io " << io.short_read_at << " " << io.short_write_at << " " << io.eio_read_at << " "
      << io.eio_write_at << " " << io.enospc_after << " " << io.open_fail_at << " " << io.crash_at << " "
      << io.close_fail_at << " " << io.eintr_at << " " << io.seek_fail_at << " " << io.short_always << "\n";
    o << "sched " << sched.strategy << " " << sched.seed << " " << sched.gap_sync << " "
      << sched.gap_foreign << " " << sched.gap_other << " " << sched.pct_depth << " " << sched.pct_len
      << " " << sched.step_limit << "\n";
    for (auto& op : ops) {
        o << "op " << op.tid << " "
          << (s && op.code < (int) s->op_names.size() ? s->op_names[op.code] : "?") << " " << op.code;
        for (auto x : op.a) o << " " << x;
        o << "\n";
    }
    if (use_explicit) {
        o << "explicit " << explicit_sched.size() << "\n";
        for (auto& e : explicit_sched)
            o << "at " << e.from << " " << e.step << " run " << e.to << " kind " << e.kind << "\n";
    }
    o << "end\n";
    return o.str();
}
Case Case::parse(const char* t)
{
    Case c;
    std::istringstream in{std::string(t)};
    std::string line, w;
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream l(line);
        l >> w;
        if (w == "scenario") l >> c.scenario;
        else if (w == "seed") l >> c.seed;
        else if (w == "faults") l >> c.faults;
        else if (w == "param") {
            std::string k;
            int64_t v;
            l >> k >> v;
            c.p[k] = v;
        } else if (w == "heap") l >> c.heap.fill >> c.heap.reuse >> c.heap.seed;
        else if (w == "io")
            l >> c.io.short_read_at >> c.io.short_write_at >> c.io.eio_read_at >> c.io.eio_write_at
                    >> c.io.enospc_after >> c.io.open_fail_at >> c.io.crash_at >> c.io.close_fail_at
                    >> c.io.eintr_at >> c.io.seek_fail_at >> c.io.short_always;
        else if (w == "sched")
            l >> c.sched.strategy >> c.sched.seed >> c.sched.gap_sync >> c.sched.gap_foreign
                    >> c.sched.gap_other >> c.sched.pct_depth >> c.sched.pct_len >> c.sched.step_limit;
        else if (w == "op") {
            Op op;
            std::string nm;
            l >> op.tid >> nm >> op.code;
            // the name counts, the number may have changed
            if (auto* s = find_scenario(c.scenario))
                for (size_t i = 0; i < s->op_names.size(); ++i)
                    if (s->op_names[i] == nm) op.code = (int) i;
            for (auto& x : op.a) l >> x;
            c.ops.push_back(op);
        } else if (w == "explicit") {
            c.use_explicit = true;
        } else if (w == "at") {
            SimSchedEnt e{};
            std::string d;
            l >> e.from >> e.step >> d >> e.to >> d >> e.kind;
            c.explicit_sched.push_back(e);
        } else if (w == "end")
            break;
    }
    if (c.use_explicit) {
        c.sched.strategy = SIM_S_REPLAY;
        c.sched.replay = c.explicit_sched.data();
        c.sched.nreplay = (uint32_t) c.explicit_sched.size();
    }
    return c;
}

void gen_heap(Rng& r, Case& c)
{
    c.heap.fill = (int) r.range(0, 3);
    c.heap.reuse = (int) r.range(0, 2);
    c.heap.seed = r.next() >> 1;
}
void gen_sched(Rng& r, Case& c, bool single)
{
    c.sched.seed = r.next() >> 1;
    if (single) {
        c.sched.strategy = SIM_S_SEQ;
        return;
    }
    switch (r.range(0, 9)) {
        case 0: case 1: case 2:
            c.sched.strategy = SIM_S_PCT;
            c.sched.pct_depth = (uint32_t) r.range(1, 12);
            c.sched.pct_len = (uint32_t) (1u << r.range(6, 14));
            break;
        default:
            c.sched.strategy = SIM_S_RANDOM;
            c.sched.gap_sync = (uint32_t) (1u << r.range(1, 9));
            c.sched.gap_foreign = (uint32_t) (1u << r.range(2, 11));
            c.sched.gap_other = (uint32_t) (1u << r.range(8, 17));
            if (r.chance(1, 4)) c.sched.gap_other = 0;
            if (r.chance(1, 6)) c.sched.gap_foreign = 0;
    }
}

// ------------------------------------------------------------------ zygote
// The zygote never allocates: every run starts from the same process image.
static void child_main(void*);
static Shared* g_sh;
static char g_scratch[128];
static int g_phase;
static void child_main(void*)
{
    static Case c = Case::parse(g_sh->text);
    const Scenario* s = find_scenario(c.scenario);
    if (!s) sim_error("unknown scenario %s", c.scenario.c_str());
    const SimResult* prev[MAXPH];
    for (int i = 0; i < MAXPH; ++i) prev[i] = &g_sh->res[i];
    RunCtx rc{c, g_phase, prev};
    sim_env_seed(c.seed * 31 + g_phase);
    s->body(rc);
}
static void parse_heap(const char* t, SimHeapCfg* h)
{
    const char* p = strstr(t, "\nheap ");
    if (p) {
        unsigned long long sd;
        int a, b;
        // no allocation
        if (sscanf(p + 6, "%d %d %llu", &a, &b, &sd) == 3) {
            h->fill = a;
            h->reuse = b;
            h->seed = sd;
        }
    }
}
extern "C" __attribute__((weak)) void sim_zygote_init(void);
static void zygote(int rfd, int wfd)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (sim_zygote_init) sim_zygote_init(); // the same image for every run
    for (;;) {
        uint32_t ph;
        if (read(rfd, &ph, 4) != 4) _exit(0);
        pid_t pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            struct rlimit rl = {90, 100};
            setrlimit(RLIMIT_CPU, &rl);
            rl.rlim_cur = rl.rlim_max = 0;
            setrlimit(RLIMIT_CORE, &rl);
            g_phase = (int) (ph & 0xff);
            if (chdir(g_scratch)) sim_error("chdir failed");
            static SimHeapCfg h;
            parse_heap(g_sh->text, &h);
            if (g_phase == 0 && (ph & 0x100)) h = SimHeapCfg(); // reference phase: plain heap
            sim_begin(&g_sh->res[g_phase], &h, g_scratch);
            sim_on_main_stack(child_main, nullptr);
        }
        int st = 0;
        if (pid > 0)
            while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        int32_t out = pid > 0 ? st : -1;
        if (write(wfd, &out, 4) != 4) _exit(0);
    }
}

// ------------------------------------------------------------------ manager
struct Sums {
    uint64_t steps, switches, foreign_points, sync_points, allocs, sim_time_ns, io_points, ops_ok, ops_err;
    uint64_t faults[F_NKINDS], probes[64];
};
struct Exec { // outcome of one case
    int status = 0; // SimStatus of the last phase
    std::string vclass, msg;
    std::vector<uint64_t> pcs;
    uint64_t hash = 0, ilv = 0;
    std::vector<SimSchedEnt> sched;
    bool sched_trunc = false;
    int phase = 0;
    Sums sum;
};
static int g_zr = -1, g_zw = -1;
static double now_s()
{
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}
static void clean_scratch()
{
    std::error_code ec;
    for (auto& e : fs::directory_iterator(g_scratch, ec)) fs::remove_all(e.path(), ec);
}
static void clear_res(SimResult& r)
{
    r.nsched = 0;
    memset(&r, 0, offsetof(SimResult, sched));
}
static Exec* execute(const Case& c)
{
    static Exec x;
    x = Exec();
    const Scenario* s = find_scenario(c.scenario);
    std::string t = c.text();
    if (t.size() + 1 > TEXT_SZ) {
        x.status = SIM_ST_ERROR;
        x.msg = "case too large";
        return &x;
    }
    memcpy(g_sh->text, t.c_str(), t.size() + 1);
    g_sh->text_len = (uint32_t) t.size();
    clean_scratch();
    int np = s->phases(c);
    memset(&x.sum, 0, sizeof x.sum);
    for (int ph = 0; ph < np; ++ph) {
        SimResult& r = g_sh->res[ph];
        clear_res(r);
        uint32_t cmd = (uint32_t) ph | (s->sched_phase > 0 ? 0x100u : 0);
        int32_t st;
        if (write(g_zw, &cmd, 4) != 4 || read(g_zr, &st, 4) != 4) {
            x.status = SIM_ST_ERROR;
            x.msg = "zygote died";
            return &x;
        }
        x.phase = ph;
        x.status = (int) r.status;
        x.hash = x.hash * 1000003 + r.hash + r.status;
        if (ph == s->sched_phase) {
            x.ilv = r.ilv_hash;
            x.sched.assign(r.sched, r.sched + r.nsched);
            x.sched_trunc = r.sched_truncated;
        }
        x.sum.steps += r.steps;
        x.sum.switches += r.switches;
        x.sum.foreign_points += r.foreign_points;
        x.sum.sync_points += r.sync_points;
        x.sum.allocs += r.allocs;
        x.sum.sim_time_ns += r.sim_time_ns;
        x.sum.io_points += r.io_points;
        x.sum.ops_ok += r.ops_ok;
        x.sum.ops_err += r.ops_err;
        for (int i = 0; i < F_NKINDS; ++i) x.sum.faults[i] += r.faults[i];
        for (int i = 0; i < 64; ++i) x.sum.probes[i] += r.probes[i];
        if (r.status == SIM_ST_NONE) {
            x.status = SIM_ST_VIOLATION;
            char b[200];
            if (WIFSIGNALED(st)) snprintf(b, sizeof b, "process killed by signal %d", WTERMSIG(st));
            else
                snprintf(b, sizeof b, "process exited unexpectedly with status %d", WEXITSTATUS(st));
            x.vclass = "process-died";
            x.msg = b;
            return &x;
        }
        if (r.status == SIM_ST_VIOLATION || r.status == SIM_ST_ERROR) {
            x.vclass = r.vclass;
            x.msg = r.msg;
            x.pcs.assign(r.pcs, r.pcs + r.npcs);
            for (auto pc : x.pcs) x.hash = x.hash * 31 + pc;
            return &x;
        }
    }
    return &x;
}

static std::string ident(const Exec& x)
{
    // what makes two failures "the same" for the minimiser
    std::string s = x.vclass;
    if (x.vclass == "data-race" && x.pcs.size() >= 2) {
        uint64_t a = std::min(x.pcs[0], x.pcs[1]), b = std::max(x.pcs[0], x.pcs[1]);
        s += ":" + std::to_string(a) + ":" + std::to_string(b);
    }
    return s;
}

static Case make_case(const Scenario* s, uint64_t seed, int faults)
{
    Case c;
    c.scenario = s->name;
    c.seed = seed;
    c.faults = faults;
    Rng r(seed * 0x9E3779B97F4A7C15ull + 0x1234 + (uint64_t) faults);
    s->generate(r, c);
    return c;
}
static Case to_explicit(const Case& c, const Exec& x)
{
    Case e = c;
    e.use_explicit = true;
    e.explicit_sched = x.sched;
    e.sched.strategy = SIM_S_REPLAY;
    return e;
}

static Case minimise(const Case& c0, const std::string& id, double budget, int* execs)
{
    double t0 = now_s();
    Case best = c0; // strategy based
    auto still = [&](const Case& c) {
        if (now_s() - t0 > budget) return false;
        ++*execs;
        Exec* x = execute(c);
        return x->status == SIM_ST_VIOLATION && ident(*x) == id;
    };
    auto try_case = [&](Case c) {
        // ops changed: the schedule no longer fits, so search nearby schedules
        int tries = c.sched.strategy == SIM_S_SEQ ? 1 : 12;
        for (int i = 0; i < tries; ++i) {
            if (i) c.sched.seed = best.sched.seed + 7919ull * i;
            if (still(c)) {
                best = c;
                return true;
            }
            if (now_s() - t0 > budget) return false;
        }
        return false;
    };
    const Scenario* s = find_scenario(c0.scenario);
    // 1. faults off, one at a time
    {
        Case c = best;
        c.heap = SimHeapCfg();
        try_case(c);
        uint64_t SimIoCfg::*f[] = {&SimIoCfg::short_read_at, &SimIoCfg::short_write_at,
                                   &SimIoCfg::eio_read_at,   &SimIoCfg::eio_write_at,
                                   &SimIoCfg::enospc_after,  &SimIoCfg::open_fail_at,
                                   &SimIoCfg::crash_at,      &SimIoCfg::close_fail_at,
                                   &SimIoCfg::eintr_at,      &SimIoCfg::seek_fail_at,
                                   &SimIoCfg::short_always};
        for (auto m : f)
            if (best.io.*m) {
                Case d = best;
                d.io.*m = 0;
                try_case(d);
            }
        for (auto* k : s->shrink)
            if (best.get(k)) {
                Case d = best;
                d.p[k] = 0;
                try_case(d);
            }
    }
    // 2. operations (ddmin)
    size_t chunk = std::max<size_t>(1, best.ops.size() / 2);
    while (chunk >= 1 && best.ops.size() > 1) {
        bool any = false;
        for (size_t i = 0; i < best.ops.size();) {
            Case c = best;
            size_t e = std::min(best.ops.size(), i + chunk);
            c.ops.erase(c.ops.begin() + (long) i, c.ops.begin() + (long) e);
            if (!c.ops.empty() && try_case(c)) any = true;
            else
                i += chunk;
            if (now_s() - t0 > budget) break;
        }
        if (now_s() - t0 > budget) break;
        if (chunk == 1 && !any) break;
        if (chunk > 1) chunk /= 2;
    }
    // 3. explicit schedule
    Exec x = *execute(best);
    ++*execs;
    if (!(x.status == SIM_ST_VIOLATION && ident(x) == id)) return best;
    if (best.sched.strategy == SIM_S_SEQ || x.sched_trunc) return best;
    Case ex = to_explicit(best, x);
    {
        Exec y = *execute(ex);
        ++*execs;
        if (!(y.status == SIM_ST_VIOLATION && ident(y) == id)) return best; // keep strategy form
    }
    // only preemptions matter; forced choices default to the lowest task
    auto prune = [&](Case& cur) {
        size_t ch = std::max<size_t>(1, cur.explicit_sched.size() / 2);
        while (ch >= 1 && !cur.explicit_sched.empty()) {
            bool any = false;
            for (size_t i = 0; i < cur.explicit_sched.size();) {
                Case d = cur;
                size_t e = std::min(cur.explicit_sched.size(), i + ch);
                d.explicit_sched.erase(d.explicit_sched.begin() + (long) i,
                                       d.explicit_sched.begin() + (long) e);
                if (still(d)) {
                    cur = d;
                    any = true;
                } else
                    i += ch;
                if (now_s() - t0 > budget * 1.5) return;
            }
            if (ch == 1 && !any) break;
            if (ch > 1) ch /= 2;
        }
    };
    t0 = now_s();
    prune(ex);
    return ex;
}

// ------------------------------------------------------------------ stats
struct Stats { // shared, one per worker
    uint64_t runs, runs_faulty, violations, errors, rechecked, nondet, steps, switches, foreign, syncp,
            allocs, sim_ns, io_points, ops_ok, ops_err, faults[F_NKINDS], probes[64], runs_with_fault, nhash;
    uint64_t multi; // runs in which at least one preemption or fault happened
    char err[2048];
    char replay[8][256];
    char vmsg[8][4096];
    char vcls[8][256];
    uint64_t vpcs[8][16];
    uint32_t nv;
    uint32_t nsamples;
    char samples[3][6000];
    uint64_t hashes[1u << 18];
};

static void jstr(FILE* f, const char* s)
{
    fputc('"', f);
    for (; *s; ++s) {
        unsigned char ch = (unsigned char) *s;
        if (ch == '"' || ch == '\\') fprintf(f, "\\%c", ch);
        else if (ch < 32 || ch > 126)
            fprintf(f, "\\u%04x", ch);
        else
            fputc(ch, f);
    }
    fputc('"', f);
}

static volatile uint32_t* g_stop;

static void manager(int w, int W, const std::vector<const Scenario*>& scs, uint64_t seed, double until,
                    uint64_t maxruns, const std::string& rdir, Stats* st, int recheck_every, double mbudget,
                    const std::string& tag)
{
    std::set<std::string> seen;
    for (uint64_t k = 0; k < maxruns; ++k) {
        if (now_s() > until || (*g_stop && st->nv == 0) || *g_stop >= 4) break;
        uint64_t idx = k * (uint64_t) W + (uint64_t) w;
        const Scenario* s = scs[idx % scs.size()];
        uint64_t i = idx / scs.size();
        uint64_t cs = (seed * 1000003ull + i) & 0x7fffffffffffull;
        int faults = (int) (i % 4 != 0); // one in four runs is fault free
        Case c = make_case(s, cs, faults);
        Exec x = *execute(c);
        ++st->runs;
        st->runs_faulty += (uint64_t) faults;
        st->steps += x.sum.steps;
        st->switches += x.sum.switches;
        st->foreign += x.sum.foreign_points;
        st->syncp += x.sum.sync_points;
        st->allocs += x.sum.allocs;
        st->sim_ns += x.sum.sim_time_ns;
        st->io_points += x.sum.io_points;
        st->ops_ok += x.sum.ops_ok;
        st->ops_err += x.sum.ops_err;
        uint64_t nf = 0;
        for (int j = 0; j < F_NKINDS; ++j) {
            st->faults[j] += x.sum.faults[j];
            if (j != F_DIRTY_HEAP) nf += x.sum.faults[j];
        }
        for (int j = 0; j < 64; ++j) st->probes[j] += x.sum.probes[j];
        if (nf) ++st->runs_with_fault;
        uint64_t npre = 0;
        for (auto& e : x.sched)
            if (e.kind == 1) ++npre;
        if (nf || npre) {
            ++st->multi;
            if (st->nhash < (1u << 18)) {
                uint64_t h = x.ilv;
                for (int j = 0; j < F_NKINDS; ++j)
                    if (j != F_DIRTY_HEAP) h = h * 1099511628211ull + x.sum.faults[j];
                h = h * 1099511628211ull + x.sum.ops_err + (uint64_t) (s->name[0] * 7 + s->name[1]);
                // runs without concurrency: distinct by their fault position and outcome
                if (npre == 0) h ^= x.hash;
                st->hashes[st->nhash++] = h;
            }
        }
        if (st->nsamples < 3 && w == 0 && x.status == SIM_ST_OK && (nf || npre || k > 20)) {
            Case d = to_explicit(c, x);
            if (d.explicit_sched.size() > 12) d.explicit_sched.resize(12);
            snprintf(st->samples[st->nsamples++], sizeof st->samples[0], "%s", d.text().c_str());
        }
        if (x.status == SIM_ST_ERROR) {
            snprintf(st->err, sizeof st->err, "%s: %s (scenario %s seed %llu)", x.vclass.c_str(),
                     x.msg.c_str(), s->name, (unsigned long long) cs);
            ++st->errors;
            fs::create_directories(rdir);
            std::string f = rdir + "/error-" + tag + ".case";
            FILE* o = fopen(f.c_str(), "w");
            if (o) {
                fputs(c.text().c_str(), o);
                fclose(o);
            }
            *g_stop = 100;
            break;
        }
        if (recheck_every && k % (uint64_t) recheck_every == 0 && x.status != SIM_ST_VIOLATION) {
            Exec y = *execute(c);
            ++st->rechecked;
            if (y.hash != x.hash || y.status != x.status) {
                ++st->nondet;
                snprintf(st->err, sizeof st->err, "nondeterministic run: scenario %s seed %llu", s->name,
                         (unsigned long long) cs);
                fs::create_directories(rdir);
                std::string f = rdir + "/nondet-" + tag + ".case";
                FILE* o = fopen(f.c_str(), "w");
                if (o) {
                    fputs(c.text().c_str(), o);
                    fclose(o);
                }
                *g_stop = 100;
                break;
            }
        }
        if (x.status == SIM_ST_VIOLATION) {
            std::string id = ident(x);
            std::string key = std::string(s->name) + id;
            if (seen.count(key)) continue;
            seen.insert(key);
            ++st->violations;
            // gate 1: the same case must fail identically
            Exec y = *execute(c);
            if (y.hash != x.hash || ident(y) != id) {
                ++st->nondet;
                snprintf(st->err, sizeof st->err,
                         "violation did not repeat: scenario %s seed %llu class %s (%s) then %s", s->name,
                         (unsigned long long) cs, x.vclass.c_str(), x.msg.c_str(), y.vclass.c_str());
                fs::create_directories(rdir);
                std::string f = rdir + "/nondet-" + tag + ".case";
                FILE* o = fopen(f.c_str(), "w");
                if (o) {
                    fputs(c.text().c_str(), o);
                    fclose(o);
                }
                *g_stop = 100;
                break;
            }
            int execs = 0;
            Case m = minimise(c, id, mbudget, &execs);
            Exec z = *execute(m);
            if (!(z.status == SIM_ST_VIOLATION && ident(z) == id)) {
                m = c;
                z = *execute(m);
            }
            if (st->nv < 8) {
                uint32_t n = st->nv;
                std::string f = rdir + "/" + tag + "-" + s->name + "-w" + std::to_string(w) + "-"
                        + std::to_string(n) + ".case";
                fs::create_directories(rdir);
                FILE* o = fopen(f.c_str(), "w");
                if (o) {
                    fprintf(o, "# violation: %s\n", z.vclass.c_str());
                    std::string mm = z.msg;
                    std::replace(mm.begin(), mm.end(), '\n', ' ');
                    fprintf(o, "# message: %s\n# hash: %llu\n# origin: seed %llu (%s, faults=%d), minimised with %d runs\n",
                            mm.c_str(), (unsigned long long) z.hash, (unsigned long long) cs, s->name, faults,
                            execs);
                    fputs(m.text().c_str(), o);
                    fclose(o);
                }
                snprintf(st->replay[n], sizeof st->replay[0], "%s", f.c_str());
                snprintf(st->vmsg[n], sizeof st->vmsg[0], "%s", z.msg.c_str());
                snprintf(st->vcls[n], sizeof st->vcls[0], "%s", z.vclass.c_str());
                for (size_t j = 0; j < z.pcs.size() && j < 16; ++j) st->vpcs[n][j] = z.pcs[j];
                st->nv = n + 1;
            }
            __atomic_add_fetch(g_stop, 1, __ATOMIC_SEQ_CST);
        }
    }
}

static const char* argval(int argc, char** argv, const char* k, const char* d)
{
    for (int i = 1; i + 1 < argc; ++i)
        if (!strcmp(argv[i], k)) return argv[i + 1];
    return d;
}

static char g_base[64];
static void make_zygote(int w)
{
    // fixed-width scratch names so that path lengths never vary
    snprintf(g_scratch, sizeof g_scratch, "%s/w%02d", g_base, w);
    mkdir(g_scratch, 0700);
    void* p = mmap((void*) SHARED, sizeof(Shared), PROT_READ | PROT_WRITE,
                   MAP_SHARED | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
        perror("mmap");
        _exit(97);
    }
    g_sh = (Shared*) p;
    int a[2], b[2];
    if (pipe(a) || pipe(b)) _exit(97);
    pid_t z = fork();
    if (z == 0) {
        cpu_set_t cs;
        CPU_ZERO(&cs);
        int n = (int) sysconf(_SC_NPROCESSORS_ONLN);
        CPU_SET(w % (n > 0 ? n : 1), &cs);
        sched_setaffinity(0, sizeof cs, &cs);
        // keep low descriptor numbers identical between runs
        int r = fcntl(a[0], F_DUPFD, 900), q = fcntl(b[1], F_DUPFD, 900);
        for (int fd = 3; fd < 900; ++fd) syscall(SYS_close, fd);
        zygote(r, q);
        _exit(0);
    }
    syscall(SYS_close, a[0]);
    syscall(SYS_close, b[1]);
    g_zw = a[1];
    g_zr = b[0];
}

extern uint64_t g_break_alloc;
int main(int argc, char** argv)
{
    if (const char* e = getenv("RPYSIM_BREAK")) g_break_alloc = strtoull(e, nullptr, 10);
    if (argc < 2) return 2;
    if (getenv("LD_BIND_NOW") == nullptr || getenv("RPYSIM_ENV") == nullptr) {
        // identical environment block for every run
        const char* dbg = getenv("RPYSIM_BREAK");
        static char e0[64];
        snprintf(e0, sizeof e0, "RPYSIM_BREAK=%s", dbg ? dbg : "");
        static char e1[] = "LD_BIND_NOW=1", e2[] = "RPYSIM_ENV=1", e3[] = "PATH=/usr/bin:/bin",
                    e4[] = "HOME=/nonexistent", e5[] = "LC_ALL=C";
        personality(ADDR_NO_RANDOMIZE); // best effort: shared libraries at the same place
        char* env[] = {e1, e2, e3, e4, e5, dbg ? e0 : nullptr, nullptr};
        execve("/proc/self/exe", argv, env);
        perror("execve");
        return 97;
    }
    int W = atoi(argval(argc, argv, "--workers", "8"));
    bool replay = !strcmp(argv[1], "replay");
    if (replay) W = 1;
    if (W < 1) W = 1;
    if (W > 64) W = 64;
    // scratch: fixed-length name on a memory file system if there is one
    {
        const char* root = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
        unsigned x = (unsigned) getpid() * 2654435761u ^ (unsigned) (now_s() * 1e6);
        for (int i = 0; i < 100; ++i) {
            snprintf(g_base, sizeof g_base, "%s/rpysim.%08x", root, x + (unsigned) i * 7919u);
            if (mkdir(g_base, 0700) == 0) break;
        }
    }
    if (replay) {
        make_zygote(0);
        const char* file = argv[2];
        FILE* f = fopen(file, "r");
        if (!f) {
            perror(file);
            return 2;
        }
        std::string t;
        char buf[65536];
        size_t n;
        while ((n = fread(buf, 1, sizeof buf, f)) > 0) t.append(buf, n);
        fclose(f);
        Case c = Case::parse(t.c_str());
        Exec x = *execute(c);
        printf("{\"status\": %d, \"phase\": %d, \"hash\": %llu, \"class\": ", x.status, x.phase,
               (unsigned long long) x.hash);
        jstr(stdout, x.vclass.c_str());
        printf(", \"msg\": ");
        jstr(stdout, x.msg.c_str());
        printf(", \"pcs\": [");
        for (size_t i = 0; i < x.pcs.size(); ++i) printf("%s%llu", i ? ", " : "", (unsigned long long) x.pcs[i]);
        printf("], \"switches\": %llu, \"steps\": %llu, \"ops_ok\": %llu, \"ops_err\": %llu}\n",
               (unsigned long long) x.sum.switches, (unsigned long long) x.sum.steps,
               (unsigned long long) x.sum.ops_ok, (unsigned long long) x.sum.ops_err);
        std::error_code ec;
        fs::remove_all(g_base, ec);
        return x.status == SIM_ST_OK ? 0 : x.status == SIM_ST_VIOLATION ? 1 : 3;
    }
    if (!strcmp(argv[1], "gen")) {
        const Scenario* s = find_scenario(argv[2]);
        if (!s) return 2;
        fputs(make_case(s, strtoull(argv[3], nullptr, 10), argc > 4 ? atoi(argv[4]) : 1).text().c_str(), stdout);
        std::error_code ec;
        fs::remove_all(g_base, ec);
        return 0;
    }
    if (!strcmp(argv[1], "list")) {
        for (auto* s : RegisterScenario::all()) printf("%s: %s\n", s->name, s->what);
        std::error_code ec;
        fs::remove_all(g_base, ec);
        return 0;
    }
    if (strcmp(argv[1], "run")) return 2;
    double t0 = now_s();
    Stats* st = (Stats*) mmap(nullptr, sizeof(Stats) * (size_t) W, PROT_READ | PROT_WRITE,
                              MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_stop = (volatile uint32_t*) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    pid_t mp[64];
    for (int w = 0; w < W; ++w) {
        pid_t p = fork();
        if (p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            make_zygote(w); // before anything is allocated in this process
            std::vector<const Scenario*> scs;
            std::string list = argval(argc, argv, "--scenario", "");
            std::istringstream ls(list);
            std::string nm;
            while (std::getline(ls, nm, ',')) {
                auto* s = find_scenario(nm);
                if (!s) {
                    fprintf(stderr, "no scenario %s\n", nm.c_str());
                    _exit(2);
                }
                scs.push_back(s);
            }
            manager(w, W, scs, strtoull(argval(argc, argv, "--seed", "1"), nullptr, 10),
                    t0 + atof(argval(argc, argv, "--time", "10")),
                    strtoull(argval(argc, argv, "--runs", "1000000000"), nullptr, 10),
                    argval(argc, argv, "--replay-dir", "/tmp"), &st[w],
                    atoi(argval(argc, argv, "--recheck", "40")), atof(argval(argc, argv, "--min-budget", "20")),
                    argval(argc, argv, "--tag", "x"));
            syscall(SYS_exit_group, 0);
        }
        mp[w] = p;
    }
    int bad = 0;
    for (int w = 0; w < W; ++w) {
        int s = 0;
        waitpid(mp[w], &s, 0);
        if (!WIFEXITED(s) || WEXITSTATUS(s)) bad = 1;
    }
    double t1 = now_s();
    Stats sum;
    memset(&sum, 0, offsetof(Stats, hashes));
    std::set<uint64_t> distinct;
    const char* err = "";
    for (int w = 0; w < W; ++w) {
        uint64_t* d = (uint64_t*) &sum;
        uint64_t* s = (uint64_t*) &st[w];
        for (size_t i = 0; i < offsetof(Stats, err) / 8; ++i) d[i] += s[i];
        for (uint64_t i = 0; i < st[w].nhash; ++i) distinct.insert(st[w].hashes[i]);
        if (st[w].err[0]) err = st[w].err;
    }
    FILE* o = fopen(argval(argc, argv, "--out", "/dev/stdout"), "w");
    if (!o) return 2;
    fprintf(o, "{\"wall_s\": %.2f, \"runs\": %llu, \"runs_faulty\": %llu, \"runs_with_fault\": %llu, \"nontrivial\": %llu, "
               "\"distinct\": %llu, \"rechecked\": %llu, \"nondeterministic\": %llu, \"errors\": %llu, "
               "\"steps\": %llu, \"switches\": %llu, \"foreign_points\": %llu, \"sync_points\": %llu, "
               "\"allocs\": %llu, \"sim_ns\": %llu, \"io_points\": %llu, \"ops_ok\": %llu, \"ops_err\": %llu, \"bad\": %d, \"err\": ",
            t1 - t0, (unsigned long long) sum.runs, (unsigned long long) sum.runs_faulty,
            (unsigned long long) sum.runs_with_fault, (unsigned long long) sum.multi,
            (unsigned long long) distinct.size(), (unsigned long long) sum.rechecked,
            (unsigned long long) sum.nondet, (unsigned long long) sum.errors, (unsigned long long) sum.steps,
            (unsigned long long) sum.switches, (unsigned long long) sum.foreign, (unsigned long long) sum.syncp,
            (unsigned long long) sum.allocs, (unsigned long long) sum.sim_ns, (unsigned long long) sum.io_points,
            (unsigned long long) sum.ops_ok, (unsigned long long) sum.ops_err, bad);
    jstr(o, err);
    fprintf(o, ", \"faults\": {");
    bool first = true;
    for (int i = 0; i < F_NKINDS; ++i)
        if (sum.faults[i]) {
            fprintf(o, "%s\"%s\": %llu", first ? "" : ", ", sim_fault_names[i], (unsigned long long) sum.faults[i]);
            first = false;
        }
    fprintf(o, "}, \"probes\": [");
    for (int i = 0; i < 64; ++i) fprintf(o, "%s%llu", i ? ", " : "", (unsigned long long) sum.probes[i]);
    fprintf(o, "], \"probe_names\": {");
    if (auto* sc = find_scenario(argval(argc, argv, "--scenario", "")))
        for (size_t i = 1; i < sc->probes.size() && i < 64; ++i) {
            if (i > 1) fprintf(o, ", ");
            jstr(o, sc->probes[i]);
            fprintf(o, ": %llu", (unsigned long long) sum.probes[i]);
        }
    fprintf(o, "}, \"violations\": [");
    first = true;
    for (int w = 0; w < W; ++w)
        for (uint32_t n = 0; n < st[w].nv; ++n) {
            fprintf(o, "%s{\"replay\": ", first ? "" : ", ");
            jstr(o, st[w].replay[n]);
            fprintf(o, ", \"class\": ");
            jstr(o, st[w].vcls[n]);
            fprintf(o, ", \"msg\": ");
            jstr(o, st[w].vmsg[n]);
            fprintf(o, ", \"pcs\": [");
            for (int j = 0; j < 16 && st[w].vpcs[n][j]; ++j)
                fprintf(o, "%s%llu", j ? ", " : "", (unsigned long long) st[w].vpcs[n][j]);
            fprintf(o, "]}");
            first = false;
        }
    fprintf(o, "], \"samples\": [");
    first = true;
    for (int w = 0; w < W; ++w)
        for (uint32_t n = 0; n < st[w].nsamples; ++n) {
            fprintf(o, "%s", first ? "" : ", ");
            jstr(o, st[w].samples[n]);
            first = false;
        }
    fprintf(o, "]}\n");
    fclose(o);
    std::error_code ec;
    fs::remove_all(g_base, ec);
    return bad ? 3 : 0;
}
