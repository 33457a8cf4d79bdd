// Saving streams and taking them up again in another process, with everything
// that can happen to the files on the way.
#include "streams_common.h"
#include <dirent.h>
#include <fcntl.h>
#include <roughpy/core/slice.hpp>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

using namespace rp;

namespace {
enum OpCode { S_ASK, S_SAVE, S_MARK, S_LOAD, S_NEXT, S_RESAVE, S_TRY, S_N };
const std::vector<const char*> op_names{"ask", "save", "mark", "load", "next", "resave", "try"};
// tid 90: first process before the mark, 91: the questions put to the original and to every restored
// stream, 92: first process after the mark; 0..: tasks of the second process.
// a[0] stream, a[1],a[2] interval, a[3] resolution, a[4] context, a[5] kind of question, a[6] failing allocation

struct BSpec {
    bool brown;
    int64_t gen;
    int64_t restr; // 0: whole, else restricted to part of its support
    StreamSpec s;
    double lo() const { return brown ? -2 : (double) s.off; }
    double hi() const { return brown ? 2 : s.support_hi(); }
    RealInterval part() const // what it is restricted to
    {
        double q = (hi() - lo()) / 8;
        return restr ? RealInterval(lo() + q * (double) (restr & 3), hi() - q * (double) (restr >> 2)) : RealInterval(lo(), hi());
    }
};
BSpec bspec(const Case& c, int i)
{
    BSpec b;
    b.s = spec_of(c, i);
    int64_t k = c.get(("form" + std::to_string(i)).c_str());
    b.brown = k > 0;
    b.gen = k;
    b.s.kind = K_LIE;
    b.restr = c.get(("restr" + std::to_string(i)).c_str());
    if (b.brown && b.s.ct == 2) b.s.ct = 0;
    return b;
}
std::shared_ptr<const streams::StreamInterface> make(const BSpec& b)
{
    if (!b.brown) return make_impl(b.s);
    scalars::seed_int_t sd = (scalars::seed_int_t) b.s.seed;
    auto md = make_md(b.s);
    md.effective_support = RealInterval(-2, 2);
    auto gen = ctype_of(b.s.ct)->get_rng(b.gen == 2 ? "mt19937" : "pcg", Slice<scalars::seed_int_t>(&sd, 1));
    return std::make_shared<streams::BrownianStream>(std::move(gen), md);
}
Stream build(const BSpec& b)
{
    Stream st(make(b));
    if (b.restr) st.restrict_to(b.part());
    return st;
}
void save_as(int64_t fmt, const Stream& st, std::string& bytes)
{
    std::stringstream ss;
    switch (fmt) {
        case 1: { archives::JSONOutputArchive ar(ss); ar(st); break; }
        case 2: { archives::XMLOutputArchive ar(ss); ar(st); break; }
        case 3: { archives::PortableBinaryOutputArchive ar(ss); ar(st); break; }
        default: { archives::BinaryOutputArchive ar(ss); ar(st); }
    }
    if (!ss) throw std::bad_alloc(); // the caller's business: text archives write to the stream's own error state
    bytes = ss.str();
}
void load_as(int64_t fmt, Stream& st, const std::string& bytes)
{
    std::stringstream ss(bytes);
    switch (fmt) {
        case 1: { archives::JSONInputArchive ar(ss); ar(st); break; }
        case 2: { archives::XMLInputArchive ar(ss); ar(st); break; }
        case 3: { archives::PortableBinaryInputArchive ar(ss); ar(st); break; }
        default: { archives::BinaryInputArchive ar(ss); ar(st); }
    }
}
void ask(const BSpec& b, const Stream& st, const Op& op, Result& r)
{
    guard_op(r, [&] {
        context_pointer cp = st.metadata().default_context;
        if (op.a[4]) cp = algebra::get_context((deg_t) b.s.w, (deg_t) (b.s.d + op.a[4]), ctype_of(b.s.ct), {});
        const double off = b.brown ? 0.0 : (double) b.s.off;
        RealInterval iv((double) op.a[1] / 64 + off, (double) op.a[2] / 64 + off);
        switch (op.a[5]) {
            case 1: encode(st.signature(iv, (int) op.a[3], *cp), r); break;
            case 2: encode(st.log_signature(iv, *cp), r); break;
            case 3: encode(st.signature((int) op.a[3], *cp), r); break;
            case 4: encode(st.restrict(iv).log_signature((int) op.a[3], *cp), r); break;
            default: encode(st.log_signature(iv, (int) op.a[3], *cp), r);
        }
    });
}
// the text archives of cereal hide or mishandle memory exhaustion themselves
bool can_arm(const Case& c, const Op& op) { return op.a[6] && (c.get("fmt") == 0 || c.get("fmt") == 3); }
void hash_result(const Result& r)
{
    for (auto& x : r.v) {
        union { double d; uint64_t u; } z;
        z.d = x.second;
        sim_hash(x.first * 31 + z.u);
    }
    sim_hash(r.ok + 7);
}
// one record of what the first process left: 'A' stream marked? bytes | 'C' index result
void put_archive(int s, bool marked, const std::string& b)
{
    SimNoAllocFault nf;
    OutBuf o;
    o.u8('A');
    o.u8((uint8_t) s);
    o.u8(marked);
    o.str(b);
    sim_out(o.b.data(), o.b.size());
}
void put_answer(size_t i, const Result& r)
{
    OutBuf o;
    o.u8('C');
    o.u32((uint32_t) i);
    r.save(o);
    sim_out(o.b.data(), o.b.size());
}
void phase_a(const Case& c)
{
    int ns = (int) c.get("streams");
    std::vector<BSpec> sp;
    std::vector<Stream> st;
    std::vector<bool> asked_elsewhere((size_t) ns, false);
    for (int i = 0; i < ns; ++i) {
        sp.push_back(bspec(c, i));
        st.push_back(build(sp.back()));
    }
    if (c.get("iophase") == 0) sim_io_config(&c.io);
    for (int stage = 90; stage <= 92; ++stage) {
        if (stage == 91) {
            for (int i = 0; i < ns; ++i) { // the archives that the original continues from
                std::string b;
                Result r;
                guard_op(r, [&] { save_as(c.get("fmt"), st[(size_t) i], b); });
                if (r.ok) put_archive(i, true, b);
                else
                    sim_violation("save-failed", "saving stream %d failed: %s", i, r.err.c_str());
            }
        }
        for (size_t i = 0; i < c.ops.size(); ++i) {
            const Op& op = c.ops[i];
            if (op.tid != stage) continue;
            Result r;
            auto k = (size_t) op.a[0];
            if (op.code == S_SAVE) {
                std::string b;
                const bool armed = can_arm(c, op);
                if (armed) sim_arm_alloc((uint64_t) op.a[6], 1);
                guard_op(r, [&] { save_as(c.get("fmt"), st[k], b); });
                bool fired = armed && sim_disarm_alloc();
                if (r.ok) {
                    if (!sp[k].brown) put_archive((int) k, false, b);
                } else if (!(fired && r.err == "bad_alloc"))
                    sim_violation("save-failed", "op %zu: saving stream %zu failed: %s", i, k, r.err.c_str());
                sim_probe(1);
            } else {
                ask(sp[k], st[k], op, r);
                if (!r.ok) sim_violation("wrong-error", "op %zu: %s", i, r.err.c_str());
                if (stage == 91 && sp[k].brown) put_answer(i, r);
            }
        }
        if (stage == 90 && c.get("mangle") == 3) {
            sim_io_config(nullptr);
            int rc = system("rm -rf old_cache; cp -r .stream_cache old_cache 2>/dev/null");
            (void) rc;
            if (c.get("iophase") == 0) sim_io_config(&c.io);
        }
    }
    sim_io_config(nullptr);
}
// what became of the cache files while no process ran
void mangle(const Case& c)
{
    int64_t m = c.get("mangle");
    std::vector<std::string> files;
    if (DIR* d = opendir(".stream_cache")) {
        while (auto* e = readdir(d))
            if (e->d_name[0] != '.') files.push_back(std::string(".stream_cache/") + e->d_name);
        closedir(d);
    }
    std::sort(files.begin(), files.end());
    size_t n = 0;
    for (auto& f : files) {
        struct stat sb;
        if (stat(f.c_str(), &sb)) continue;
        int64_t cut = c.get("cut");
        int64_t len = cut < 0 ? -cut - 1 : sb.st_size * cut / 1000;
        switch (m) {
            case 1:
                if (truncate(f.c_str(), std::min<off_t>(len, sb.st_size))) break;
                sim_fault(F_TRUNCATE);
                break;
            case 2:
                if (n++ % 2 == 0) break;
                syscall(SYS_unlink, f.c_str());
                sim_fault(F_LOST_FILE);
                break;
        }
    }
    if (m == 3 && !files.empty()) {
        int rc = system("cp -r old_cache/. .stream_cache/ 2>/dev/null");
        (void) rc;
        sim_fault(F_STALE_FILE);
    }
    if (m == 4) {
        int rc = system("rm -rf .stream_cache");
        (void) rc;
        sim_fault(F_LOST_FILE);
    }
    if (m == 5) {
        int rc = system("rm -rf .stream_cache; : > .stream_cache");
        (void) rc;
        sim_fault(F_LOST_FILE);
    }
}

struct Arch {
    int s;
    bool marked;
    std::string b;
};
struct Sh {
    const Case* c;
    std::vector<BSpec> sp;
    std::vector<Arch> arch;
    std::map<size_t, Result> ans; // of the original Brownian streams
    std::vector<size_t> cont;     // ops with tid 91
};
Result fresh_answer(const BSpec& b, const Op& op)
{
    SimNoAllocFault nf;
    Stream f(build(b));
    Result r;
    ask(b, f, op, r);
    return r;
}
void check_md(Sh* sh, int s, const Stream& st)
{
    auto md = make_md(sh->sp[(size_t) s].s);
    const auto& g = st.metadata();
    if (g.width != md.width || g.default_context->depth() != md.default_context->depth() || g.data_scalar_type != md.data_scalar_type
        || g.default_resolution != md.default_resolution || g.cached_vector_type != md.cached_vector_type)
        sim_violation("metadata-lost", "stream %d: width %d depth %d resolution %d restored from one with width %d depth %d resolution %d", s,
                      (int) g.width, (int) g.default_context->depth(), (int) g.default_resolution, (int) md.width,
                      (int) md.default_context->depth(), (int) md.default_resolution);
    const BSpec& b = sh->sp[(size_t) s];
    if (g.effective_support.inf() != b.lo() || g.effective_support.sup() != b.hi() || g.effective_support.type() != md.effective_support.type())
        sim_violation("metadata-lost", "stream %d: effective support [%g,%g), not [%g,%g)", s, g.effective_support.inf(), g.effective_support.sup(), b.lo(), b.hi());
    auto p = b.part();
    if (st.support().inf() != p.inf() || st.support().sup() != p.sup() || st.support().type() != p.type())
        sim_violation("metadata-lost", "stream %d: support [%g,%g), not [%g,%g)", s, st.support().inf(), st.support().sup(), p.inf(), p.sup());
}
struct TArg {
    Sh* sh;
    int tid;
};
struct Mine {
    int s = -1;
    Stream st;
    size_t next = 0;
    std::string bytes;
};
bool try_load(Sh* sh, Mine& m, const std::string& b, size_t i, const Op& op, const char* what)
{
    Result r;
    Stream st;
    const bool armed = can_arm(*sh->c, op);
    if (armed) sim_arm_alloc((uint64_t) op.a[6], 1);
    guard_op(r, [&] { load_as(sh->c->get("fmt"), st, b); });
    bool fired = armed && sim_disarm_alloc();
    if (!r.ok) {
        ++sim_result()->ops_err;
        if (!(fired && r.err == "bad_alloc"))
            sim_violation("load-failed", "op %zu: %s of stream %d failed although its archive is whole: %s", i, what, m.s, r.err.c_str());
        // nothing stays broken: the next attempt succeeds
        Result r2;
        guard_op(r2, [&] { load_as(sh->c->get("fmt"), st, b); });
        if (!r2.ok) sim_violation("load-failed", "op %zu: loading stream %d after a failed attempt: %s", i, m.s, r2.err.c_str());
    }
    m.st = st;
    m.bytes = b;
    check_md(sh, m.s, m.st);
    return true;
}
void task(void* q)
{
    auto* a = (TArg*) q;
    Sh* sh = a->sh;
    const Case& c = *sh->c;
    std::vector<Mine> mine;
    for (size_t i = 0; i < c.ops.size(); ++i) {
        const Op& op = c.ops[i];
        if (op.tid != a->tid) continue;
        if (op.code == S_LOAD) {
            std::vector<size_t> cand;
            for (size_t k = 0; k < sh->arch.size(); ++k)
                if (sh->arch[k].s == (int) op.a[0]) cand.push_back(k);
            if (cand.empty()) continue;
            const Arch& ar = sh->arch[cand[(size_t) op.a[1] % cand.size()]];
            Mine m;
            m.s = ar.s;
            try_load(sh, m, ar.b, i, op, "loading");
            mine.push_back(std::move(m));
            sim_probe(2);
            continue;
        }
        if (mine.empty()) continue;
        Mine& m = mine[(size_t) op.a[1] % mine.size()];
        const BSpec& b = sh->sp[(size_t) m.s];
        if (op.code == S_NEXT) {
            while (m.next < sh->cont.size() && (int) c.ops[sh->cont[m.next]].a[0] != m.s) ++m.next;
            if (m.next == sh->cont.size()) continue;
            size_t ci = sh->cont[m.next++];
            const Op& co = c.ops[ci];
            Result r, want;
            ask(b, m.st, co, r);
            hash_result(r);
            if (b.brown) {
                auto it = sh->ans.find(ci);
                if (it == sh->ans.end()) {
                    m.next = sh->cont.size(); // the original did not live to answer
                    continue;
                }
                want = it->second;
            } else
                want = fresh_answer(b, co);
            std::string why;
            double tol = b.brown ? (c.get("fmt") == 1 || c.get("fmt") == 2 ? tol_of(b.s.ct) : 0) : tol_of(b.s.ct);
            ++sim_result()->ops_ok;
            sim_probe(b.brown ? 3 : 4);
            if (!same(r, want, tol, &why))
                sim_violation("not-restored", "op %zu: restored stream %d (%s) answers question %zu otherwise than the original: %s", i, m.s,
                              b.brown ? "Brownian" : "Lie increments", ci, why.c_str());
        } else { // S_RESAVE
            std::string by;
            Result r;
            const bool armed = can_arm(c, op);
            if (armed) sim_arm_alloc((uint64_t) op.a[6], 1);
            guard_op(r, [&] { save_as(c.get("fmt"), m.st, by); });
            bool fired = armed && sim_disarm_alloc();
            if (!r.ok) {
                ++sim_result()->ops_err;
                if (!(fired && r.err == "bad_alloc"))
                    sim_violation("save-failed", "op %zu: saving stream %d failed: %s", i, m.s, r.err.c_str());
                continue;
            }
            Op plain;
            try_load(sh, m, by, i, plain, "loading again");
            sim_probe(5);
        }
        if (sim_held_locks()) sim_violation("lock-leak", "op %zu returned while its task still holds a lock", i);
    }
}
void body(const RunCtx& rc)
{
    const Case& c = rc.c;
    if (rc.phase == 0) {
        phase_a(c);
        sim_finish_ok();
    }
    auto* sh = new Sh;
    sh->c = &c;
    for (int i = 0; i < (int) c.get("streams"); ++i) sh->sp.push_back(bspec(c, i));
    if (rc.prev[0]->status == SIM_ST_CRASHPOINT) sim_fault(F_RESTART);
    InBuf in(rc.prev[0]->out, rc.prev[0]->outlen);
    while (!in.done()) {
        uint8_t k = in.u8();
        if (k == 'A') {
            Arch a;
            a.s = in.u8();
            a.marked = in.u8() != 0;
            a.b = in.str();
            if (a.marked || !sh->sp[(size_t) a.s].brown) sh->arch.push_back(a);
        } else {
            size_t i = in.u32();
            sh->ans[i].load(in);
        }
    }
    for (size_t i = 0; i < c.ops.size(); ++i)
        if (c.ops[i].tid == 91) sh->cont.push_back(i);
    mangle(c);
    if (c.get("iophase") == 1) {
        SimIoCfg io = c.io;
        io.crash_at = 0;
        sim_io_config(&io);
    }
    int T = (int) c.get("tasks");
    std::vector<TArg> args;
    args.reserve((size_t) T);
    for (int t = 0; t < T; ++t) args.push_back({sh, t});
    for (int t = 0; t < T; ++t) sim_spawn(task, &args[(size_t) t]);
    sim_run(&c.sched);
    sim_io_config(nullptr);
    delete sh;
    sim_finish_ok();
}
Op question(Rng& r, int ns)
{
    Op op;
    op.code = S_ASK;
    op.a[0] = r.range(0, ns - 1);
    int64_t cell = 1ll << r.range(0, 5);
    op.a[1] = r.range(0, 64 / cell - 1) * cell;
    op.a[2] = std::min<int64_t>(64, op.a[1] + r.range(1, 16) * cell);
    op.a[3] = r.range(0, 6);
    op.a[4] = r.chance(1, 6) ? 1 : 0;
    op.a[5] = r.chance(1, 4) ? r.range(3, 4) : r.range(0, 2);
    return op;
}
void gen(Rng& r, Case& c, int mode) // 0: files and crashes, 1: continuing exactly
{
    gen_heap(r, c);
    int T = r.chance(1, 2) ? 1 : (int) r.range(2, 3);
    gen_sched(r, c, T == 1);
    c.p["tasks"] = T;
    int ns = r.chance(1, 3) ? 2 : 1;
    c.p["streams"] = ns;
    c.p["fmt"] = r.chance(2, 3) ? 0 : r.range(1, 3);
    for (int i = 0; i < ns; ++i) {
        gen_spec(r, c, i, 1 << K_LIE);
        c.p["form" + std::to_string(i)] = mode == 0 ? 0 : r.range(0, 2);
        c.p["restr" + std::to_string(i)] = r.chance(1, 3) ? r.range(1, 15) : 0;
    }
    for (int64_t k = r.range(0, 4); k > 0; --k) {
        Op op = question(r, ns);
        op.tid = 90;
        if (r.chance(1, 4)) op.code = S_SAVE;
        c.ops.push_back(op);
    }
    if (mode == 0) {
        Op op = question(r, ns);
        op.tid = 90;
        op.a[4] = 0;
        c.ops.push_back(op);
    }
    for (int64_t k = r.range(2, 6); k > 0; --k) {
        Op op = question(r, ns);
        op.tid = 91;
        c.ops.push_back(op);
    }
    for (int64_t k = mode == 0 ? r.range(1, 4) : r.range(0, 2); k > 0; --k) {
        Op op = question(r, ns);
        op.tid = 92;
        if (r.chance(2, 3)) op.code = S_SAVE;
        if (c.faults && op.code == S_SAVE && r.chance(1, 4)) op.a[6] = r.range(1, 60);
        c.ops.push_back(op);
    }
    for (int t = 0; t < T; ++t) {
        Op l;
        l.tid = t;
        l.code = S_LOAD;
        l.a[0] = r.range(0, ns - 1);
        l.a[1] = r.range(0, 9);
        if (c.faults && r.chance(1, 3)) l.a[6] = r.range(1, 120);
        c.ops.push_back(l);
        for (int64_t k = r.range(2, 9); k > 0; --k) {
            Op op;
            op.tid = t;
            op.code = r.chance(3, 4) ? S_NEXT : S_RESAVE;
            op.a[1] = r.range(0, 9);
            if (r.chance(1, 8)) {
                op.code = S_LOAD;
                op.a[0] = r.range(0, ns - 1);
            }
            if (c.faults && op.code != S_NEXT && r.chance(1, 5)) op.a[6] = r.range(1, 120);
            c.ops.push_back(op);
        }
    }
    c.p["iophase"] = 0;
    c.p["mangle"] = 0;
    c.p["cut"] = 0;
    if (!c.faults || mode == 1) return;
    if (r.chance(1, 2)) {
        c.p["mangle"] = r.chance(1, 2) ? 1 : r.range(2, 5);
        c.p["cut"] = r.chance(1, 2) ? r.range(0, 999) : -r.range(1, 64);
    }
    c.p["iophase"] = r.range(0, 1);
    switch (r.range(0, 9)) {
        case 0: c.io.short_read_at = (uint64_t) r.range(1, 6); break;
        case 1: c.io.short_write_at = (uint64_t) r.range(1, 6); break;
        case 2: c.io.eio_read_at = (uint64_t) r.range(1, 6); break;
        case 3: c.io.eio_write_at = (uint64_t) r.range(1, 6); break;
        case 4: c.io.enospc_after = (uint64_t) r.range(1, r.chance(1, 2) ? 2000 : 60); break;
        case 5: c.io.open_fail_at = (uint64_t) r.range(1, 8); break;
        case 6: c.io.close_fail_at = (uint64_t) r.range(1, 4); break;
        case 7: c.io.short_always = (uint64_t) r.range(1, 100); break;
        default:
            c.p["iophase"] = 0;
            c.io.crash_at = (uint64_t) r.range(1, 40);
    }
}
int two(const Case&) { return 2; }
const std::vector<const char*> probes{"", "saved", "loaded", "brownian-continued", "answers-after-restart", "saved-and-loaded-again"};
Scenario s0{"restart", "saved streams across crashes, restarts and damaged cache files", op_names,
            [](Rng& r, Case& c) { gen(r, c, 0); }, two, body, 1, probes, {"faults", "mangle", "fmt"}};
Scenario s1{"resume", "restored streams continue as the originals", op_names,
            [](Rng& r, Case& c) { gen(r, c, 1); }, two, body, 1, probes, {"faults", "fmt"}};
RegisterScenario r0(&s0), r1(&s1);
} // namespace
