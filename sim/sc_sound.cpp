// Streams whose data stay in a sound file: the real data source and the real
// libsndfile over simulated trouble with the file, against the samples that
// were written.
#include "streams_common.h"
#include <boost/url/parse.hpp>
#include <fcntl.h>
#include <roughpy/streams/schema.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

using namespace rp;

namespace {
enum OpCode { F_SIG, F_LSIG, F_IMPL, F_RESTR, F_OPEN_, F_BADOPEN, F_CUT, F_GONE, F_N };
const std::vector<const char*> op_names{"sig", "lsig", "impl", "restrict", "open", "badopen", "cut", "gone"};
// a[0] stream, a[1],a[2] interval in cells of 1/64, a[3] resolution, a[4] context, a[5] extra, a[6] failing allocation

struct FSpec {
    int64_t seed, ch, fmt, rate, secs, res, d, ct, vals;
    int64_t frames() const { return rate * secs; }
    int bytes() const { return fmt == 0 ? 2 : fmt == 3 ? 8 : 4; }
};
FSpec fspec(const Case& c, int i)
{
    std::string n = std::to_string(i);
    auto g = [&](const char* k, int64_t d) { return c.get((k + n).c_str(), d); };
    return {g("seed", 1), g("ch", 1), g("fmt", 0), g("rate", 16), g("secs", 1), g("res", 2), g("d", 2), g("ct", 0), g("vals", 0)};
}
double sample(const FSpec& s, int64_t f, int64_t ch)
{
    Rng r((uint64_t) (s.seed * 1000003 + f * 17 + ch));
    return (double) r.range(-64, 63) / 128.0; // exact in every format
}
void put(std::string& o, uint64_t v, int n)
{
    for (int i = 0; i < n; ++i) o.push_back((char) (v >> (8 * i)));
}
std::string wav(const FSpec& s)
{
    std::string data;
    for (int64_t f = 0; f < s.frames(); ++f)
        for (int64_t k = 0; k < s.ch; ++k) {
            double x = sample(s, f, k);
            switch (s.fmt) {
                case 0: put(data, (uint64_t) (int64_t) (x * 32768.0), 2); break;
                case 1: put(data, (uint64_t) (int64_t) (x * 2147483648.0), 4); break;
                case 2: { float y = (float) x; uint32_t u; memcpy(&u, &y, 4); put(data, u, 4); break; }
                default: { uint64_t u; memcpy(&u, &x, 8); put(data, u, 8); }
            }
        }
    std::string h = "RIFF";
    put(h, 36 + data.size(), 4);
    h += "WAVEfmt ";
    put(h, 16, 4);
    put(h, s.fmt < 2 ? 1 : 3, 2);
    put(h, (uint64_t) s.ch, 2);
    put(h, (uint64_t) s.rate, 4);
    put(h, (uint64_t) (s.rate * s.ch * s.bytes()), 4);
    put(h, (uint64_t) (s.ch * s.bytes()), 2);
    put(h, (uint64_t) (8 * s.bytes()), 2);
    h += "data";
    put(h, data.size(), 4);
    return h + data;
}
std::string name(int i) { return "s" + std::to_string(i) + ".wav"; }
void raw_write(const std::string& n, const std::string& b)
{
    int fd = (int) syscall(SYS_openat, AT_FDCWD, n.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
    if (fd < 0 || syscall(SYS_write, fd, b.data(), b.size()) != (long) b.size()) sim_error("cannot write %s", n.c_str());
    syscall(SYS_close, fd);
}
Stream open_stream(const FSpec& s, int i, bool bad)
{
    std::string path = name(i);
    auto uri = boost::urls::parse_uri_reference(path);
    auto f = streams::ExternalDataStream::get_factory_for(*uri);
    if (!f) throw std::runtime_error("not a readable sound file");
    f.set_width((deg_t) (bad ? s.ch + 1 : s.ch));
    f.set_depth((deg_t) s.d);
    f.set_resolution((resolution_t) s.res);
    f.set_ctype(ctype_of(s.ct));
    if (s.vals) {
        auto sc = std::make_shared<streams::StreamSchema>();
        for (int64_t k = 0; k < s.ch; ++k)
            if (s.vals >> k & 1) sc->insert_value("c" + std::to_string(k));
            else sc->insert_increment("c" + std::to_string(k));
        f.set_schema(std::move(sc));
    }
    return f.construct();
}
Dense model(const FSpec& s, int d, double lo, double hi)
{
    Dense r = Dense::one((int) s.ch, d);
    for (int64_t f = 1; f < s.frames(); ++f) {
        double t = (double) f / (double) s.rate;
        if (!(t >= lo && t < hi)) continue;
        std::vector<double> x;
        for (int64_t k = 0; k < s.ch; ++k) x.push_back(sample(s, f, k) - (s.vals >> k & 1 ? sample(s, f - 1, k) : 0.0));
        r = mul(r, exp_level1((int) s.ch, d, x));
    }
    return r;
}
struct Sh {
    const Case* c = nullptr;
    std::vector<FSpec> sp;
    std::vector<Stream> st;
    std::vector<int64_t> cut, gone;
};
uint64_t io_faults()
{
    auto* f = sim_result()->faults;
    return f[F_SHORT_READ] + f[F_EIO_READ] + f[F_OPEN] + f[F_SEEK] + f[F_EINTR] + f[F_CLOSE];
}
int open_fds()
{
    int n = 0;
    for (int fd = 0; fd < 256; ++fd) n += syscall(SYS_fcntl, fd, F_GETFD) >= 0;
    return n;
}
bool ld(const int64_t& x) { return __atomic_load_n(&x, __ATOMIC_ACQUIRE) != 0; }

void run_op(Sh* sh, size_t i)
{
    const Op& op = sh->c->ops[i];
    size_t si = (size_t) op.a[0];
    const FSpec& s = sh->sp[si];
    if (op.code == F_CUT) {
        __atomic_store_n(&sh->cut[si], 1, __ATOMIC_RELEASE);
        int64_t n = 44 + s.frames() * s.ch * s.bytes() * op.a[5] / 1000;
        struct stat sb;
        if (syscall(SYS_stat, name((int) si).c_str(), &sb) == 0 && sb.st_size > n) {
            syscall(SYS_truncate, name((int) si).c_str(), n);
            sim_fault(F_TRUNCATE);
        }
        return;
    }
    if (op.code == F_GONE) {
        __atomic_store_n(&sh->gone[si], 1, __ATOMIC_RELEASE);
        syscall(SYS_unlink, name((int) si).c_str());
        sim_fault(F_LOST_FILE);
        return;
    }
    Result r;
    uint64_t io0 = io_faults();
    double lo = (double) op.a[1] / 64.0, hi = (double) op.a[2] / 64.0;
    int res = (int) op.a[3], depth = (int) s.d;
    bool logsig = op.code == F_LSIG || op.code == F_IMPL;
    if (op.a[6]) sim_arm_alloc((uint64_t) op.a[6], 1);
    guard_op(r, [&] {
        Stream own;
        if (op.code == F_OPEN_ || op.code == F_BADOPEN) own = open_stream(s, (int) si, op.code == F_BADOPEN);
        const Stream& st = op.code == F_OPEN_ || op.code == F_BADOPEN ? own : sh->st[si];
        context_pointer cp = st.metadata().default_context;
        if (op.a[4]) cp = algebra::get_context((deg_t) s.ch, (deg_t) (s.d + (op.a[4] == 1)), ctype_of(op.a[4] == 2 ? 1 - s.ct : s.ct), {});
        const auto& ctx = *cp;
        depth = ctx.depth();
        RealInterval iv(lo, hi);
        FreeTensor t;
        switch (op.code) {
            case F_LSIG: t = ctx.lie_to_tensor(st.log_signature(iv, res, ctx)); break;
            case F_IMPL: t = ctx.lie_to_tensor(st.impl()->log_signature(iv, res, ctx)); break;
            case F_RESTR: t = st.restrict(RealInterval(lo, hi)).signature(RealInterval(lo - 0.25, hi), res, ctx); break;
            default: t = st.signature(iv, res, ctx);
        }
        encode(t, r);
    });
    bool fired = op.a[6] && sim_disarm_alloc() != 0;
    SimNoAllocFault nf;
    if (sim_held_locks()) sim_violation("lock-leak", "op %zu returned while its task still holds a lock", i);
    bool io = io_faults() != io0 || sh->c->io.eio_read_at;
    bool opening = op.code == F_OPEN_ || op.code == F_BADOPEN;
    if (!r.ok) {
        bool may = fired || io || ld(sh->cut[si]) || (opening && ld(sh->gone[si])) || op.code == F_BADOPEN;
        if (!may) sim_violation("wrong-error", "op %zu (%s) failed: %s", i, op_names[(size_t) op.code], r.err.c_str());
        ++sim_result()->ops_err;
        sim_probe(1);
        return;
    }
    if (op.code == F_BADOPEN) sim_violation("wrong-answer", "op %zu: a stream of another width than the file's was made", i);
    ++sim_result()->ops_ok;
    if (opening && ld(sh->cut[si])) return; // it was opened with whatever was left
    if (ld(sh->cut[si])) sim_probe(3);
    Dense m = model(s, depth, lo, hi);
    if (logsig) m = dlog(m);
    double e = max_diff(m, dense_of(r, (int) s.ch, depth));
    sim_probe(2);
    if (!(e <= (s.ct == 1 || op.a[4] == 2 ? 1e-3 : 1e-9) * std::max(1.0, max_abs(m))))
        sim_violation(io || fired || ld(sh->cut[si]) ? "wrong-answer-after-fault" : "wrong-answer",
                      "op %zu (%s): the answer over [%g,%g) differs by %g from that of the samples in the file", i,
                      op_names[(size_t) op.code], lo, hi, e);
}
struct TArg {
    Sh* sh;
    int tid;
};
void task(void* p)
{
    auto* a = (TArg*) p;
    for (size_t i = 0; i < a->sh->c->ops.size(); ++i)
        if (a->sh->c->ops[i].tid == a->tid) run_op(a->sh, i);
}
void body(const RunCtx& rc)
{
    const Case& c = rc.c;
    auto* sh = new Sh;
    sh->c = &c;
    int ns = (int) c.get("streams", 1);
    int fds = open_fds();
    for (int i = 0; i < ns; ++i) {
        sh->sp.push_back(fspec(c, i));
        raw_write(name(i), wav(sh->sp.back()));
        sh->st.push_back(c.get("lazy") ? Stream() : open_stream(sh->sp.back(), i, false));
        sh->cut.push_back(0);
        sh->gone.push_back(0);
    }
    int T = (int) c.get("tasks");
    std::vector<TArg> args;
    args.reserve((size_t) T);
    for (int t = 0; t < T; ++t) args.push_back({sh, t});
    for (int t = 0; t < T; ++t) sim_spawn(task, &args[(size_t) t]);
    sim_io_config(&c.io);
    sim_run(&c.sched);
    sim_io_config(nullptr);
    Case calm = c;
    calm.io = SimIoCfg();
    sh->c = &calm;
    for (size_t i = 0; i < c.ops.size(); ++i)
        if (c.ops[i].tid == 99) run_op(sh, i);
    delete sh;
    if (open_fds() != fds && !c.io.close_fail_at) sim_violation("leak", "%d file descriptors stay open", open_fds() - fds);
    sim_finish_ok();
}
void generate(Rng& r, Case& c)
{
    gen_heap(r, c);
    int T = r.chance(1, 2) ? 1 : (int) r.range(2, 3);
    gen_sched(r, c, T == 1);
    c.p["tasks"] = T;
    if (T > 1) c.p["lazy"] = r.range(0, 1); // nothing is open yet when the tasks start: theirs is the first use of the registry
    int ns = (int) r.range(1, 2);
    c.p["streams"] = ns;
    for (int i = 0; i < ns; ++i) {
        auto k = [&](const char* s) { return s + std::to_string(i); };
        c.p[k("seed")] = r.range(1, 10000);
        c.p[k("ch")] = r.range(1, 3);
        c.p[k("fmt")] = r.range(0, 3);
        c.p[k("rate")] = r.pick(std::vector<int64_t>{8, 16, 24, 64});
        c.p[k("secs")] = r.range(1, 2);
        c.p[k("res")] = r.range(1, 5);
        c.p[k("d")] = r.range(1, 3);
        c.p[k("ct")] = r.chance(2, 3) ? 0 : 1;
        c.p[k("vals")] = r.chance(1, 2) ? 0 : r.range(1, 7);
    }
    int n = (int) r.range(2, 5);
    bool alter = r.chance(1, 2);
    auto fill = [&](Op& op) {
        op.a[0] = r.range(0, ns - 1);
        std::string si = std::to_string(op.a[0]);
        int64_t res = r.range(0, 6), eff = std::min(res, c.p["res" + si]), len = 64 * c.p["secs" + si], cell = 64 >> eff;
        op.a[1] = r.range(0, len / cell - 1) * cell;
        op.a[2] = op.a[1] + r.range(1, (len - op.a[1]) / cell) * cell;
        op.a[3] = res;
        op.a[4] = alter && r.chance(1, 2) ? r.range(1, 2) : 0;
    };
    for (int t = 0; t < T; ++t)
        for (int k = 0; k < n; ++k) {
            Op op;
            op.tid = t;
            op.code = (int) r.range(c.get("lazy") ? (int) F_OPEN_ : 0, F_BADOPEN);
            if (c.get("lazy") && r.chance(2, 3)) op.code = F_OPEN_;
            fill(op);
            if (c.faults) {
                if (r.chance(1, 3)) op.a[6] = r.range(1, r.chance(1, 2) ? 30 : 400);
                if (r.chance(1, 8)) {
                    op.code = r.chance(2, 3) ? F_CUT : F_GONE;
                    op.a[5] = r.range(0, 999);
                    op.a[6] = 0;
                }
            }
            c.ops.push_back(op);
        }
    for (int k = 0; k < 3; ++k) {
        Op op;
        op.tid = 99;
        op.code = c.get("lazy") ? (int) F_OPEN_ : (int) r.range(0, F_OPEN_);
        fill(op);
        c.ops.push_back(op);
    }
    if (!c.faults) return;
    auto at = [&] { return (uint64_t) r.range(1, r.chance(1, 2) ? 6 : 60); };
    switch (r.range(0, 6)) {
        case 0: c.io.short_read_at = at(); break;
        case 1: c.io.eio_read_at = at(); break;
        case 2: c.io.open_fail_at = at() % 6 + 1; break;
        case 3: c.io.seek_fail_at = at(); break;
        case 4: c.io.eintr_at = at(); break;
        case 5: c.io.short_always = (uint64_t) r.range(1, 40); break;
        default: break;
    }
}
int one(const Case&) { return 1; }
Scenario s0{"sound", "streams over sound files on a troubled disk", op_names, generate, one, body, 0,
            {"", "failed-op", "model-checked", "answer-from-a-cut-file"}, {"faults"}};
RegisterScenario r0(&s0);
} // namespace
