// Objects of every archived kind written to files by a process that may die or run out of disk at any call, the
// files cut, and read by another: what is incomplete must be refused, what is whole must be read.
#include "streams_common.h"
#include <fstream>
#include <fcntl.h>
#include <roughpy/core/slice.hpp>
#include <sys/stat.h>
#include <unistd.h>

using namespace rp;

namespace {
enum Type { T_FT, T_LIE, T_SH, T_SCALAR, T_KARRAY, T_ARRAY, T_IVL, T_DYADIC, T_STREAM, T_BROWN, T_PART, T_N };
const std::vector<const char*> op_names{"save", "load"};
enum OpCode { O_SAVE, O_LOAD };
// save (tid 90): a[0] type, a[1] seed, a[2] scalar type, a[3] vector type, a[4] format
// load: a[0] which saved file, a[1] cut (0 none, else position in thousandths or, negative, bytes from the end),
//       a[2] target holds something already, a[3] read from memory, a[4] the rest from here on reads as zeros (a file whose
//       size reached the disk and whose data did not), a[6] failing allocation

const char* const type_names[] = {"free tensor", "Lie", "shuffle tensor", "scalar", "array with keys", "array",
                                  "interval", "dyadic interval", "stream", "Brownian stream", "partition"};
struct Any {
    FreeTensor ft;
    Lie lie;
    ShuffleTensor sh;
    scalars::Scalar s;
    scalars::KeyScalarArray k;
    scalars::ScalarArray a;
    RealInterval iv;
    DyadicInterval di;
    intervals::Partition pt{RealInterval(0, 1)};
    Stream st;
};
template <typename F> void with(int type, Any& x, F&& f)
{
    switch (type) {
        case T_FT: f(x.ft); break;
        case T_LIE: f(x.lie); break;
        case T_SH: f(x.sh); break;
        case T_SCALAR: f(x.s); break;
        case T_KARRAY: f(x.k); break;
        case T_ARRAY: f(x.a); break;
        case T_IVL: f(x.iv); break;
        case T_DYADIC: f(x.di); break;
        case T_PART: f(x.pt); break;
        default: f(x.st);
    }
}
double val(Rng& r) { return (double) r.range(-32, 32) / 8.0; }
StreamSpec sspec(Rng& r, int64_t ct, int64_t vt)
{
    StreamSpec s;
    s.seed = r.range(1, 1000);
    s.n = r.range(1, 8);
    s.res = r.range(1, 4);
    s.w = r.range(1, 3);
    s.d = r.range(1, 2);
    s.ct = ct;
    s.vt = vt;
    return s;
}
void make(int type, uint64_t seed, int64_t ct, int64_t vt, Any& x)
{
    Rng r(seed * 977 + 3);
    const ScalarType* T = ctype_of(ct);
    auto V = vt ? VectorType::Sparse : VectorType::Dense;
    int w = (int) r.range(1, 3), d = (int) r.range(1, 3);
    auto arr = [&](dimn_t n) {
        std::vector<double> v;
        for (dimn_t i = 0; i < n; ++i) v.push_back(val(r));
        scalars::ScalarArray a(T, n);
        if (n) T->convert_copy(a, {ctype_of(0), v.data(), v.size()});
        return a;
    };
    switch (type) {
        case T_FT:
        case T_SH:
        case T_LIE: {
            auto ctx = algebra::get_context((deg_t) w, (deg_t) d, T, {});
            dimn_t n = type == T_LIE ? ctx->lie_size((deg_t) d) : ctx->tensor_size((deg_t) d);
            scalars::KeyScalarArray k(arr((dimn_t) r.range(1, (int64_t) n)));
            if (type == T_FT) x.ft = ctx->construct_free_tensor({std::move(k), V});
            else if (type == T_SH) x.sh = ctx->construct_shuffle_tensor({std::move(k), V});
            else
                x.lie = ctx->construct_lie({std::move(k), V});
            break;
        }
        case T_SCALAR: x.s = scalars::Scalar(T, val(r)); break;
        case T_ARRAY: x.a = arr((dimn_t) r.range(0, 9)); break;
        case T_KARRAY: {
            x.k = scalars::KeyScalarArray(arr((dimn_t) r.range(1, 9)));
            if (r.chance(1, 2)) {
                x.k.allocate_keys();
                key_type* k = x.k.keys();
                for (dimn_t i = 0; i < x.k.size(); ++i) k[i] = (key_type) r.range(0, 1 << 20);
            }
            break;
        }
        case T_IVL: {
            double a = val(r);
            x.iv = RealInterval(a, a + (double) r.range(1, 99) / 16,
                                r.chance(1, 2) ? intervals::IntervalType::Clopen : intervals::IntervalType::Opencl);
            break;
        }
        case T_DYADIC: x.di = DyadicInterval((intervals::Dyadic::multiplier_t) r.range(-99, 99), (intervals::Dyadic::power_t) r.range(-3, 9)); break;
        case T_PART: {
            double a = val(r), b = a + 8;
            intervals::Partition p{RealInterval(a, b)};
            for (int64_t i = r.range(0, 6); i > 0; --i) p.insert_intermediate(a + (double) r.range(1, 127) / 16);
            x.pt = p;
            break;
        }
        case T_STREAM: {
            auto s = sspec(r, ct == 3 ? 0 : ct, vt);
            s.kind = K_LIE;
            Stream st(std::shared_ptr<const streams::StreamInterface>(make_impl(s)));
            if (r.chance(1, 3)) st.restrict_to(RealInterval(0.25, 0.75));
            x.st = st;
            break;
        }
        default: {
            auto s = sspec(r, ct >= 2 ? 0 : ct, vt);
            scalars::seed_int_t sd = (scalars::seed_int_t) s.seed;
            auto md = make_md(s);
            auto gen = ctype_of(s.ct)->get_rng(r.chance(1, 2) ? "mt19937" : "pcg", Slice<scalars::seed_int_t>(&sd, 1));
            Stream st(std::shared_ptr<const streams::StreamInterface>(std::make_shared<streams::BrownianStream>(std::move(gen), md)));
            for (int64_t i = r.range(0, 2); i > 0; --i) (void) st.log_signature(RealInterval(0, r.range(1, 4) / 4.0), (int) s.res, *md.default_context);
            x.st = st;
        }
    }
}
void add_scalars(const scalars::ScalarArray& a, Result& r)
{
    auto t = a.type();
    r.extra = a.size() * 131 + (t ? std::hash<std::string>()(std::string((*t)->id())) % 1000003 : 0);
    for (dimn_t i = 0; i < a.size(); ++i) {
        double d = to_double(a[i]);
        SimNoAllocFault nf;
        r.v.emplace_back(i, d);
    }
}
template <typename A> uint64_t shape(const A& a)
{
    if (!a.context()) return 0;
    return (uint64_t) a.context()->width() * 100 + (uint64_t) a.context()->depth() * 10 + (a.storage_type() == VectorType::Sparse);
}
// what can be seen of the object
void digest(int type, const Any& x, Result& r)
{
    auto put = [&](double d) { r.v.emplace_back(r.v.size(), d); };
    switch (type) {
        case T_FT: encode(x.ft, r); r.extra = shape(x.ft); break;
        case T_LIE: encode(x.lie, r); r.extra = shape(x.lie); break;
        case T_SH: encode(x.sh, r); r.extra = shape(x.sh); break;
        case T_SCALAR: put(to_double(x.s)); r.extra = x.s.type() ? std::hash<std::string>()(std::string((*x.s.type())->id())) % 1000003 : 0; break;
        case T_ARRAY: add_scalars(x.a, r); break;
        case T_KARRAY:
            add_scalars(x.k, r);
            for (dimn_t i = 0; i < x.k.size(); ++i) put(x.k.has_keys() ? (double) x.k.keys()[i] : -1.0);
            break;
        case T_IVL: put(x.iv.inf()); put(x.iv.sup()); put((double) (int) x.iv.type()); break;
        case T_DYADIC: put(x.di.inf()); put(x.di.sup()); put((double) (int) x.di.type()); put(x.di.power()); break;
        case T_PART: {
            put(x.pt.inf());
            put(x.pt.sup());
            put((double) (int) x.pt.type());
            for (dimn_t i = 0; i < x.pt.size(); ++i) { put(x.pt[i].inf()); put(x.pt[i].sup()); }
            break;
        }
        default: {
            const auto& md = x.st.metadata();
            encode(x.st.log_signature(RealInterval(0.25, 1), 3, *md.default_context), r);
            SimNoAllocFault nf;
            r.extra = (uint64_t) md.width * 1000 + (uint64_t) md.default_context->depth() * 100 + (uint64_t) (md.default_resolution + 50);
            put(x.st.support().inf());
            put(x.st.support().sup());
        }
    }
    r.ok = 1;
}
template <typename S> void save_to(int64_t fmt, int type, Any& x, S& ss)
{
    with(type, x, [&](auto& o) {
        switch (fmt) {
            case 1: { archives::JSONOutputArchive ar(ss); ar(o); break; }
            case 2: { archives::XMLOutputArchive ar(ss); ar(o); break; }
            case 3: { archives::PortableBinaryOutputArchive ar(ss); ar(o); break; }
            default: { archives::BinaryOutputArchive ar(ss); ar(o); }
        }
    });
}
template <typename S> void load_from(int64_t fmt, int type, Any& x, S& ss)
{
    with(type, x, [&](auto& o) {
        switch (fmt) {
            case 1: { archives::JSONInputArchive ar(ss); ar(o); break; }
            case 2: { archives::XMLInputArchive ar(ss); ar(o); break; }
            case 3: { archives::PortableBinaryInputArchive ar(ss); ar(o); break; }
            default: { archives::BinaryInputArchive ar(ss); ar(o); }
        }
    });
}
std::string file_of(size_t i) { return "obj" + std::to_string(i); }

struct Saved {
    size_t op;
    std::string bytes; // the whole archive
    Result d;
};
struct Sh {
    const Case* c;
    std::vector<Saved> saved;
};
void phase_a(const Case& c)
{
    for (size_t i = 0; i < c.ops.size(); ++i) {
        const Op& op = c.ops[i];
        if (op.code != O_SAVE) continue;
        Any x;
        int type = (int) op.a[0];
        std::string b;
        Result d;
        {
            make(type, (uint64_t) op.a[1], op.a[2], op.a[3], x);
            std::stringstream ss;
            Result r;
            guard_op(r, [&] { save_to(op.a[4], type, x, ss); });
            if (!r.ok) sim_violation("save-failed", "op %zu: saving a %s failed: %s", i, type_names[type], r.err.c_str());
            b = ss.str();
            Any y; // Brownian streams draw when asked: look at a copy made from the archive
            if (type == T_BROWN) {
                Result q;
                guard_op(q, [&] { std::stringstream in(b); load_from(op.a[4], type, y, in); digest(type, y, d); });
                if (!q.ok) sim_violation("load-failed", "op %zu: a %s cannot be read back: %s", i, type_names[type], q.err.c_str());
            } else
                digest(type, x, d);
        }
        OutBuf o;
        o.u32((uint32_t) i);
        o.str(b);
        d.save(o);
        sim_out(o.b.data(), o.b.size());
        sim_io_config(&c.io);
        {
            std::ofstream f(file_of(i), std::ios::binary);
            f.write(b.data(), (std::streamsize) b.size()); // what an archive on the file would hand to it
            f.flush();
        }
        sim_io_config(nullptr);
        sim_probe(1);
    }
}
struct TArg {
    Sh* sh;
    int tid;
};
void task(void* q)
{
    auto* a = (TArg*) q;
    Sh* sh = a->sh;
    const Case& c = *sh->c;
    for (size_t i = 0; i < c.ops.size(); ++i) {
        const Op& op = c.ops[i];
        if (op.tid != a->tid || op.code != O_LOAD || sh->saved.empty()) continue;
        const Saved& s = sh->saved[(size_t) op.a[0] % sh->saved.size()];
        const Op& so = c.ops[s.op];
        const int type = (int) so.a[0];
        const int64_t fmt = so.a[4];
        std::string name = file_of(s.op);
        std::string there; // what the file holds
        if (op.a[3]) {
            there = s.bytes;
            size_t len = op.a[1] > 0 ? s.bytes.size() * (size_t) op.a[1] / 1000 : s.bytes.size() - std::min<size_t>(s.bytes.size(), (size_t) -op.a[1]);
            if (op.a[1]) there.resize(len);
            if (op.a[4]) {
                size_t from = op.a[4] > 0 ? there.size() * (size_t) op.a[4] / 1000 : there.size() - std::min<size_t>(there.size(), (size_t) -op.a[4]);
                std::fill(there.begin() + (std::ptrdiff_t) from, there.end(), '\0');
            }
            if (op.a[1] || op.a[4]) sim_fault(F_TRUNCATE);
        } else {
            struct stat sb;
            if (stat(name.c_str(), &sb) == 0) there.assign((size_t) sb.st_size, 0);
        }
        const bool zeros = op.a[3] && op.a[4] && there != s.bytes;
        const bool whole = there.size() == s.bytes.size() && !zeros;
        Any x;
        const bool array = type == T_ARRAY || type == T_KARRAY; // only empty ones can be read into
        if (op.a[2] && !array) {
            SimNoAllocFault nf;
            make(type, (uint64_t) op.a[2] + 5000, so.a[2], so.a[3], x);
        }
        const bool armed = op.a[6] && (fmt == 0 || fmt == 3);
        Result r;
        int io0 = (int) sim_result()->faults[F_EIO_READ];
        if (armed) sim_arm_alloc((uint64_t) op.a[6], 1);
        guard_op(r, [&] {
            if (op.a[3]) {
                std::stringstream in(there);
                load_from(fmt, type, x, in);
            } else {
                std::ifstream in(name, std::ios::binary);
                load_from(fmt, type, x, in);
            }
        });
        bool fired = armed && sim_disarm_alloc();
        bool io = (int) sim_result()->faults[F_EIO_READ] != io0 || c.io.open_fail_at || c.io.seek_fail_at;
        sim_hash(r.ok);
        if (r.ok) {
            Result d, dr;
            guard_op(dr, [&] { digest(type, x, d); });
            if (!dr.ok && !zeros) sim_violation("wrong-object", "op %zu: a %s read without an error cannot be used: %s", i, type_names[type], dr.err.c_str());
            std::string why;
            double tol = fmt == 1 || fmt == 2 ? tol_of(so.a[2]) : 1e-12;
            if (zeros) {
                sim_probe(6); // no archive can tell
                continue;
            }
            if (d.extra != s.d.extra || !same(d, s.d, tol, &why))
                sim_violation("wrong-object", "op %zu: reading %zu of the %zu bytes of a %s (format %d) gave something else without an error: %s", i,
                              there.size(), s.bytes.size(), type_names[type], (int) fmt, why.empty() ? "other type, size or basis" : why.c_str());
            ++sim_result()->ops_ok;
            sim_probe(whole ? 2 : 4);
        } else {
            if (whole && !fired && !io)
                sim_violation("load-failed", "op %zu: a %s (format %d) could not be read although its archive is whole: %s", i, type_names[type],
                              (int) fmt, r.err.c_str());
            if (whole && !io && fired && r.err != "bad_alloc")
                sim_violation("wrong-error", "op %zu: reading a %s without enough memory: %s", i, type_names[type], r.err.c_str());
            if (!whole && !zeros && !fired && r.err == "bad_alloc")
                sim_violation("wrong-error", "op %zu: reading %zu of the %zu bytes of a %s (format %d) exhausted memory", i, there.size(), s.bytes.size(),
                              type_names[type], (int) fmt);
            ++sim_result()->ops_err;
            sim_probe(whole ? 5 : 3);
            // the target is as good as new
            Result r2, d;
            guard_op(r2, [&] {
                std::stringstream in(s.bytes);
                if (array) x = Any();
                load_from(fmt, type, x, in);
                digest(type, x, d);
            });
            std::string why;
            if (!r2.ok || d.extra != s.d.extra || !same(d, s.d, 1e-4, &why))
                sim_violation("target-spoilt", "op %zu: after a refused archive its target cannot take a whole %s (format %d): %s", i, type_names[type],
                              (int) fmt, r2.ok ? why.c_str() : r2.err.c_str());
        }
        if (sim_held_locks()) sim_violation("lock-leak", "op %zu returned while its task still holds a lock", i);
    }
}
void body(const RunCtx& rc)
{
    const Case& c = rc.c;
    if (rc.phase == 0) {
        phase_a(c);
        sim_finish_ok();
    }
    auto* sh = new Sh;
    sh->c = &c;
    if (rc.prev[0]->status == SIM_ST_CRASHPOINT) sim_fault(F_RESTART);
    InBuf in(rc.prev[0]->out, rc.prev[0]->outlen);
    while (!in.done()) {
        Saved s;
        s.op = in.u32();
        s.bytes = in.str();
        s.d.load(in);
        int64_t cut = c.get("cut");
        struct stat sb;
        if (cut && s.op % 2 == (size_t) c.get("cutwhich") && stat(file_of(s.op).c_str(), &sb) == 0) {
            int64_t n = cut > 0 ? sb.st_size * cut / 1000 : std::max<int64_t>(0, sb.st_size + cut);
            if (truncate(file_of(s.op).c_str(), n) == 0) sim_fault(F_TRUNCATE);
        }
        sh->saved.push_back(std::move(s));
    }
    SimIoCfg io = c.io;
    io.crash_at = io.enospc_after = io.eio_write_at = io.short_write_at = io.close_fail_at = 0;
    if (c.get("readfaults")) sim_io_config(&io);
    int T = (int) c.get("tasks");
    std::vector<TArg> args;
    args.reserve((size_t) T);
    for (int t = 0; t < T; ++t) args.push_back({sh, t});
    for (int t = 0; t < T; ++t) sim_spawn(task, &args[(size_t) t]);
    sim_run(&c.sched);
    sim_io_config(nullptr);
    delete sh;
    sim_finish_ok();
}
void gen(Rng& r, Case& c)
{
    gen_heap(r, c);
    int T = r.chance(1, 2) ? 1 : (int) r.range(2, 3);
    gen_sched(r, c, T == 1);
    c.p["tasks"] = T;
    int n = (int) r.range(1, 4);
    for (int i = 0; i < n; ++i) {
        Op op;
        op.tid = 90;
        op.code = O_SAVE;
        op.a[0] = r.range(0, T_N - 1);
        op.a[1] = r.range(0, 999);
        op.a[2] = r.range(0, 3);
        op.a[3] = r.range(0, 1);
        op.a[4] = r.chance(1, 2) ? 0 : r.range(1, 3);
        c.ops.push_back(op);
    }
    for (int t = 0; t < T; ++t)
        for (int64_t k = r.range(2, 8); k > 0; --k) {
            Op op;
            op.tid = t;
            op.code = O_LOAD;
            op.a[0] = r.range(0, n - 1);
            op.a[2] = r.chance(1, 3) ? r.range(1, 99) : 0;
            op.a[3] = r.chance(1, 2);
            if (c.faults && r.chance(2, 3)) {
                op.a[3] = 1;
                op.a[1] = r.chance(1, 2) ? r.range(1, 999) : -r.range(1, 40);
            } else if (c.faults && r.chance(1, 3)) {
                op.a[3] = 1;
                op.a[4] = r.chance(1, 2) ? r.range(1, 999) : -r.range(1, 40);
            } else if (c.faults && r.chance(1, 3))
                op.a[6] = r.range(1, 60);
            c.ops.push_back(op);
        }
    c.p["cut"] = c.p["cutwhich"] = c.p["readfaults"] = 0;
    if (!c.faults) return;
    if (r.chance(1, 2)) c.p["cut"] = r.chance(1, 2) ? r.range(1, 999) : -r.range(1, 64);
    c.p["cutwhich"] = r.range(0, 1);
    c.p["readfaults"] = r.range(0, 1);
    switch (r.range(0, 8)) {
        case 0: c.io.short_read_at = (uint64_t) r.range(1, 6); break;
        case 1: c.io.short_write_at = (uint64_t) r.range(1, 4); break;
        case 2: c.io.eio_read_at = (uint64_t) r.range(1, 6); break;
        case 3: c.io.eio_write_at = (uint64_t) r.range(1, 4); break;
        case 4: c.io.enospc_after = (uint64_t) r.range(1, r.chance(1, 2) ? 1500 : 60); break;
        case 5: c.io.open_fail_at = (uint64_t) r.range(1, 4); break;
        case 6: c.io.short_always = (uint64_t) r.range(1, 100); break;
        default: c.io.crash_at = (uint64_t) r.range(1, 12);
    }
}
int two(const Case&) { return 2; }
const std::vector<const char*> probes{"", "saved", "whole archives read", "incomplete archives refused", "incomplete archives that held everything", "whole archives refused for a fault", "archives that end in zeros accepted"};
Scenario s0{"torn", "archives cut short by crashes and full disks", op_names, [](Rng& r, Case& c) { gen(r, c); }, two, body, 1, probes, {"faults", "cut", "readfaults"}};
RegisterScenario r0(&s0);
} // namespace
