// Streams that make up their path as they are asked about it (Brownian motion,
// bisected increments): whatever is asked, in whatever order, by however many
// threads, all answers must describe one and the same path.
#include "streams_common.h"
#include <roughpy/core/slice.hpp>
#include <roughpy/scalars/random.h>

using namespace rp;

namespace {
enum OpCode { P_SIG, P_LSIG, P_DYADIC, P_IMPL, P_RESTRICT, P_SAVE, P_MOVE, P_N };
const std::vector<const char*> op_names{"sig", "lsig", "dyadic", "impl", "restrict", "save", "move"};
// a[0] stream, a[1],a[2] interval in cells of 1/64, a[3] resolution, a[4] context, a[6] failing allocation

// base-class bisection: increments of roots come from a table, everything below
// from halving
class BisectStream : public streams::DynamicallyConstructedStream
{
    int64_t m_seed, m_w, m_vt;

public:
    BisectStream(StreamMetadata md, int64_t seed, int64_t w, int64_t vt)
        : DynamicallyConstructedStream(std::move(md)), m_seed(seed), m_w(w), m_vt(vt)
    {}

protected:
    Lie log_signature_impl(const intervals::Interval& i, const algebra::Context& ctx) const override
    {
        Rng r((uint64_t) (m_seed * 1000 + (int64_t) (i.inf() * 64)) * 31 + (uint64_t) ((i.sup() - i.inf()) * 64));
        std::vector<double> x;
        for (int64_t k = 0; k < m_w; ++k) x.push_back((double) r.range(-16, 16) / 8.0);
        return lie_level1(ctx, x, m_vt);
    }
};

struct PSpec {
    int64_t kind, seed, res, w, d, ct, vt, sup;
};
PSpec pspec(const Case& c, int i)
{
    std::string n = std::to_string(i);
    auto g = [&](const char* k, int64_t d) { return c.get((k + n).c_str(), d); };
    return {g("kind", 0), g("seed", 1), g("res", 3), g("w", 2), g("d", 2), g("ct", 0), g("vt", 0), g("sup", 8)};
}
StreamMetadata md_of(const PSpec& s)
{
    auto* ct = ctype_of(s.ct);
    return {(deg_t) s.w, RealInterval((double) -s.sup, (double) s.sup), algebra::get_context((deg_t) s.w, (deg_t) s.d, ct, {}), ct,
            s.vt ? VectorType::Sparse : VectorType::Dense, (resolution_t) s.res, intervals::IntervalType::Clopen};
}
std::shared_ptr<streams::StreamInterface> make_path(const PSpec& s)
{
    if (s.kind == 2) return std::make_shared<BisectStream>(md_of(s), s.seed, s.w, s.vt);
    scalars::seed_int_t sd = (scalars::seed_int_t) s.seed;
    auto gen = ctype_of(s.ct)->get_rng(s.kind == 1 ? "mt19937" : "pcg", Slice<scalars::seed_int_t>(&sd, 1));
    return std::make_shared<streams::BrownianStream>(std::move(gen), md_of(s));
}

struct Rec { // what a query answered
    int si = -1; // -1: no answer
    uint64_t done = 0;
    size_t op;
    double lo, hi;
    int res;
    deg_t depth;
    bool logsig;
    Dense t; // tensor form
};
struct Live {
    PSpec sp;
    int orig = -1; // which stream of the case it is
    std::shared_ptr<streams::StreamInterface> impl;
    Stream st;
};
struct Saved { // an archive, and when the saving began
    uint64_t since = 0;
    std::string bytes;
};
struct Sh {
    const Case* c = nullptr;
    std::vector<Live> L, twin;
    std::vector<Rec> recs;
    std::vector<Result> results; // by op
    bool uniform = true;
    std::vector<Saved> saved; // by op
};

context_pointer op_ctx(const PSpec& s, int64_t sel)
{
    deg_t d = (deg_t) s.d;
    if (sel == 1) ++d;
    if (sel == 2 && d > 1) --d;
    return algebra::get_context((deg_t) s.w, d, ctype_of(s.ct), {});
}
// the answer to one query
void query(Live& l, const Op& op, Result& r, Rec& rec)
{
    const PSpec& s = l.sp;
    guard_op(r, [&] {
        context_pointer cp = op.a[4] ? op_ctx(s, op.a[4]) : l.impl->metadata().default_context;
        const algebra::Context& ctx = *cp;
        double lo = (double) op.a[1] / 64.0, hi = (double) op.a[2] / 64.0;
        int res = (int) op.a[3];
        rec.lo = lo;
        rec.hi = hi;
        rec.res = res;
        rec.depth = ctx.depth();
        rec.logsig = op.code != P_SIG;
        RealInterval iv(lo, hi);
        FreeTensor t;
        switch (op.code) {
            case P_SIG: t = l.st.signature(iv, res, ctx); break;
            case P_RESTRICT: {
                Stream q = l.st.restrict(RealInterval(lo - 0.25, hi));
                t = ctx.lie_to_tensor(q.log_signature(iv, res, ctx));
                break;
            }
            case P_LSIG: t = ctx.lie_to_tensor(l.st.log_signature(iv, res, ctx)); break;
            case P_IMPL: t = ctx.lie_to_tensor(l.impl->log_signature(iv, res, ctx)); break;
            default: {
                // the widest dyadic interval that starts at lo and is allowed by res
                int p = std::min(res, 6);
                int64_t cell = 64 >> p, k = op.a[1] / cell;
                while (p > 0 && k % 2 == 0 && (k / 2) * 2 * cell + 2 * cell <= op.a[2]) {
                    --p;
                    cell *= 2;
                    k /= 2;
                }
                rec.lo = (double) (k * cell) / 64;
                rec.hi = (double) ((k + 1) * cell) / 64;
                const auto& dc = *l.impl->metadata().default_context;
                rec.depth = dc.depth();
                t = dc.lie_to_tensor(l.impl->log_signature(DyadicInterval((int) k, p), res, dc));
            }
        }
        encode(t, r);
        SimNoAllocFault nf;
        rec.t = dense_of(r, (int) s.w, (int) rec.depth);
    });
}
void run_op(Sh* sh, size_t i)
{
    const Op& op = sh->c->ops[i];
    int si = (int) op.a[0];
    Live& l = sh->L[(size_t) si];
    if (op.code == P_MOVE) {
        if (sh->c->get("tasks") != 1) return;
        // the stream object moves to another address, its path must not change
        if (l.sp.kind == 2) {
            auto n = std::make_shared<BisectStream>(std::move(static_cast<BisectStream&>(*l.impl)));
            l.st = Stream(std::shared_ptr<const streams::StreamInterface>(n));
            l.impl = n;
        } else {
            auto n = std::make_shared<streams::BrownianStream>(std::move(static_cast<streams::BrownianStream&>(*l.impl)));
            l.st = Stream(std::shared_ptr<const streams::StreamInterface>(n));
            l.impl = n;
        }
        sim_probe(3);
        return;
    }
    Result r;
    if (op.code == P_SAVE) {
        if (l.sp.kind == 2) return; // (has no archive form)
        Saved& sv = sh->saved[i];
        sv.since = sim_total_steps();
        if (op.a[6]) sim_arm_alloc((uint64_t) op.a[6], 1);
        guard_op(r, [&] {
            std::stringstream ss;
            archives::BinaryOutputArchive ar(ss);
            ar(l.st);
            if (!ss) throw std::bad_alloc();
            SimNoAllocFault nf;
            sv.bytes = ss.str();
        });
        bool fired = op.a[6] && sim_disarm_alloc() != 0;
        if (sim_held_locks()) sim_violation("lock-leak", "op %zu returned while its task still holds a lock", i);
        if (!r.ok && !(fired && r.err == "bad_alloc")) sim_violation("wrong-error", "op %zu failed: %s", i, r.err.c_str());
        if (!r.ok) sv.bytes.clear();
        return;
    }
    Rec rec;
    rec.si = si;
    rec.op = i;
    if (op.a[6]) sim_arm_alloc((uint64_t) op.a[6], 1);
    query(l, op, r, rec);
    bool fired = op.a[6] && sim_disarm_alloc() != 0;
    if (sim_held_locks()) sim_violation("lock-leak", "op %zu returned while its task still holds a lock", i);
    if (op.a[4]) sim_fault(F_DEPTH_CTX);
    for (auto& x : r.v) {
        union { double d; uint64_t u; } z;
        z.d = x.second;
        sim_hash(x.first * 31 + z.u);
    }
    if (!r.ok) {
        if (!(fired && r.err == "bad_alloc")) sim_violation("wrong-error", "op %zu failed: %s", i, r.err.c_str());
        ++sim_result()->ops_err;
        sim_probe(1);
        return;
    }
    ++sim_result()->ops_ok;
    rec.done = sim_total_steps();
    sh->recs[i] = std::move(rec);
    sh->results[i] = r;
}
struct TArg {
    Sh* sh;
    int tid;
};
void task(void* p)
{
    auto* a = (TArg*) p;
    for (size_t i = 0; i < a->sh->c->ops.size(); ++i)
        if (a->sh->c->ops[i].tid == a->tid) run_op(a->sh, i);
}
double scale(const Dense& a) { return std::max(1.0, max_abs(a)); }

// is S, the sum of squares of n independent standard normals, believable?
bool chi_ok(double S, double n)
{
    double z = (std::cbrt(S / n) - (1 - 2 / (9 * n))) / std::sqrt(2 / (9 * n));
    return std::fabs(z) < 7.5;
}

void check_stream(Sh* sh, int si)
{
    Live& l = sh->L[(size_t) si];
    const PSpec& s = l.sp;
    int rmax = 0;
    int64_t lo = 1000, hi = -1000;
    for (auto& r : sh->recs)
        if (r.si == si) {
            rmax = std::max(rmax, r.res);
            lo = std::min(lo, (int64_t) (r.lo * 64));
            hi = std::max(hi, (int64_t) (r.hi * 64));
        }
    if (lo >= hi) return;
    // (also the failed queries may have refined the path)
    for (auto& o : sh->c->ops)
        if (o.a[0] == l.orig && o.code != P_MOVE) rmax = std::max(rmax, (int) o.a[3]);
    int64_t cell = 64 >> rmax;
    lo = lo / cell * cell - (lo % cell < 0 ? cell : 0);
    const double tol = s.ct == 1 ? 2e-3 : 1e-8;
    // what the stream now holds for wider intervals, before anything is refined
    std::vector<std::pair<std::pair<int64_t, int64_t>, std::vector<double>>> held;
    const int64_t lo0 = lo, hi0 = hi;
    for (int p = 6; p >= -2; --p) {
        const int64_t g = 256 >> (p + 2);
        int64_t k0 = lo0 / g - (lo0 % g < 0), k1 = (hi0 - 1) / g - ((hi0 - 1) % g < 0);
        if (p > rmax) continue;
        for (int64_t k : {k0, (k0 + k1) / 2, k1}) {
            if (!held.empty() && held.back().first == std::make_pair(k * g, k * g + g)) continue;
            if (std::max(hi, k * g + g) - std::min(lo, k * g) > 8 * 64) continue;
            Result r;
            guard_op(r, [&] {
                const auto& dc = *l.impl->metadata().default_context;
                encode(dc.lie_to_tensor(l.impl->log_signature(DyadicInterval((int) k, p), p, dc)), r);
            });
            if (!r.ok) sim_violation("wrong-error", "stream %d: query of [%g,%g) failed: %s", si, (double) (k * g) / 64, (double) (k * g + g) / 64, r.err.c_str());
            Dense e(dense_of(r, (int) s.w, (int) s.d));
            held.push_back({{k * g, k * g + g}, {e.c.begin() + 1, e.c.begin() + 1 + s.w}});
            lo = std::min(lo, k * g);
            hi = std::max(hi, k * g + g);
        }
    }
    // the path, one cell of the finest resolution at a time
    size_t n = (size_t) ((hi - lo) / cell);
    std::vector<std::vector<double>> inc(n);
    const auto& dc = *l.impl->metadata().default_context;
    for (size_t k = 0; k < n; ++k) {
        Result r;
        guard_op(r, [&] { encode(dc.lie_to_tensor(l.impl->log_signature(DyadicInterval((int) (lo / cell + (int64_t) k), rmax), rmax, dc)), r); });
        if (!r.ok) sim_violation("wrong-error", "stream %d: query of cell %zu failed: %s", si, k, r.err.c_str());
        inc[k].assign((size_t) s.w, 0.0);
        Dense e(dense_of(r, (int) s.w, (int) s.d));
        for (int j = 0; j < s.w; ++j) inc[k][(size_t) j] = e.c[(size_t) (1 + j)];
        Dense want = dlog(exp_level1((int) s.w, (int) s.d, inc[k]));
        if (!(max_diff(e, want) <= tol)) sim_violation("not-one-path", "stream %d: the log signature of a finest cell is not its increment", si);
    }
    for (auto& h : held)
        for (int j = 0; j < s.w; ++j) {
            double sum = 0, g = h.second[(size_t) j];
            for (int64_t k = (h.first.first - lo) / cell; k < (h.first.second - lo) / cell; ++k) sum += inc[(size_t) k][(size_t) j];
            if (!(std::fabs(g - sum) <= tol * std::max(1.0, std::fabs(g))))
                sim_violation("not-one-path", "stream %d: after all queries the increment over [%g,%g) was %.12g in direction %d, but the path's increments there add up to %.12g",
                              si, (double) h.first.first / 64, (double) h.first.second / 64, g, j, sum);
        }
    for (auto& r : sh->recs) {
        if (r.si != si) continue;
        int64_t a = ((int64_t) (r.lo * 64) - lo) / cell, b = ((int64_t) (r.hi * 64) - lo) / cell;
        std::vector<double> sum((size_t) s.w, 0.0);
        for (int64_t k = a; k < b; ++k)
            for (int j = 0; j < s.w; ++j) sum[(size_t) j] += inc[(size_t) k][(size_t) j];
        for (int j = 0; j < s.w; ++j) {
            double g = r.t.c[(size_t) (1 + j)];
            if (!(std::fabs(g - sum[(size_t) j]) <= tol * std::max(1.0, std::fabs(g))))
                sim_violation("not-one-path", "stream %d, op %zu (%s): the increment over [%g,%g) was %.12g in direction %d, but the path's increments there add up to %.12g",
                              si, r.op, op_names[(size_t) sh->c->ops[r.op].code], r.lo, r.hi, g, j, sum[(size_t) j]);
        }
        sim_probe(2);
        if (!sh->uniform) continue;
        int d = std::min<int>((int) r.depth, (int) s.d);
        Dense m = Dense::one((int) s.w, d);
        for (int64_t k = a; k < b; ++k) m = mul(m, exp_level1((int) s.w, d, inc[(size_t) k]));
        if (r.logsig) m = dlog(m);
        double e = max_diff(m, r.t); // (compares the levels both have)
        if (!(e <= tol * 10 * scale(m)))
            sim_violation("not-one-path", "stream %d, op %zu (%s): the answer over [%g,%g) differs by %g from the signature of the path made of the finest increments",
                          si, r.op, op_names[(size_t) sh->c->ops[r.op].code], r.lo, r.hi, e);
        sim_probe(4);
    }
    if (s.kind == 2) return;
    // the increments of Brownian motion: independent, variance the length of the cell
    for (int lev = 0; lev < 4; ++lev) {
        size_t g = (size_t) 1 << lev;
        double S = 0, M = 0, C = 0, N = 0, NC = 0;
        std::vector<double> prev;
        for (size_t k = 0; k + g <= n; k += g) {
            std::vector<double> x((size_t) s.w, 0.0);
            for (size_t q = 0; q < g; ++q)
                for (int j = 0; j < s.w; ++j) x[(size_t) j] += inc[k + q][(size_t) j];
            for (int j = 0; j < s.w; ++j) {
                x[(size_t) j] /= std::sqrt((double) g * std::ldexp(1.0, -rmax));
                S += x[(size_t) j] * x[(size_t) j];
                M += x[(size_t) j];
                ++N;
                if (!prev.empty()) {
                    C += x[(size_t) j] * prev[(size_t) j];
                    ++NC;
                }
            }
            prev = x;
        }
        if (N < 40) break;
        sim_probe(5);
        if (!chi_ok(S, N))
            sim_violation("not-brownian", "stream %d: %g increments of length %g have variance %.3g times what Brownian motion has", si, N,
                          (double) g * std::ldexp(1.0, -rmax), S / N);
        if (std::fabs(M) > 8 * std::sqrt(N)) sim_violation("not-brownian", "stream %d: %g standardised increments add up to %g", si, N, M);
        if (std::fabs(C) > 12 * std::sqrt(NC))
            sim_violation("not-brownian", "stream %d: neighbouring increments have correlation %.3g over %g pairs", si, C / NC, NC);
    }
}
void twin_check(Sh* sh)
{
    // the same seed and the same questions give the same path
    for (size_t i = 0; i < sh->c->ops.size(); ++i) {
        const Op& op = sh->c->ops[i];
        if (op.code == P_MOVE || op.code == P_SAVE) continue;
        Result r;
        Rec rec;
        query(sh->twin[(size_t) op.a[0]], op, r, rec);
        std::string why;
        if (!same(r, sh->results[i], 0, &why))
            sim_violation("not-reproducible", "op %zu: a stream with the same seed, asked the same questions, answers otherwise: %s", i, why.c_str());
    }
    sim_probe(6);
}
// Many Brownian streams are asked the same questions: what they answer are
// samples of normal variables whose covariances are the lengths of the overlaps
// of the intervals asked about.
struct Many {
    const Case* c;
    std::vector<Op> ops;
    std::vector<std::vector<std::vector<double>>> x; // by op, stream, direction
};
void many_task(void* p)
{
    auto* m = (Many*) p;
    const Case& c = *m->c;
    int64_t N = c.get("many");
    for (int64_t k = 0; k < N; ++k) {
        Live l;
        l.sp = pspec(c, 0);
        l.sp.seed = l.sp.seed * 1000 + k;
        l.impl = make_path(l.sp);
        l.st = Stream(std::shared_ptr<const streams::StreamInterface>(l.impl));
        for (size_t i = 0; i < m->ops.size(); ++i) {
            Result r;
            guard_op(r, [&] {
                encode(l.impl->log_signature(RealInterval((double) m->ops[i].a[1] / 64, (double) m->ops[i].a[2] / 64), (int) m->ops[i].a[3],
                                             *l.impl->metadata().default_context), r);
            });
            if (!r.ok) sim_violation("wrong-error", "op %zu failed: %s", i, r.err.c_str());
            std::vector<double> v((size_t) l.sp.w, 0.0);
            for (auto& e : r.v)
                if (e.first >= 1 && e.first <= (uint64_t) l.sp.w) v[(size_t) e.first - 1] = e.second;
            m->x[i].push_back(std::move(v));
        }
    }
}
void many_body(const Case& c)
{
    Many m{&c, {}, {}};
    for (auto& o : c.ops)
        if (o.code != P_MOVE && o.code != P_SAVE) m.ops.push_back(o);
    m.x.resize(m.ops.size());
    sim_spawn(many_task, &m);
    sim_run(&c.sched);
    auto len = [](const Op& o) { return (double) (o.a[2] - o.a[1]) / 64; };
    for (size_t i = 0; i < m.ops.size(); ++i)
        for (size_t j = 0; j <= i; ++j) {
            double S = 0, M = 0, n = 0;
            const double scale = std::sqrt(len(m.ops[i]) * len(m.ops[j]));
            for (size_t k = 0; k < m.x[i].size(); ++k)
                for (size_t q = 0; q < m.x[i][k].size(); ++q) {
                    S += m.x[i][k][q] * m.x[j][k][q] / scale;
                    M += m.x[i][k][q] / std::sqrt(len(m.ops[i]));
                    ++n;
                }
            if (n < 100) return; // (a minimised case: too few to judge)
            if (i == j) {
                if (!chi_ok(S, n))
                    sim_violation("not-brownian", "%g increments over [%g,%g) (op %zu) have variance %.3g times the length of the interval", n,
                                  (double) m.ops[i].a[1] / 64, (double) m.ops[i].a[2] / 64, i, S / n);
                if (std::fabs(M) > 8 * std::sqrt(n)) sim_violation("not-brownian", "%g standardised increments (op %zu) add up to %g", n, i, M);
                continue;
            }
            double ov = (double) std::max<int64_t>(0, std::min(m.ops[i].a[2], m.ops[j].a[2]) - std::max(m.ops[i].a[1], m.ops[j].a[1])) / 64 / scale;
            if (std::fabs(S - n * ov) > 12 * std::sqrt(n * (1 + ov * ov)))
                sim_violation("not-brownian", "increments of ops %zu and %zu have correlation %.3g, the overlap of their intervals makes %.3g", j, i, S / n, ov);
        }
    sim_probe(7);
    sim_finish_ok();
}
void body(const RunCtx& rc)
{
    const Case& c = rc.c;
    if (c.get("many", 0)) return many_body(c);
    auto* sh = new Sh;
    sh->c = &c;
    sh->uniform = c.get("uniform", 1) != 0;
    sh->results.resize(c.ops.size());
    sh->recs.resize(c.ops.size());
    sh->saved.resize(c.ops.size());
    int ns = (int) c.get("streams", 1);
    for (int i = 0; i < ns; ++i)
        for (int k = 0; k < 2; ++k) {
            Live l;
            l.sp = pspec(c, i);
            l.orig = i;
            l.impl = make_path(l.sp);
            l.st = Stream(std::shared_ptr<const streams::StreamInterface>(l.impl));
            (k ? sh->twin : sh->L).push_back(std::move(l));
        }
    int T = (int) c.get("tasks");
    std::vector<TArg> args;
    args.reserve((size_t) T);
    for (int t = 0; t < T; ++t) args.push_back({sh, t});
    for (int t = 0; t < T; ++t) sim_spawn(task, &args[(size_t) t]);
    sim_run(&c.sched);
    bool faulty = false;
    for (size_t i = 0; i < c.ops.size(); ++i) faulty |= c.ops[i].a[6] != 0;
    if (T == 1 && !faulty) twin_check(sh);
    // an archive holds the path as far as it was known when the saving began
    for (size_t i = 0; i < c.ops.size(); ++i) {
        Saved& sv = sh->saved[i];
        if (sv.bytes.empty()) continue;
        Live l;
        l.orig = (int) c.ops[i].a[0];
        l.sp = sh->L[(size_t) l.orig].sp;
        Result r;
        guard_op(r, [&] {
            std::stringstream ss(sv.bytes);
            archives::BinaryInputArchive ar(ss);
            ar(l.st);
            l.impl = std::const_pointer_cast<streams::StreamInterface>(l.st.impl());
        });
        if (!r.ok) sim_violation("load-failed", "op %zu: what was saved cannot be loaded: %s", i, r.err.c_str());
        const int si = (int) sh->L.size();
        sh->L.push_back(std::move(l));
        const size_t nrec = sh->recs.size();
        for (size_t k = 0; k < nrec; ++k)
            if (sh->recs[k].si == c.ops[i].a[0] && sh->recs[k].done <= sv.since) {
                sh->recs.push_back(sh->recs[k]);
                sh->recs.back().si = si;
            }
        sim_probe(8);
    }
    for (int i = 0; i < (int) sh->L.size(); ++i) check_stream(sh, i);
    delete sh;
    sim_finish_ok();
}
void gen(Rng& r, Case& c, bool saving)
{
    gen_heap(r, c);
    if (!saving && r.chance(1, 20)) {
        gen_sched(r, c, true);
        c.p["tasks"] = c.p["streams"] = 1;
        c.p["many"] = r.range(100, 180);
        c.p["kind0"] = r.range(0, 1);
        c.p["seed0"] = r.range(1, 1000000);
        c.p["w0"] = r.range(2, 4);
        c.p["d0"] = 1;
        c.p["sup0"] = 64;
        c.p["ct0"] = r.chance(3, 4) ? 0 : 1;
        c.p["vt0"] = r.range(0, 1);
        int64_t res = r.range(-2, 2), n = r.range(2, 5);
        int64_t cell = res >= 0 ? 64 >> res : 64 << -res, ext = r.chance(1, 2) ? 64 * 4 : 64 * 32;
        for (int64_t k = 0; k < n; ++k) {
            Op op;
            op.code = P_IMPL;
            op.a[1] = r.range(-ext / cell, ext / cell - 1) * cell;
            op.a[2] = std::min(ext, op.a[1] + r.range(1, r.chance(1, 2) ? 4 : 16) * cell);
            op.a[3] = res;
            c.ops.push_back(op);
        }
        return;
    }
    int T = r.chance(1, 3) ? 1 : (int) r.range(2, 4);
    gen_sched(r, c, T == 1);
    c.p["tasks"] = T;
    int ns = r.chance(1, 3) ? 2 : 1;
    c.p["streams"] = ns;
    bool uni = r.chance(2, 3);
    c.p["uniform"] = uni;
    std::vector<int64_t> R;
    bool stat = !saving && r.chance(1, 12); // enough cells to judge the distribution
    for (int i = 0; i < ns; ++i) {
        std::string n = std::to_string(i);
        c.p["kind" + n] = stat || saving ? r.range(0, 1) : r.range(0, 2);
        c.p["seed" + n] = r.range(1, 100000);
        c.p["res" + n] = r.range(1, 6);
        c.p["w" + n] = stat ? 3 : r.range(1, 3);
        c.p["d" + n] = stat ? 1 : r.range(1, 3);
        c.p["ct" + n] = r.chance(3, 4) ? 0 : 1;
        c.p["vt" + n] = r.range(0, 1);
        R.push_back(stat ? 6 : r.range(0, 5));
    }
    int n = (int) r.range(2, T == 1 ? 9 : 4);
    for (int t = 0; t < T; ++t)
        for (int k = 0; k < n; ++k) {
            Op op;
            op.tid = t;
            op.a[0] = r.range(0, ns - 1);
            op.code = (int) r.range(0, T == 1 ? P_N - 1 : P_N - 2);
            if (saving && r.chance(1, 3)) op.code = P_SAVE;
            int64_t res = uni ? R[(size_t) op.a[0]] : r.range(0, R[(size_t) op.a[0]]);
            int64_t cell = 64 >> res;
            int64_t ext = stat ? 256 : 128;
            int64_t lo = r.range(-ext / cell, ext / cell - 1) * cell;
            int64_t hi = lo + r.range(1, r.chance(1, 2) ? 4 : 32) * cell;
            if (stat && k == 0) { lo = -256; hi = 256; }
            op.a[1] = lo;
            op.a[2] = std::min<int64_t>(hi, 256);
            op.a[3] = res;
            op.a[4] = r.chance(1, 6) ? r.range(1, 2) : 0;
            if (c.faults && r.chance(1, 3)) op.a[6] = r.chance(1, 2) ? r.range(1, 40) : r.range(1, 1500);
            c.ops.push_back(op);
        }
}
int one(const Case&) { return 1; }
const std::vector<const char*> probe_names{"", "failed-op", "increments-checked", "moved", "signatures-checked", "distribution-checked", "twin-checked", "covariances-checked", "saved-and-loaded"};
Scenario s0{"path", "streams that construct their path as they are queried", op_names,
            [](Rng& r, Case& c) { gen(r, c, false); }, one, body, 0, probe_names, {}};
Scenario s1{"saving", "streams that construct their path are saved while others query them", op_names,
            [](Rng& r, Case& c) { gen(r, c, true); }, one, body, 0, probe_names, {}};
RegisterScenario r0(&s0), r1(&s1);
} // namespace
