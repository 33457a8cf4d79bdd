// Stream query scenario: several streams, several tasks, arbitrary queries with
// faults, against the answers a fresh stream gives in a pristine process.
#include "rp.h"
#include "streams_common.h"

using namespace rp;

namespace {
enum OpCode {
    O_LOGSIG, O_LOGSIG_DEF, O_SIG, O_SIG_DEF, O_DERIV, O_SIMPLIFY, O_RESTRICT, O_DYADIC, O_MUTATE,
    O_FRESH, O_WHOLE, O_CHEN, O_N
};
// a[0] stream, a[1],a[2] interval (1/64), a[3] resolution, a[4] context, a[5] extra, a[6] nth alloc to
// fail, a[7] nth source call to fail

context_pointer op_ctx(const StreamSpec& s, int64_t sel)
{
    switch (sel) {
        case 1: return algebra::get_context(s.w, s.d + 1, ctype_of(s.ct), {});
        case 2: return algebra::get_context(s.w, s.d > 1 ? s.d - 1 : s.d, ctype_of(s.ct), {});
        case 3:
            return algebra::get_context(s.w, s.d, ctype_of(s.ct == 2 ? 2 : 1 - s.ct), {});
        default: return algebra::get_context(s.w, s.d, ctype_of(s.ct), {});
    }
}
Lie perturb(const StreamSpec& s, const context_pointer& ctx)
{
    std::vector<double> v((size_t) s.w);
    for (int i = 0; i < s.w; ++i) v[(size_t) i] = 0.25 * (i + 1);
    return lie_level1(*ctx, v, s.vt);
}

void do_op(const StreamSpec& spec, const Stream& st, const Op& op, Result& r)
{
    guard_op(r, [&] {
        context_pointer ctx;
        const bool defctx = op.a[4] == 0;
        const algebra::Context* c;
        if (defctx) c = st.metadata().default_context.get();
        else {
            ctx = op_ctx(spec, op.a[4]);
            c = ctx.get();
        }
        const double off = (double) spec.off;
        double lo = (double) op.a[1] / 64.0 + off, hi = (double) op.a[2] / 64.0 + off;
        RealInterval iv(lo, hi, op.a[5] & 8 ? intervals::IntervalType::Opencl : intervals::IntervalType::Clopen);
        int res = (int) op.a[3];
        switch (op.code) {
            case O_LOGSIG: encode(st.log_signature(iv, res, *c), r); break;
            case O_LOGSIG_DEF: encode(st.log_signature(iv, *c), r); break;
            case O_SIG: encode(st.signature(iv, res, *c), r); break;
            case O_SIG_DEF: encode(st.signature(iv, *c), r); break;
            case O_WHOLE: encode(st.signature(*c), r); break;
            case O_DERIV: {
                if (op.a[5] & 1) {
                    Stream::perturbation_list_t l;
                    l.emplace_back(iv, perturb(spec, st.metadata().default_context));
                    l.emplace_back(RealInterval(hi, hi + 0.25), perturb(spec, st.metadata().default_context));
                    encode(st.signature_derivative(l, res, *c), r);
                } else
                    encode(st.signature_derivative(iv, perturb(spec, st.metadata().default_context), res, *c), r);
                break;
            }
            case O_SIMPLIFY: {
                intervals::Partition part(iv);
                part.insert_intermediate(lo + (hi - lo) * 0.25);
                part.insert_intermediate(lo + (hi - lo) * 0.5);
                Stream simp = st.simplify(part, res, *c);
                encode(simp.log_signature(iv, res), r);
                break;
            }
            case O_RESTRICT: {
                Stream q = st.restrict(iv);
                encode(q.log_signature(RealInterval(lo - 0.5, hi + 0.125), res, *c), r);
                break;
            }
            case O_DYADIC: {
                int p = res > 6 ? 6 : res < 0 ? 0 : res;
                DyadicInterval di((int) ((op.a[1] + 64 * spec.off) >> (6 - p)), p);
                encode(st.impl()->log_signature(di, (int) (op.a[5] & 7), *c), r);
                break;
            }
            case O_MUTATE: {
                Lie x = st.log_signature(iv, res, *c);
                encode(x, r);
                // the caller owns what it was given: changing it must not reach the stream
                if (x) {
                    x.add_inplace(x);
                    x.smul_inplace(scalars::Scalar(x.coeff_type(), 3, 1));
                }
                break;
            }
            case O_CHEN: {
                // signatures over adjoining intervals multiply to that over their union
                const int64_t cell = 64 >> std::min(std::max(res, 0), 6);
                int64_t a = op.a[1] / cell * cell, e = (op.a[2] + cell - 1) / cell * cell;
                int64_t m = a + ((e - a) / cell + 1) / 2 * cell;
                auto sig = [&](int64_t from, int64_t to) {
                    return st.signature(RealInterval((double) from / 64 + off, (double) to / 64 + off), res, *c);
                };
                FreeTensor whole = sig(a, e), left = sig(a, m);
                encode(whole, r);
                // (cached streams do not resolve what is finer than their own resolution)
                if (m >= e || ((spec.kind == K_LIE || spec.kind == K_EXTERNAL) && res > spec.res)) break;
                FreeTensor right = sig(m, e);
                SimNoAllocFault nf;
                Result rl, rr;
                encode(left, rl);
                encode(right, rr);
                rl.ok = rr.ok = true;
                Result rw(r);
                rw.ok = true;
                int w = (int) spec.w, d = (int) std::min<int64_t>(spec.d, c->depth());
                Dense p = mul(dense_of(rl, w, d), dense_of(rr, w, d));
                double diff = max_diff(p, dense_of(rw, w, d));
                if (!(diff <= (spec.ct == 1 || op.a[4] == 3 ? 1e-3 : 1e-8) * std::max(1.0, max_abs(p))))
                    sim_violation("not-multiplicative", "stream kind %d: the signatures over [%lld/64,%lld/64) and [%lld/64,%lld/64) at resolution %d do not multiply "
                                  "to the one over their union (off by %g)", (int) spec.kind, (long long) a, (long long) m, (long long) m, (long long) e, res, diff);
                sim_probe(4);
                break;
            }
            case O_FRESH: {
                Stream own = make_stream(spec);
                encode(own.log_signature(iv, res, *c), r);
                break;
            }
        }
    });
}

void gen(Rng& r, Case& c, int mode)
{
    gen_heap(r, c);
    int T = mode == 0 ? (int) r.range(2, 4) : mode == 1 ? 1 : (r.chance(1, 3) ? (int) r.range(2, 3) : 1);
    gen_sched(r, c, T == 1);
    int ns = (int) r.range(1, 2);
    c.p["tasks"] = T;
    c.p["streams"] = ns;
    c.p["mode"] = mode;
    for (int i = 0; i < ns; ++i) gen_spec(r, c, i);
    bool alter = mode == 1 ? true : r.chance(1, 3); // other contexts
    bool share = r.chance(1, 2);
    std::vector<std::pair<int64_t, int64_t>> pool;
    for (int i = 0; i < 4; ++i) {
        int64_t g = 1ll << r.range(0, 6);
        int64_t lo = r.range(-8 / std::min<int64_t>(g, 8), 64 / g) * g, hi = lo + r.range(1, std::max<int64_t>(1, 64 / g)) * g;
        pool.push_back({lo, hi});
    }
    int n = mode == 1 ? (int) r.range(4, 12) : (int) r.range(2, 4);
    for (int t = 0; t < T; ++t)
        for (int k = 0; k < n; ++k) {
            Op op;
            op.tid = t;
            op.code = (int) r.range(0, O_N - 1);
            if (r.chance(1, 3)) op.code = r.chance(1, 2) ? O_LOGSIG : O_SIG;
            op.a[0] = r.range(0, ns - 1);
            auto iv = r.chance(2, 3) || share ? r.pick(pool) : std::make_pair(r.range(-4, 60), r.range(1, 40));
            if (iv.second <= iv.first) iv.second = iv.first + 1;
            op.a[1] = iv.first;
            op.a[2] = iv.second;
            op.a[3] = r.range(0, 6);
            op.a[4] = alter && r.chance(1, 3) ? r.range(1, 3) : 0;
            op.a[5] = r.range(0, 7) | (r.chance(1, 10) ? 8 : 0);
            if (c.faults && (mode == 2 || r.chance(1, 8))) {
                if (r.chance(1, 2)) op.a[6] = gen_alloc_fault(r);
                if (r.chance(1, 3)) op.a[7] = r.range(1, 3);
            }
            c.ops.push_back(op);
        }
    // afterwards, with no fault, every stream is asked again
    for (int i = 0; i < ns; ++i)
        for (int k = 0; k < 2; ++k) {
            Op op;
            op.tid = 99;
            op.code = k ? O_LOGSIG : O_SIG;
            op.a[0] = i;
            op.a[1] = 0;
            op.a[2] = 64;
            op.a[3] = r.range(0, 6);
            if (!c.ops.empty() && k) {
                const Op& o = r.pick(c.ops);
                op = o;
                op.tid = 99;
                op.a[6] = op.a[7] = 0;
            }
            c.ops.push_back(op);
        }
}

struct RefArg {
    const Case* c;
    size_t i;
};
void ref_one(void* p)
{
    auto* a = (RefArg*) p;
    const Op& op = a->c->ops[a->i];
    StreamSpec sp = spec_of(*a->c, (int) op.a[0]);
    Result r;
    Stream s = make_stream(sp);
    sim_arm_alloc(0, 0);
    do_op(sp, s, op, r);
    sim_disarm_alloc();
    r.allocs = sim_alloc_seen();
    OutBuf o;
    r.save(o);
    sim_out(o.b.data(), o.b.size());
}

struct Sh {
    const Case* c;
    std::vector<StreamSpec> specs;
    std::vector<Stream> streams;
    std::vector<Result> ref;
};
struct TArg {
    Sh* sh;
    int tid;
};
void check(Sh* sh, size_t i, const Result& got, bool faulted)
{
    const Op& op = sh->c->ops[i];
    const StreamSpec& sp = sh->specs[(size_t) op.a[0]];
    std::string why;
    for (auto& x : got.v) {
        union { double d; uint64_t u; } z;
        z.d = x.second;
        sim_hash(x.first * 31 + z.u);
    }
    sim_hash(got.ok + 7);
    if (faulted && !got.ok) {
        ++sim_result()->ops_err;
        if (got.err != "bad_alloc" && got.err != "exception: injected source failure")
            sim_violation("wrong-error", "op %zu: injected failure surfaced as %s", i, got.err.c_str());
        return;
    }
    ++sim_result()->ops_ok;
    if (!same(got, sh->ref[i], tol_of(sp.ct == 1 || op.a[4] == 3 ? 1 : sp.ct), &why))
        sim_violation(faulted ? "wrong-answer-after-fault" : "wrong-answer",
                      "op %zu (code %d, stream kind %d): answer differs from a fresh stream's: %s", i, op.code,
                      (int) sp.kind, why.c_str());
}
void run_op(Sh* sh, size_t i)
{
    const Op& op = sh->c->ops[i];
    Result r;
    if (op.a[7]) source_fail_arm(op.a[7]);
    if (op.a[6]) sim_arm_alloc(alloc_nth(op.a[6], sh->ref[i]), 1);
    do_op(sh->specs[(size_t) op.a[0]], sh->streams[(size_t) op.a[0]], op, r);
    bool fired = false;
    if (op.a[6]) fired = sim_disarm_alloc() != 0;
    if (op.a[7]) fired |= source_fail_disarm();
    if (op.a[4]) sim_fault(F_DEPTH_CTX);
    check(sh, i, r, fired);
    if (fired) sim_probe(1);
    if (sim_held_locks()) sim_violation("lock-leak", "op %zu returned while its task still holds a lock", i);
}
void task(void* p)
{
    auto* a = (TArg*) p;
    for (size_t i = 0; i < a->sh->c->ops.size(); ++i)
        if (a->sh->c->ops[i].tid == a->tid) run_op(a->sh, i);
}
// ------------------------------------------------------------------- model
// What every query has to answer, from the events alone. A stream that keeps
// cells of its own resolution may give back nothing, what it really saw or the
// whole cell for a part of a cell; everything else is determined.
struct Window {
    double lo = 0, hi = 0;
    bool none = true;
};
Window window_of(double lo, double hi, double slo, double shi, int res, const StreamSpec* def)
{
    Window w;
    if (hi < slo || lo > shi) return w;
    lo = std::max(lo, slo);
    hi = std::min(hi, shi);
    if (hi - lo == 0.0) return w;
    if (def) {
        int e;
        std::frexp(hi - lo, &e);
        res = std::max((int) def->res, -std::min(0, e - 1) + 2);
    }
    w.lo = std::floor(std::ldexp(lo, res)) / std::ldexp(1.0, res);
    w.hi = std::floor(std::ldexp(hi, res)) / std::ldexp(1.0, res);
    w.none = !(w.lo < w.hi);
    return w;
}
Dense piecewise_sig(const std::vector<std::pair<std::pair<double, double>, Dense>>& logs, int w, int d, double lo, double hi)
{
    Dense r = Dense::one(w, d);
    for (auto& p : logs) {
        double a = p.first.first, b = p.first.second, f = (std::min(b, hi) - std::max(a, lo)) / (b - a);
        if (f > 0) r = mul(r, dexp(scale(p.second, f)));
    }
    return r;
}
Dense level1(int w, int d, const std::vector<double>& x)
{
    Dense r(w, d);
    for (int i = 0; i < w; ++i) r.c[(size_t) i + 1] = x[(size_t) i];
    return r;
}
std::vector<Dense> sigs_over(const StreamSpec& sp, const Window& w) // signatures that are right over a window
{
    const int W = (int) sp.w, D = (int) sp.d;
    if (w.none) return {Dense::one(W, D)};
    if (sp.kind == K_PIECEWISE) {
        std::vector<std::pair<std::pair<double, double>, Dense>> pieces;
        double prev = (double) sp.off;
        auto ev = events_of(sp);
        for (auto& e : ev)
            if (e.t > prev) {
                pieces.push_back({{prev, e.t}, level1(W, D, e.x)});
                prev = e.t;
            }
        pieces.push_back({{prev, sp.support_hi()}, level1(W, D, ev.back().x)});
        return {piecewise_sig(pieces, W, D, w.lo, w.hi)};
    }
    if (sp.kind == K_FN) return {model_sig(sp, w.lo, w.hi)};
    const double c = std::ldexp(1.0, -(int) sp.res), L = std::floor(w.lo / c) * c, U = std::floor(w.hi / c) * c;
    auto part = [&](double cell, double lo, double hi) {
        return std::vector<Dense>{Dense::one(W, D), model_sig(sp, cell, cell + c), model_sig(sp, lo, hi)};
    };
    if (L == w.lo && U == w.hi) return {model_sig(sp, w.lo, w.hi)};
    if (L == U) return part(L, w.lo, w.hi);
    std::vector<Dense> first{model_sig(sp, w.lo, U)}, out;
    if (L != w.lo) {
        first = part(L, w.lo, L + c);
        for (auto& f : first) f = mul(f, model_sig(sp, L + c, U));
    }
    if (U == w.hi) return first;
    for (auto& l : part(U, U, w.hi))
        for (auto& f : first) out.push_back(mul(f, l));
    return out;
}
std::vector<Dense> model_answers(StreamSpec sp, const Op& op, bool& is_lie)
{
    const double off = (double) sp.off, lo = (double) op.a[1] / 64.0 + off, hi = (double) op.a[2] / 64.0 + off;
    const int res = (int) op.a[3];
    const double slo = off, shi = sp.support_hi();
    if (op.a[4] == 2 && sp.d > 1) --sp.d;
    const int W = (int) sp.w, D = (int) sp.d;
    is_lie = false;
    switch (op.code) {
        case O_LOGSIG:
        case O_MUTATE:
        case O_FRESH: is_lie = true; return sigs_over(sp, window_of(lo, hi, slo, shi, res, nullptr));
        case O_LOGSIG_DEF: is_lie = true; return sigs_over(sp, window_of(lo, hi, slo, shi, 0, &sp));
        case O_SIG: return sigs_over(sp, window_of(lo, hi, slo, shi, res, nullptr));
        case O_SIG_DEF: return sigs_over(sp, window_of(lo, hi, slo, shi, 0, &sp));
        case O_WHOLE: return sigs_over(sp, window_of(slo, shi, slo, shi, 0, &sp));
        case O_RESTRICT: is_lie = true; return sigs_over(sp, window_of(lo - 0.5, hi + 0.125, lo, hi, res, nullptr));
        case O_DYADIC: {
            is_lie = true;
            int p = res > 6 ? 6 : res < 0 ? 0 : res;
            double k = (double) ((op.a[1] + 64 * sp.off) >> (6 - p)), u = std::ldexp(1.0, -p);
            Window w;
            w.lo = k * u;
            w.hi = (k + 1) * u;
            w.none = false;
            return sigs_over(sp, w);
        }
        case O_CHEN: {
            const int64_t cell = 64 >> std::min(std::max(res, 0), 6);
            int64_t a = op.a[1] / cell * cell, e = (op.a[2] + cell - 1) / cell * cell;
            return sigs_over(sp, window_of((double) a / 64 + off, (double) e / 64 + off, slo, shi, res, nullptr));
        }
        case O_DERIV: {
            std::vector<double> v;
            for (int i = 0; i < W; ++i) v.push_back(0.25 * (i + 1));
            Dense p = level1(W, D, v);
            std::vector<Dense> out;
            auto first = sigs_over(sp, window_of(lo, hi, slo, shi, res, nullptr));
            for (auto& s : first) out.push_back(mul(s, dsig_factor(dlog(s), p)));
            if (!(op.a[5] & 1)) return out;
            std::vector<Dense> both;
            for (auto& s : sigs_over(sp, window_of(hi, hi + 0.25, slo, shi, res, nullptr)))
                for (auto& f : out) both.push_back(add(mul(f, s), mul(s, dsig_factor(dlog(s), p))));
            return both;
        }
        case O_SIMPLIFY: {
            const double cut[] = {lo, lo + (hi - lo) * 0.25, lo + (hi - lo) * 0.5, hi};
            Window w = window_of(lo, hi, slo, shi, res, nullptr);
            is_lie = true;
            if (w.none) return {Dense::one(W, D)};
            std::vector<Dense> out{Dense::one(W, D)};
            for (int k = 0; k < 3; ++k) {
                double a = cut[k], b = cut[k + 1], f = (std::min(b, w.hi) - std::max(a, w.lo)) / (b - a);
                if (!(f > 0)) continue;
                std::vector<Dense> next;
                for (auto& s : sigs_over(sp, window_of(a, b, slo, shi, res, nullptr)))
                    for (auto& o : out) next.push_back(mul(o, dexp(scale(dlog(s), f))));
                out.swap(next);
                if (out.size() > 90) return {};
            }
            return out;
        }
    }
    return {};
}
void model_check(Sh* sh, size_t i)
{
    const Op& op = sh->c->ops[i];
    StreamSpec sp = sh->specs[(size_t) op.a[0]];
    const Result& r = sh->ref[i];
    if (!r.ok)
        sim_violation("query-failed", "op %zu (%d) on stream kind %d fails although nothing did: %s", i, op.code, (int) sp.kind, r.err.c_str());
    bool is_lie;
    std::vector<Dense> ms = model_answers(sp, op, is_lie);
    if (ms.empty()) return;
    const int D = ms[0].d;
    Dense g = is_lie ? dexp(dense_of_lie(r, (int) sp.w, D)) : dense_of(r, (int) sp.w, D);
    sim_probe(2);
    double best = HUGE_VAL;
    for (auto& m : ms) {
        double tol = (sp.ct == 1 || op.a[4] == 3 ? 1e-3 : 1e-8) * std::max(1.0, max_abs(m)), x = max_diff(m, g);
        if (x <= tol) return;
        best = std::min(best, x);
    }
    sim_violation("model-mismatch", "op %zu (code %d, stream kind %d): the answer over [%lld/64,%lld/64) at resolution %lld differs from the "
                  "tensor-algebra model by %g", i, op.code, (int) sp.kind, (long long) op.a[1], (long long) op.a[2], (long long) op.a[3], best);
}

void body(const RunCtx& rc)
{
    const Case& c = rc.c;
    if (rc.phase == 0) {
        for (size_t i = 0; i < c.ops.size(); ++i) {
            RefArg a{&c, i};
            sim_isolated(ref_one, &a);
        }
        sim_finish_ok();
    }
    auto* sh = new Sh;
    sh->c = &c;
    InBuf in(rc.prev[0]->out, rc.prev[0]->outlen);
    sh->ref.resize(c.ops.size());
    for (auto& r : sh->ref) r.load(in);
    for (int i = 0; i < (int) c.get("streams"); ++i) {
        sh->specs.push_back(spec_of(c, i));
        sh->streams.push_back(make_stream(sh->specs.back()));
    }
    for (size_t i = 0; i < c.ops.size(); ++i) model_check(sh, i);
    int T = (int) c.get("tasks");
    std::vector<TArg> args;
    args.reserve((size_t) T);
    for (int t = 0; t < T; ++t) args.push_back({sh, t});
    for (int t = 0; t < T; ++t) sim_spawn(task, &args[(size_t) t]);
    sim_run(&c.sched);
    for (size_t i = 0; i < c.ops.size(); ++i)
        if (c.ops[i].tid == 99) run_op(sh, i);
    for (size_t i = 0; i < c.ops.size(); ++i)
        if (c.ops[i].code == O_MUTATE) sim_probe(3);
    delete sh;
    sim_finish_ok();
}
int two(const Case&) { return 2; }
const std::vector<const char*> ops{"logsig", "logsig_def", "sig", "sig_def", "deriv", "simplify",
                                   "restrict", "dyadic", "mutate", "fresh", "whole", "chen"};
Scenario s0{"streams", "concurrent queries on shared streams", ops,
            [](Rng& r, Case& c) { gen(r, c, 0); }, two, body, 1,
            {"", "faulted-op", "model-checked", "mutated-result", "multiplicative"}, {"faults"}};
Scenario s1{"history", "arbitrary query histories on one stream", ops,
            [](Rng& r, Case& c) { gen(r, c, 1); }, two, body, 1,
            {"", "faulted-op", "model-checked", "mutated-result", "multiplicative"}, {"faults"}};
Scenario s2{"streamfault", "failing allocations and data sources during queries", ops,
            [](Rng& r, Case& c) { gen(r, c, 2); }, two, body, 1,
            {"", "faulted-op", "model-checked", "mutated-result", "multiplicative"}, {"faults"}};
RegisterScenario r0(&s0), r1(&s1), r2(&s2);
} // namespace
