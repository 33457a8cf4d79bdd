// Random generators shared by tasks. Every draw, reseeding and change of state
// must look like one indivisible step on the sequence the seed stands for: the
// recorded history is checked for linearizability against a plain generator.
#include "rp.h"
#include <random>

using namespace rp;
using scalars::RandomGenerator;
using scalars::Scalar;
using scalars::ScalarArray;
using scalars::seed_int_t;

namespace {
enum OpCode { R_UNI, R_NORM, R_STATE, R_RESTORE, R_SEED, R_GETSEED, R_OWN, R_BADSTATE, R_BADDRAW, R_MISC, R_N };
const std::vector<const char*> op_names{"uniform", "normal", "get_state", "set_state", "set_seed", "get_seed", "own", "bad_state", "bad_draw", "misc"};
// a[0] generator, a[1] count, a[2] dimensions, a[3] value/seed, a[4] type of the arguments, a[5] extra, a[6] failing allocation

// PCG XSL RR 128/64 with the usual multiplier and increment
struct Pcg {
    using U = unsigned __int128;
    using result_type = uint64_t;
    static constexpr U mult = ((U) 2549297995355413924ull << 64) | 4865540595714422341ull;
    static constexpr U inc = ((U) 6364136223846793005ull << 64) | 1442695040888963407ull;
    U st = 0;
    explicit Pcg(uint64_t s = 0) { seed(s); }
    void seed(uint64_t s) { st = (s + inc) * mult + inc; }
    static constexpr uint64_t min() { return 0; }
    static constexpr uint64_t max() { return ~0ull; }
    uint64_t operator()()
    {
        st = st * mult + inc;
        uint64_t x = (uint64_t) (st >> 64) ^ (uint64_t) st;
        int r = (int) (st >> 122);
        return x >> r | x << (-r & 63);
    }
    static std::string dec(U v)
    {
        std::string t;
        do {
            t.insert(t.begin(), (char) ('0' + (int) (v % 10)));
            v /= 10;
        } while (v);
        return t;
    }
    std::string text() const { return dec(mult) + " " + dec(inc) + " " + dec(st); }
    void parse(const std::string& t)
    {
        st = 0;
        for (size_t i = t.rfind(' ') + 1; i < t.size(); ++i) st = st * 10 + (U) (t[i] - '0');
    }
};
struct Model { // one generator, told in plain terms
    int eng = 0, ty = 0;
    std::mt19937_64 mt;
    Pcg pcg;
    uint64_t seed = 0;
    Model() = default;
    Model(int e, int t, uint64_t s) : eng(e), ty(t), mt(s), pcg(s), seed(s) {}
    void reseed(uint64_t s)
    {
        mt.seed(s);
        pcg.seed(s);
        seed = s;
    }
    std::string state() const
    {
        if (!eng) return pcg.text();
        std::stringstream ss;
        ss << mt;
        return ss.str();
    }
    void restore(const std::string& s)
    {
        if (!eng) return pcg.parse(s);
        std::stringstream ss(s + "\n");
        ss >> mt;
    }
    template <typename T, typename G> std::vector<double> draw(G& g, const Op& op);
    std::vector<double> draw(const Op& op);
};
double lo_of(const Op& op, int64_t k) { return (double) (op.a[3] % 5 - 2) - (double) k * 0.5; }
double hi_of(const Op& op, int64_t k) { return lo_of(op, k) + 1.0 + (double) (op.a[5] % 3) * 0.25; }
double loc_of(const Op& op) { return (double) (op.a[3] % 7 - 3) * 0.5; }
double scale_of(const Op& op) { return 0.5 + (double) (op.a[5] % 4) * 0.5; }
template <typename T, typename G> std::vector<double> Model::draw(G& g, const Op& op)
{
    std::vector<double> v;
    if (op.code == R_NORM) {
        std::normal_distribution<T> d((T) loc_of(op), (T) scale_of(op));
        for (int64_t i = 0; i < op.a[1]; ++i) v.push_back((double) d(g));
        return v;
    }
    std::vector<std::uniform_real_distribution<T>> d;
    for (int64_t k = 0; k < op.a[2]; ++k) d.emplace_back((T) lo_of(op, k), (T) hi_of(op, k));
    for (int64_t i = 0; i < op.a[1]; ++i)
        for (auto& x : d) v.push_back((double) x(g));
    return v;
}
std::vector<double> Model::draw(const Op& op)
{
    std::vector<double> v;
    if (eng) v = ty ? draw<float>(mt, op) : draw<double>(mt, op);
    else v = ty ? draw<float>(pcg, op) : draw<double>(pcg, op);
    for (auto& x : v) {
        if (ty == 2) x = (double) (float) scalars::half((float) x);
        if (ty == 3) x = (double) (float) scalars::bfloat16((float) x);
    }
    return v;
}

struct Rec { // one operation as the caller saw it
    bool done = false, ok = false, fired = false;
    uint64_t beg = 0, end = 0;
    std::vector<double> v;
    std::string s; // state read or written
    uint64_t n = 0;
    std::string err;
};
struct Sh {
    const Case* c = nullptr;
    std::vector<std::unique_ptr<RandomGenerator>> g;
    std::vector<Model> m;
    std::vector<Rec> rec;
};
Model gspec(const Case& c, int i)
{
    std::string n = std::to_string(i);
    return Model((int) c.get(("eng" + n).c_str()), (int) c.get(("ty" + n).c_str()), (uint64_t) c.get(("seed" + n).c_str()));
}
// 0 double, 1 float, 2 half, 3 bfloat16, 4 rational
const ScalarType* rtype(int64_t k)
{
    switch (k) {
        case 1: return *ScalarType::of<float>();
        case 2: return *ScalarType::of<scalars::half>();
        case 3: return *ScalarType::of<scalars::bfloat16>();
        case 4: return *ScalarType::of<devices::rational_scalar_type>();
        default: return *ScalarType::of<double>();
    }
}
std::unique_ptr<RandomGenerator> make(const Model& m)
{
    seed_int_t sd = m.seed;
    return rtype(m.ty)->get_rng(m.eng ? "mt19937" : "pcg", Slice<seed_int_t>(&sd, 1));
}
ScalarArray array_of(int64_t ty, const std::vector<double>& v)
{
    ScalarArray a(rtype(ty), v.size());
    for (size_t i = 0; i < v.size(); ++i) a[i] = Scalar(rtype(ty), v[i]);
    return a;
}
std::vector<double> values(const ScalarArray& a)
{
    std::vector<double> v;
    v.reserve(a.size());
    for (size_t i = 0; i < a.size(); ++i) v.push_back(to_double(a[i]));
    return v;
}
ScalarArray do_draw(const RandomGenerator& g, const Op& op)
{
    if (op.code == R_NORM) return g.normal_random(Scalar(rtype(op.a[4]), loc_of(op)), Scalar(rtype(op.a[4]), scale_of(op)), (dimn_t) op.a[1]);
    std::vector<double> lo, hi;
    {
        SimNoAllocFault nf;
        for (int64_t k = 0; k < op.a[2]; ++k) {
            lo.push_back(lo_of(op, k));
            hi.push_back(hi_of(op, k));
        }
    }
    return g.uniform_random_scalar(array_of(op.a[4], lo), array_of(op.a[4], hi), (dimn_t) op.a[1]);
}
// the state of a generator with another seed, after some draws
std::string other_state(const Model& m, const Op& op)
{
    Model o(m.eng, m.ty, (uint64_t) op.a[3]);
    Op d = op;
    d.code = R_UNI;
    d.a[2] = 1;
    o.draw(d);
    return o.state();
}
std::string bad_state(const Model& m, const Op& op)
{
    std::string s = other_state(m, op);
    switch (op.a[5] % 4) {
        case 0: return "";
        case 1: return "never a state";
        case 2: return s.substr(0, s.rfind(' ')); // the last number is missing
        default: return "x" + s;
    }
}
void run_op(Sh* sh, size_t i)
{
    const Op& op = sh->c->ops[i];
    Rec& rec = sh->rec[i];
    size_t gi = (size_t) op.a[0];
    RandomGenerator& g = *sh->g[gi];
    const Model& m0 = sh->m[gi]; // kind only
    std::string text;
    bool want_err = op.code == R_BADSTATE || op.code == R_BADDRAW;
    {
        SimNoAllocFault nf;
        if (op.code == R_RESTORE) text = other_state(m0, op);
        if (op.code == R_BADSTATE) text = bad_state(m0, op);
    }
    ScalarArray out;
    std::string got;
    std::vector<seed_int_t> sd;
    rec.beg = sim_total_steps();
    if (op.a[6]) sim_arm_alloc((uint64_t) op.a[6], 1);
    try {
        switch (op.code) {
            case R_UNI:
            case R_NORM: out = do_draw(g, op); break;
            case R_STATE: got = g.get_state(); break;
            case R_RESTORE:
            case R_BADSTATE: g.set_state(text); break;
            case R_SEED: {
                seed_int_t s[2] = {(seed_int_t) op.a[3], 7};
                g.set_seed(Slice<seed_int_t>(s, 1 + (size_t) (op.a[5] & 1)));
                break;
            }
            case R_GETSEED: sd = g.get_seed(); break;
            case R_OWN: {
                Model o(m0.eng, m0.ty, (uint64_t) op.a[3]);
                Op d = op;
                d.code = op.a[5] & 1 ? R_UNI : R_NORM;
                auto og = make(o);
                out = do_draw(*og, d);
                // a generator in the state of another goes on as the other does
                auto twin = make(m0);
                twin->set_state(og->get_state());
                ScalarArray x = do_draw(*og, d), y = do_draw(*twin, d);
                SimNoAllocFault nf;
                if (values(out) != o.draw(d)) sim_violation("wrong-answer", "op %zu: the draws are not those of the seed", i);
                if (values(x) != o.draw(d)) sim_violation("wrong-answer", "op %zu: the second draws are not those of the seed", i);
                if (values(x) != values(y)) sim_violation("wrong-answer", "op %zu: two generators in the same state draw different numbers", i);
                break;
            }
            case R_BADDRAW: {
                ScalarArray lo = array_of(op.a[4], {0.0, 1.0}), hi = array_of(op.a[4], {2.0});
                g.uniform_random_scalar(lo, hi, 1);
                break;
            }
            default:
                if (op.a[5] & 1) {
                    // no seed: drawn from the system
                    auto og = rtype(m0.ty)->get_rng("", Slice<seed_int_t>());
                    auto s = og->get_seed();
                    auto og2 = rtype(m0.ty)->get_rng(og->get_type(), Slice<seed_int_t>(s.data(), s.size()));
                    Op d = op;
                    d.code = R_UNI;
                    ScalarArray x = do_draw(*og, d), y = do_draw(*og2, d);
                    SimNoAllocFault nf;
                    if (values(x) != values(y)) sim_violation("wrong-answer", "op %zu: the seed a generator reports does not repeat its draws", i);
                } else {
                    bool threw = false;
                    try {
                        rtype(op.a[5] & 2 ? 4 : m0.ty)->get_rng(op.a[5] & 2 ? "pcg" : "no such generator", Slice<seed_int_t>());
                    } catch (const std::bad_alloc&) {
                        throw;
                    } catch (const std::runtime_error&) {
                        threw = true;
                    }
                    if (!threw) sim_violation("missing-error", "op %zu: a generator nobody knows was made", i);
                }
                if (g.get_type() != (m0.eng ? "mt19937" : "pcg")) sim_violation("wrong-answer", "op %zu: the generator's type is misstated", i);
        }
        rec.ok = true;
    } catch (const std::bad_alloc&) {
        SimNoAllocFault nf;
        rec.err = "bad_alloc";
    } catch (const std::exception& e) {
        SimNoAllocFault nf;
        rec.err = e.what();
    }
    rec.fired = op.a[6] && sim_disarm_alloc() != 0;
    rec.end = sim_total_steps();
    rec.done = true;
    SimNoAllocFault nf;
    if (sim_held_locks()) sim_violation("lock-leak", "op %zu returned while its task still holds a lock", i);
    if (rec.ok && want_err) sim_violation("missing-error", "op %zu (%s) was accepted", i, op_names[(size_t) op.code]);
    if (!rec.ok && !want_err && !rec.fired)
        sim_violation("wrong-error", "op %zu (%s) failed: %s", i, op_names[(size_t) op.code], rec.err.c_str());
    if (!rec.ok) {
        ++sim_result()->ops_err;
        sim_probe(1);
        return;
    }
    ++sim_result()->ops_ok;
    rec.v = values(out);
    rec.s = op.code == R_RESTORE ? text : got;
    rec.n = sd.size() == 1 ? sd[0] : ~0ull;
    if (op.code == R_GETSEED && sd.empty()) sim_violation("wrong-answer", "op %zu: a generator without a seed", i);
    if ((op.code == R_UNI || op.code == R_NORM) && rec.v.size() != (size_t) (op.a[1] * (op.code == R_UNI ? op.a[2] : 1)))
        sim_violation("wrong-answer", "op %zu: %zu numbers were drawn", i, rec.v.size());
    if (op.code == R_UNI)
        for (size_t k = 0; k < rec.v.size(); ++k) {
            int64_t d = (int64_t) k % op.a[2];
            if (!(rec.v[k] >= lo_of(op, d) && rec.v[k] <= hi_of(op, d) + (m0.ty == 3 ? 0.05 : 0.0)))
                sim_violation("wrong-answer", "op %zu: %.17g lies outside [%g,%g)", i, rec.v[k], lo_of(op, d), hi_of(op, d));
        }
}
// is there one order of the operations on generator g, respecting real time, that explains every result?
struct Lin {
    Sh* sh;
    std::vector<size_t> ops;
    std::vector<bool> used;
    uint64_t nodes = 0;
    size_t deepest = 0;
    std::string stuck;
    bool go(const Model& m, size_t n)
    {
        if (n == ops.size()) return true;
        if (++nodes > 20000) return true; // undecided (never seen)
        uint64_t horizon = ~0ull;
        for (size_t k = 0; k < ops.size(); ++k)
            if (!used[k]) horizon = std::min(horizon, sh->rec[ops[k]].end);
        for (size_t k = 0; k < ops.size(); ++k) {
            const Rec& r = sh->rec[ops[k]];
            if (used[k] || r.beg > horizon) continue;
            const Op& op = sh->c->ops[ops[k]];
            Model x = m;
            bool fits = true;
            switch (op.code) {
                case R_UNI:
                case R_NORM: fits = x.draw(op) == r.v; break;
                case R_STATE: fits = x.state() == r.s; break;
                case R_RESTORE: x.restore(r.s); break;
                case R_SEED: x.reseed((uint64_t) op.a[3]); break;
                case R_GETSEED: fits = x.seed == r.n; break;
            }
            if (!fits) {
                if (n >= deepest) stuck = std::string(op_names[(size_t) op.code]) + " (op " + std::to_string(ops[k]) + ")", deepest = n;
                continue;
            }
            used[k] = true;
            if (go(x, n + 1)) return true;
            used[k] = false;
        }
        return false;
    }
};
struct TArg {
    Sh* sh;
    int tid;
};
void task(void* p)
{
    auto* a = (TArg*) p;
    for (size_t i = 0; i < a->sh->c->ops.size(); ++i)
        if (a->sh->c->ops[i].tid == a->tid) run_op(a->sh, i);
}
void body(const RunCtx& rc)
{
    const Case& c = rc.c;
    auto* sh = new Sh;
    sh->c = &c;
    sh->rec.resize(c.ops.size());
    for (int64_t k = 0; k < 5; ++k) rtype(k); // made once per process
    int ng = (int) c.get("gens", 1);
    for (int i = 0; i < ng; ++i) {
        sh->m.push_back(gspec(c, i));
        sh->g.push_back(make(sh->m.back()));
        sh->g.back()->get_state(); // warm the locale
    }
    int T = (int) c.get("tasks");
    std::vector<TArg> args;
    args.reserve((size_t) T);
    for (int t = 0; t < T; ++t) args.push_back({sh, t});
    for (int t = 0; t < T; ++t) sim_spawn(task, &args[(size_t) t]);
    sim_run(&c.sched);
    for (size_t i = 0; i < c.ops.size(); ++i)
        if (c.ops[i].tid == 99) run_op(sh, i);
    for (int gi = 0; gi < ng; ++gi) {
        Lin lin{sh, {}, {}};
        for (size_t i = 0; i < c.ops.size(); ++i)
            if (c.ops[i].a[0] == gi && sh->rec[i].ok && c.ops[i].code <= R_GETSEED) lin.ops.push_back(i);
        lin.used.resize(lin.ops.size());
        if (!lin.go(gspec(c, gi), 0))
            sim_violation("not-linearizable", "no order of the operations on generator %d explains what they returned; %zu of %zu explained, then %s does not fit",
                          gi, lin.deepest, lin.ops.size(), lin.stuck.c_str());
        sim_probe(lin.nodes > 20000 ? 3 : 2);
    }
    sim_finish_ok();
}
void generate(Rng& r, Case& c)
{
    gen_heap(r, c);
    int T = r.chance(1, 4) ? 1 : (int) r.range(2, 4);
    gen_sched(r, c, T == 1);
    c.p["tasks"] = T;
    int ng = r.chance(2, 3) ? 1 : 2;
    c.p["gens"] = ng;
    for (int i = 0; i < ng; ++i) {
        std::string n = std::to_string(i);
        c.p["eng" + n] = r.range(0, 1);
        c.p["ty" + n] = r.chance(1, 2) ? 0 : r.range(1, 3);
        c.p["seed" + n] = r.range(0, 1) ? r.range(0, 5) : (int64_t) (r.next() >> 1);
    }
    int n = (int) r.range(2, 7);
    auto fill = [&](Op& op) {
        op.code = (int) (r.chance(1, 2) ? r.range(R_UNI, R_NORM) : r.range(R_STATE, R_N - 1));
        op.a[0] = r.range(0, ng - 1);
        op.a[1] = r.chance(1, 8) ? 0 : r.range(1, 6);
        op.a[2] = r.range(1, 3);
        op.a[3] = r.chance(1, 3) ? (int64_t) (r.next() >> 1) : r.range(0, 9);
        op.a[4] = r.chance(1, 2) ? 0 : r.range(1, 4);
        op.a[5] = r.range(0, 11);
    };
    for (int t = 0; t < T; ++t)
        for (int k = 0; k < n; ++k) {
            Op op;
            op.tid = t;
            fill(op);
            if (c.faults && r.chance(1, 2)) op.a[6] = r.range(1, r.chance(1, 2) ? 8 : 30);
            c.ops.push_back(op);
        }
    for (int k = 0; k < 3; ++k) {
        Op op;
        op.tid = 99;
        fill(op);
        c.ops.push_back(op);
    }
}
int one(const Case&) { return 1; }
Scenario s0{"random", "random generators shared by tasks", op_names, generate, one, body, 0,
            {"", "failed-op", "history-explained", "history-undecided"}, {"faults"}};
RegisterScenario r0(&s0);
} // namespace
