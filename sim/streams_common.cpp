#include "streams_common.h"

namespace rp {
static struct SF {
    int64_t left;
    bool fired;
} g_sf[SIM_MAX_TASKS + 1];
void source_fail_arm(int64_t nth)
{
    g_sf[sim_self()].left = nth;
    g_sf[sim_self()].fired = false;
}
bool source_fail_disarm()
{
    SF& s = g_sf[sim_self()];
    bool f = s.fired;
    s.left = 0;
    s.fired = false;
    return f;
}
static void source_point()
{
    SF& s = g_sf[sim_self()];
    if (s.left > 0 && --s.left == 0) {
        s.fired = true;
        sim_fault(F_SOURCE);
        throw std::runtime_error("injected source failure");
    }
}

std::vector<Event> events_of(const StreamSpec& s)
{
    Rng r((uint64_t) s.seed * 77 + 5);
    std::vector<Event> v;
    for (int64_t i = 0; i < s.n; ++i) {
        Event e;
        // dyadic times so that every kind represents them exactly
        e.t = (double) r.range(0, 63) / 64.0 + (double) s.off;
        bool dup = false;
        for (auto& o : v) dup |= o.t == e.t;
        for (int64_t k = 0; k < s.w; ++k) e.x.push_back((double) r.range(-16, 16) / 8.0 + (s.fine ? std::ldexp((double) r.range(-(1ll << 48), 1ll << 48), -52) : 0.0));
        if (!dup) v.push_back(e);
    }
    std::sort(v.begin(), v.end(), [](const Event& a, const Event& b) { return a.t < b.t; });
    return v;
}
static std::string key(const char* k, int i) { return std::string(k) + std::to_string(i); }
void gen_spec(Rng& r, Case& c, int i, int64_t mask)
{
    int64_t k;
    do k = r.range(0, K_NKINDS - 1);
    while (!(mask >> k & 1));
    c.p[key("kind", i)] = k;
    c.p[key("seed", i)] = r.range(1, 1000);
    c.p[key("n", i)] = r.range(1, 12);
    c.p[key("res", i)] = r.range(1, 6);
    c.p[key("w", i)] = r.range(1, 3);
    c.p[key("d", i)] = r.range(1, 3);
    c.p[key("ct", i)] = r.chance(2, 3) ? 0 : r.range(1, 2);
    c.p[key("vt", i)] = r.range(0, 1);
    static const int64_t offs[] = {-1, -3, 2, 5};
    c.p[key("off", i)] = r.chance(1, 4) ? offs[r.range(0, 3)] : 0;
    c.p[key("fine", i)] = r.chance(1, 4);
}
StreamSpec spec_of(const Case& c, int i)
{
    StreamSpec s;
    s.kind = c.get(key("kind", i).c_str());
    s.seed = c.get(key("seed", i).c_str(), 1);
    s.n = c.get(key("n", i).c_str(), 1);
    s.res = c.get(key("res", i).c_str(), 2);
    s.w = c.get(key("w", i).c_str(), 2);
    s.d = c.get(key("d", i).c_str(), 2);
    s.ct = c.get(key("ct", i).c_str());
    s.vt = c.get(key("vt", i).c_str());
    s.off = c.get(key("off", i).c_str());
    s.fine = c.get(key("fine", i).c_str());
    return s;
}
static VectorType vtype(int64_t v) { return v ? VectorType::Sparse : VectorType::Dense; }
StreamMetadata make_md(const StreamSpec& s)
{
    auto* ct = ctype_of(s.ct);
    return {(deg_t) s.w, RealInterval((double) s.off, s.support_hi()), algebra::get_context((deg_t) s.w, (deg_t) s.d, ct, {}), ct,
            vtype(s.vt), (resolution_t) s.res, intervals::IntervalType::Clopen};
}
Lie lie_level1(const algebra::Context& ctx, const std::vector<double>& x, int64_t vt)
{
    auto* ct = ctx.ctype();
    scalars::ScalarArray a(ct, x.size());
    ct->convert_copy(a, {ctype_of(0), x.data(), x.size()});
    return ctx.construct_lie({scalars::KeyScalarArray(std::move(a)), vtype(vt)});
}

namespace {
// external source: increments of the synthetic event list, optionally failing
class SimSource : public streams::ExternalDataStreamSource
{
    StreamSpec m_spec;
    std::vector<Event> m_ev;

public:
    explicit SimSource(const StreamSpec& s) : m_spec(s), m_ev(events_of(s)) {}
    dimn_t query(scalars::KeyScalarArray& result, const intervals::Interval& interval,
                 const streams::StreamSchema&) override
    {
        source_point();
        dimn_t cnt = 0;
        for (auto& e : m_ev)
            if (e.t >= interval.inf() && e.t < interval.sup()) ++cnt;
        auto* ct = *result.type();
        if (cnt) result.allocate_scalars((idimn_t) (cnt * (dimn_t) m_spec.w));
        dimn_t pos = 0;
        for (auto& e : m_ev)
            if (e.t >= interval.inf() && e.t < interval.sup())
                for (double x : e.x) result[pos++] = scalars::Scalar(ct, x);
        return cnt;
    }
};
// the C++ shape of the Python function stream: increments are re-evaluated for
// children, so its answers do not depend on the order of queries
class FnStream : public streams::DynamicallyConstructedStream
{
    StreamSpec m_spec;
    std::vector<Event> m_ev;

public:
    explicit FnStream(const StreamSpec& s)
        : DynamicallyConstructedStream(make_md(s)), m_spec(s), m_ev(events_of(s))
    {}

protected:
    Lie log_signature_impl(const intervals::Interval& i, const algebra::Context& ctx) const override
    {
        source_point();
        std::vector<Lie> v;
        for (auto& e : m_ev)
            if (e.t >= i.inf() && e.t < i.sup()) v.push_back(lie_level1(ctx, e.x, m_spec.vt));
        return ctx.cbh(v, metadata().cached_vector_type);
    }
    pair<Lie, Lie> compute_child_lie_increments(DyadicInterval l, DyadicInterval r, const Lie&) const override
    {
        const auto& c = *metadata().default_context;
        Lie a = log_signature_impl(l, c);
        Lie b = log_signature_impl(r, c);
        return {std::move(a), std::move(b)};
    }
};
} // namespace

std::shared_ptr<streams::StreamInterface> make_impl(const StreamSpec& s)
{
    auto md = make_md(s);
    auto ctx = md.default_context;
    auto ev = events_of(s);
    auto schema = std::make_shared<streams::StreamSchema>((dimn_t) s.w);
    switch (s.kind) {
        case K_LIE: {
            std::vector<double> flat;
            std::vector<param_t> idx;
            for (auto& e : ev) {
                idx.push_back(e.t);
                flat.insert(flat.end(), e.x.begin(), e.x.end());
            }
            if (s.seed & 1) {
                auto* ct = ctype_of(s.ct);
                scalars::ScalarArray a(ct, flat.size());
                ct->convert_copy(a, {ctype_of(0), flat.data(), flat.size()});
                return std::make_shared<streams::LieIncrementStream>(scalars::KeyScalarArray(std::move(a)), idx, md,
                                                                     schema);
            }
            std::vector<pair<param_t, Lie>> data;
            for (auto& e : ev) data.emplace_back(e.t, lie_level1(*ctx, e.x, s.vt));
            return std::make_shared<streams::LieIncrementStream>(std::move(data), md, schema);
        }
        case K_TICK: {
            auto sc = std::make_shared<streams::StreamSchema>();
            for (int64_t i = 0; i < s.w; ++i) sc->insert_increment("ch" + std::to_string(i));
            streams::StreamConstructionHelper h(ctx, sc, md.cached_vector_type);
            for (auto& e : ev)
                for (size_t k = 0; k < e.x.size(); ++k)
                    if (e.x[k] != 0) h.add_increment(e.t, (dimn_t) k, scalars::Scalar(ctx->ctype(), e.x[k]));
            return std::make_shared<streams::TickStream>(std::move(h), md, (resolution_t) s.res);
        }
        case K_PIECEWISE: {
            std::vector<streams::PiecewiseAbelianStream::LiePiece> pieces;
            double prev = (double) s.off;
            for (auto& e : ev) {
                Lie l = lie_level1(*ctx, e.x, s.vt);
                if (e.t > prev) {
                    pieces.emplace_back(RealInterval(prev, e.t), std::move(l));
                    prev = e.t;
                }
            }
            pieces.emplace_back(RealInterval(prev, s.support_hi()), lie_level1(*ctx, ev.back().x, s.vt));
            return std::make_shared<streams::PiecewiseAbelianStream>(std::move(pieces), std::move(md), schema);
        }
        case K_EXTERNAL:
            return std::make_shared<streams::ExternalDataStream>(SimSource(s), md, schema);
        default: return std::make_shared<FnStream>(s);
    }
}
Stream make_stream(const StreamSpec& s) { return Stream(std::shared_ptr<const streams::StreamInterface>(make_impl(s))); }

Dense model_sig(const StreamSpec& s, double lo, double hi)
{
    Dense r = Dense::one((int) s.w, (int) s.d);
    for (auto& e : events_of(s)) {
        if (!(e.t >= lo && e.t < hi)) continue;
        if (s.kind == K_TICK) {
            // each channel's increment is a tick of its own, in channel order
            for (size_t k = 0; k < e.x.size(); ++k) {
                std::vector<double> x(e.x.size(), 0.0);
                x[k] = e.x[k];
                r = mul(r, exp_level1((int) s.w, (int) s.d, x));
            }
        } else
            r = mul(r, exp_level1((int) s.w, (int) s.d, e.x));
    }
    return r;
}
} // namespace rp
