// Algebra scenario: many algebra operations over shared operands and contexts,
// concurrently and/or with failing allocations, against the answers a pristine
// process gives, with a leak check per operation.
#include "rp.h"
#include <roughpy/algebra/algebra_fwd.h>

using namespace rp;
using algebra::UnspecifiedAlgebraType;

namespace {
enum OpCode {
    A_CTX, A_BASIS, A_LADD, A_LMUL, A_LINPLACE, A_FADD, A_FMUL, A_FEXP, A_FLOG, A_FANTI, A_FFMEXP, A_FINPLACE,
    A_SMUL, A_SADD, A_HALF, A_L2T, A_T2L, A_CBHN, A_CBH2, A_TOSIG, A_SIG, A_LOGSIG, A_DERIV, A_CONV, A_ADJ,
    A_PRINT, A_EQ, A_COPY, A_ARCH, A_GETSET, A_BORROW, A_RAWMUL, A_SCALARS, A_MIXED, A_N
};
const std::vector<const char*> op_names{
        "ctx", "basis", "ladd", "lmul", "linplace", "fadd", "fmul", "fexp", "flog", "fanti", "ffmexp", "finplace",
        "smul", "sadd", "half", "l2t", "t2l", "cbhn", "cbh2", "tosig", "sig", "logsig", "deriv", "conv", "adj",
        "print", "eq", "copy", "arch", "getset", "borrow", "rawmul", "scalars", "mixed"};
static constexpr int NOBJ = 4;

struct Cfg {
    deg_t w = 2, d = 2;
    int64_t ct = 0;
    VectorType vt = VectorType::Dense;
    int64_t vtn = 0;
};
Cfg cfg_of(const Case& c, int i)
{
    Cfg g;
    std::string n = std::to_string(i);
    g.w = (deg_t) c.get(("w" + n).c_str(), 2);
    g.d = (deg_t) c.get(("d" + n).c_str(), 2);
    g.ct = c.get(("ct" + n).c_str(), 0);
    g.vtn = c.get(("vt" + n).c_str(), 0);
    g.vt = g.vtn ? VectorType::Sparse : VectorType::Dense;
    return g;
}
context_pointer ctx_of(const Cfg& g) { return algebra::get_context(g.w, g.d, ctype_of(g.ct), {}); }

std::vector<double> values(uint64_t seed, size_t n, bool sparse, size_t lead)
{
    Rng r(seed);
    std::vector<double> v(n);
    for (size_t i = 0; i < n; ++i) {
        double x = (double) r.range(-8, 8) / 4.0;
        v[i] = (sparse && r.chance(1, 2)) ? 0.0 : x;
    }
    if (n > lead && v[lead] == 0) v[lead] = 1.5;
    return v;
}
// x, or an unknown with coefficient x; the constant term stays a number
devices::rational_poly_scalar poly(double x, size_t i)
{
    devices::rational_scalar_type q((int) (x * 4), 4);
    if (i == 0 || i % 3 == 1) return devices::rational_poly_scalar(q);
    return devices::rational_poly_scalar(devices::indeterminate_type('x', i % 4), q);
}
int64_t as_int(double x) { return x > 1e12 || x < -1e12 ? (int64_t) std::fmod(x, 1e12) : (int64_t) x; }
algebra::VectorConstructionData vcd(const Cfg& g, const std::vector<double>& v)
{
    auto* ct = ctype_of(g.ct);
    if (g.vtn) {
        size_t m = 0;
        for (double x : v) m += x != 0;
        scalars::KeyScalarArray a(ct);
        a.allocate_scalars((idimn_t) m);
        a.allocate_keys();
        auto* k = a.keys();
        size_t p = 0;
        for (size_t i = 0; i < v.size(); ++i)
            if (v[i] != 0) {
                if (g.ct == 3) a[p] = scalars::Scalar(ct, poly(v[i], i));
                else a[p] = scalars::Scalar(ct, v[i]);
                k[p++] = (key_type) i;
            }
        return {std::move(a), g.vt};
    }
    scalars::ScalarArray a(ct, v.size());
    if (g.ct == 3) {
        for (size_t i = 0; i < v.size(); ++i)
            if (v[i] != 0) a[i] = scalars::Scalar(ct, poly(v[i], i));
    } else
        ct->convert_copy(a, {ctype_of(0), v.data(), v.size()});
    return {scalars::KeyScalarArray(std::move(a)), g.vt};
}
struct Pool { // operands of one configuration
    Cfg g;
    context_pointer ctx;
    std::vector<Lie> l;
    std::vector<FreeTensor> f;
    std::vector<ShuffleTensor> s;
};
Pool make_pool(const Case& c, int i)
{
    Pool p;
    p.g = cfg_of(c, i);
    p.ctx = ctx_of(p.g);
    uint64_t seed = (uint64_t) c.get("data", 1) * 131 + (uint64_t) i;
    for (int k = 0; k < NOBJ; ++k) {
        auto ls = p.ctx->lie_size(-1), ts = p.ctx->tensor_size(-1);
        p.l.push_back(p.ctx->construct_lie(vcd(p.g, values(seed * 7 + (uint64_t) k, k == 3 ? p.g.w : ls, p.g.vtn, 0))));
        auto fv = values(seed * 11 + (uint64_t) k, ts, p.g.vtn, 1);
        if (k < 2) fv[0] = 0; // no constant term: a tensor to exponentiate
        else fv[0] = 1.0;
        p.f.push_back(p.ctx->construct_free_tensor(vcd(p.g, fv)));
        p.s.push_back(p.ctx->construct_shuffle_tensor(vcd(p.g, values(seed * 13 + (uint64_t) k, ts, p.g.vtn, 1))));
    }
    return p;
}
void add_str(const std::string& s, Result& r)
{
    uint64_t h = 1469598103934665603ull;
    for (char ch : s) h = (h ^ (unsigned char) ch) * 1099511628211ull;
    r.extra = h | 1;
}

// performs one operation; `p` are the operands, never modified through const
void do_op(const std::vector<Pool>& P, const Op& op, Result& r)
{
    const Pool& p = P[(size_t) op.a[0]];
    const Cfg& g = p.g;
    const auto& ctx = *p.ctx;
    size_t i = (size_t) op.a[1], j = (size_t) op.a[2];
    int v = (int) op.a[3];
    auto* ct = ctype_of(g.ct);
    guard_op(r, [&] {
        scalars::Scalar k(ct, 3, 2);
        switch (op.code) {
            case A_CTX: {
                deg_t d2 = (deg_t) (1 + (op.a[4] & 3));
                auto a = algebra::get_context(g.w, d2, ct, {});
                auto b = ctx.get_alike(d2);
                auto e = ctx.get_alike(d2, ctype_of(op.a[4] >> 2 & 1));
                auto bc = algebra::get_base_context(g.w, d2);
                if (a->depth() != d2 || b->depth() != d2 || e->depth() != d2 || a->ctype() != ct || b->ctype() != ct)
                    r.extra = 99;
                else
                    r.extra = 1 + a->lie_size(-1) * 1000 + a->tensor_size(-1) + bc->lie_size(-1);
                if (a != b) r.extra = 77; // one context object per configuration
                break;
            }
            case A_BASIS: {
                auto lb = ctx.get_lie_basis();
                auto tb = ctx.get_tensor_basis();
                std::string s;
                for (dimn_t q = 0; q < lb.dimension() && q < 40; ++q) {
                    auto key = lb.index_to_key(q);
                    std::string t = lb.key_to_string(key);
                    SimNoAllocFault nf;
                    s += t + ";" + std::to_string(lb.degree(key));
                }
                for (dimn_t q = 0; q < tb.dimension() && q < 40; ++q) {
                    auto key = tb.index_to_key(q);
                    std::string t = tb.key_to_string(key);
                    SimNoAllocFault nf;
                    s += t + ";";
                }
                add_str(s, r);
                break;
            }
            case A_LADD: encode(v & 1 ? p.l[i].sub(p.l[j]) : p.l[i].add(p.l[j]), r); break;
            case A_LMUL: encode(p.l[i].mul(p.l[j]), r); break;
            case A_LINPLACE: {
                Lie x = p.l[i];
                if (v & 1) x.add_scal_mul(p.l[j], k);
                else x.sub_inplace(p.l[j]);
                if (v & 2) x.smul_inplace(k);
                if (v & 4) x.add_mul(p.l[i], p.l[j]);
                encode(x, r);
                break;
            }
            case A_FADD: encode(v & 1 ? p.f[i].sub(p.f[j]) : p.f[i].add(p.f[j]), r); break;
            case A_FMUL: encode(p.f[i].mul(p.f[j]), r); break;
            case A_FEXP: encode(p.f[i & 1].exp(), r); break;
            case A_FLOG: encode(p.f[2 + (i & 1)].log(), r); break;
            case A_FANTI: encode(p.f[i].antipode(), r); break;
            case A_FFMEXP: {
                FreeTensor x = p.f[i];
                x.fmexp(p.f[j & 1]);
                encode(x, r);
                break;
            }
            case A_FINPLACE: {
                FreeTensor x = p.f[i];
                if (v & 1) x.mul_inplace(p.f[j]);
                else x.add_inplace(p.f[j]);
                if (v & 2) x.sdiv_inplace(k);
                if (v & 4) x.sub_scal_div(p.f[j], k);
                if (v & 8) x.add_mul(p.f[i], p.f[j]);
                if (v & 16) x.mul_smul(p.f[j], k);
                encode(x, r);
                break;
            }
            case A_SMUL: encode(p.s[i].mul(p.s[j]), r); break;
            case A_SADD: {
                ShuffleTensor x = v & 1 ? p.s[i].uminus() : p.s[i].add(p.s[j]);
                encode(v & 2 ? x.smul(k) : x, r);
                break;
            }
            case A_HALF: {
                UnspecifiedAlgebraType u = ctx.half_shuffle_multiply(&*p.s[i], &*p.s[j]);
                encode(ShuffleTensor(std::unique_ptr<algebra::ShuffleTensorInterface>(
                               static_cast<algebra::ShuffleTensorInterface*>(u.release()))), r);
                break;
            }
            case A_L2T: encode(ctx.lie_to_tensor(p.l[i]), r); break;
            case A_T2L: encode(ctx.tensor_to_lie(ctx.lie_to_tensor(p.l[i])), r); break;
            case A_CBHN: {
                std::vector<Lie> ls;
                {
                    SimNoAllocFault nf;
                    for (int q = 0; q <= (v & 3); ++q) ls.push_back(p.l[(i + (size_t) q) % NOBJ]);
                }
                encode(ctx.cbh(ls, g.vt), r);
                break;
            }
            case A_CBH2: encode(ctx.cbh(p.l[i], p.l[j], g.vt), r); break;
            case A_TOSIG: encode(ctx.to_signature(p.l[i]), r); break;
            case A_SIG:
            case A_LOGSIG: {
                algebra::SignatureData sd{scalars::KeyScalarStream(ct), g.vt};
                std::vector<std::vector<double>> rows;
                {
                    SimNoAllocFault nf;
                    for (int q = 0; q < 3; ++q) rows.push_back(values((uint64_t) (op.a[1] * 8 + op.a[2] + q * 64), (size_t) g.w, false, 0));
                }
                std::vector<scalars::ScalarArray> arrs;
                for (auto& row : rows) {
                    scalars::ScalarArray a(ct, row.size());
                    ct->convert_copy(a, {ctype_of(0), row.data(), row.size()});
                    arrs.push_back(std::move(a));
                }
                sd.data_stream.reserve_size(rows.size());
                for (auto& a : arrs) sd.data_stream.push_back(a);
                if (op.code == A_SIG) encode(ctx.signature(sd), r);
                else encode(ctx.log_signature(sd), r);
                break;
            }
            case A_DERIV: {
                std::vector<algebra::DerivativeComputeInfo> info;
                info.push_back({p.l[i], p.l[j]});
                if (v & 1) info.push_back({p.l[j], p.l[3]});
                encode(ctx.sig_derivative(info, g.vt), r);
                break;
            }
            case A_CONV: {
                const Pool& q = P[(size_t) op.a[4] % P.size()];
                if (q.g.w != g.w) break;
                if (v & 1) encode(q.ctx->convert(p.f[i], q.g.vt), r);
                else if (v & 2)
                    encode(q.ctx->convert(p.s[i], q.g.vt), r);
                else
                    encode(q.ctx->convert(p.l[i], q.g.vt), r);
                break;
            }
            case A_ADJ: {
                UnspecifiedAlgebraType u = ctx.adjoint_to_left_multiply_by(&*p.f[i], &*p.s[j]);
                encode(ShuffleTensor(std::unique_ptr<algebra::ShuffleTensorInterface>(
                               static_cast<algebra::ShuffleTensorInterface*>(u.release()))), r);
                break;
            }
            case A_PRINT: {
                std::ostringstream o;
                o << p.l[i] << p.f[j] << p.s[i];
                std::string s = o.str();
                // a failing stream cuts the text short without an exception: only whole texts count
                if (!o.good()) throw std::bad_alloc();
                add_str(s, r);
                break;
            }
            case A_EQ: r.extra = 1 + (uint64_t) (p.l[i] == p.l[j]) + 2 * (uint64_t) (p.f[i] == p.f[j]) + 4 * (p.s[i] == p.s[i]); break;
            case A_COPY: {
                Lie a = p.l[i], b = p.l[j];
                a = b;
                b = Lie(p.l[i]);
                Lie c2(std::move(a));
                FreeTensor t = p.f[i];
                FreeTensor u(t);
                t = p.f[j];
                encode(c2.add(b), r);
                Result q;
                encode(t.add(u), q);
                SimNoAllocFault nf;
                for (auto& x : q.v) r.v.emplace_back(x.first + 100000, x.second);
                break;
            }
            case A_ARCH: {
                std::stringstream ss;
                {
                    archives::BinaryOutputArchive oa(ss);
                    if (v & 1) oa(p.l[i]);
                    else oa(p.f[i]);
                }
                if (!ss.good()) throw std::bad_alloc();
                archives::BinaryInputArchive ia(ss);
                if (v & 1) {
                    Lie x;
                    ia(x);
                    encode(x, r);
                } else {
                    FreeTensor x;
                    ia(x);
                    encode(x, r);
                }
                break;
            }
            case A_GETSET: {
                Lie x = p.l[i];
                FreeTensor y = p.f[i];
                if (g.vtn == 0) {
                    key_type key = (key_type) (1 + (dimn_t) op.a[4] % (dimn_t) g.w);
                    x[key] = scalars::Scalar(ct, 7, 4);
                    y[key] = scalars::Scalar(ct, 5, 4);
                }
                auto val = std::as_const(x)[(key_type) 1];
                r.extra = (uint64_t) as_int(to_double(val) * 1024 + 1000000);
                encode(x, r);
                Result q;
                encode(y, q);
                SimNoAllocFault nf;
                for (auto& z : q.v) r.v.emplace_back(z.first + 100000, z.second);
                break;
            }
            case A_BORROW: {
                Lie lc = p.l[i];
                FreeTensor fc = p.f[j];
                Lie b = lc.borrow_mut();
                FreeTensor t = fc.borrow_mut();
                encode(b.add(p.l[j]), r);
                Result q;
                encode(t.mul(t), q);
                SimNoAllocFault nf;
                for (auto& z : q.v) r.v.emplace_back(z.first + 100000, z.second);
                break;
            }
            case A_RAWMUL: {
                UnspecifiedAlgebraType u = v & 1 ? ctx.free_multiply(&*p.f[i], &*p.f[j]) : ctx.shuffle_multiply(&*p.s[i], &*p.s[j]);
                if (v & 1)
                    encode(FreeTensor(std::unique_ptr<algebra::FreeTensorInterface>(
                                   static_cast<algebra::FreeTensorInterface*>(u.release()))), r);
                else
                    encode(ShuffleTensor(std::unique_ptr<algebra::ShuffleTensorInterface>(
                                   static_cast<algebra::ShuffleTensorInterface*>(u.release()))), r);
                break;
            }
            case A_MIXED: { // operands stored in different ways, or of another context
                const VectorType other = g.vtn ? VectorType::Dense : VectorType::Sparse;
                const int kind = (int) (op.a[4] & 7);
                const Pool& q = P[(size_t) (op.a[0] + 1) % P.size()];
                const bool foreign = (v >> 3) == 3 && q.ctx != p.ctx;
                FreeTensor fl = v & 1 ? ctx.convert(p.f[i], other) : p.f[i];
                const FreeTensor& fs = foreign ? q.f[j] : p.f[j];
                FreeTensor fr = v & 2 && !foreign ? ctx.convert(fs, other) : fs;
                if (kind >= 4) {
                    if (foreign) fr = p.f[j];
                    Lie ll = v & 1 ? ctx.convert(p.l[i], other) : p.l[i];
                    Lie lr = v & 2 ? ctx.convert(p.l[j], other) : p.l[j];
                    if (kind == 4) encode(ll.add(lr), r);
                    else if (kind == 5)
                        encode(fl.mul(fr), r);
                    else if (kind == 6)
                        encode(fl.add_scal_mul(fr, k), r);
                    else
                        encode(ll.mul(lr), r);
                    break;
                }
                const ShuffleTensor& ss = foreign ? q.s[j] : p.s[j];
                ShuffleTensor sr = v & 2 && !foreign ? ctx.convert(ss, other) : ss;
                algebra::ConstRawUnspecifiedAlgebraType rl = &*fl, rr = v & 4 ? (algebra::ConstRawUnspecifiedAlgebraType) &*sr : &*fr;
                UnspecifiedAlgebraType u;
                try {
                    u = kind == 0 ? ctx.free_multiply(rl, rr) : kind == 1 ? ctx.shuffle_multiply(rl, rr) : kind == 2 ? ctx.half_shuffle_multiply(rl, rr)
                                                                                                               : ctx.adjoint_to_left_multiply_by(rl, rr);
                } catch (const std::invalid_argument&) {
                    if (!foreign) throw;
                    r.extra = 5;
                    break;
                }
                if (foreign) r.extra = 6;
                if (u->alg_type() == algebra::AlgebraType::FreeTensor)
                    encode(FreeTensor(std::unique_ptr<algebra::FreeTensorInterface>(
                                   static_cast<algebra::FreeTensorInterface*>(u.release()))), r);
                else
                    encode(ShuffleTensor(std::unique_ptr<algebra::ShuffleTensorInterface>(
                                   static_cast<algebra::ShuffleTensorInterface*>(u.release()))), r);
                break;
            }
            case A_SCALARS: {
                scalars::ScalarArray a(ct, 6), b(ctype_of(op.a[4] % 3), 6);
                double raw[6] = {1, -2, 0.5, 3, 0.25, -1};
                ct->convert_copy(a, {ctype_of(0), raw, 6});
                b.type().value()->convert_copy(b, a);
                scalars::ScalarArray c2(b), d2(ct, 6);
                d2 = a;
                c2 = a;
                scalars::Scalar x = a[0], y = b[1];
                x += y;
                x *= std::as_const(d2)[3];
                r.extra = (uint64_t) as_int(to_double(x) * 4096 + 1e6) * 16 + c2.size();
                break;
            }
        }
    });
}

// independent checks of the reference answers with the dense model
std::vector<int> word(const Dense& a, size_t idx)
{
    int k = 0;
    while (idx >= a.off(k + 1)) ++k;
    size_t x = idx - a.off(k);
    std::vector<int> u((size_t) k);
    for (int q = k; q-- > 0; x /= (size_t) a.w) u[(size_t) q] = (int) (x % (size_t) a.w);
    return u;
}
size_t index_of(const Dense& a, const std::vector<int>& u)
{
    size_t x = 0;
    for (int l : u) x = x * (size_t) a.w + (size_t) l;
    return a.off((int) u.size()) + x;
}
// all ways of merging u and v; half: those that begin with the first letter of u
Dense shuffled(const Dense& a, const Dense& b, bool half)
{
    Dense r(a.w, a.d);
    for (size_t x = 0; x < a.c.size(); ++x) {
        if (a.c[x] == 0) continue;
        auto u = word(a, x);
        for (size_t y = 0; y < b.c.size(); ++y) {
            if (b.c[y] == 0) continue;
            auto v = word(b, y);
            const size_t n = u.size() + v.size();
            if (n > (size_t) a.d) continue;
            for (unsigned m = 0; m < (1u << n); ++m) {
                if ((size_t) __builtin_popcount(m) != u.size()) continue;
                if (half && (n == 0 || !(m & 1))) continue;
                std::vector<int> w;
                size_t pu = 0, pv = 0;
                for (size_t q = 0; q < n; ++q) w.push_back(m >> q & 1 ? u[pu++] : v[pv++]);
                r.c[index_of(r, w)] += a.c[x] * b.c[y];
            }
        }
    }
    return r;
}
Dense antipode(const Dense& a)
{
    Dense r(a.w, a.d);
    for (size_t x = 0; x < a.c.size(); ++x) {
        auto u = word(a, x);
        double s = u.size() & 1 ? -1 : 1;
        std::reverse(u.begin(), u.end());
        r.c[index_of(r, u)] = s * a.c[x];
    }
    return r;
}
Dense adjoint(const Dense& f, const Dense& s) // <result, w> = <s, f w>
{
    Dense r(s.w, s.d);
    for (size_t x = 0; x < f.c.size(); ++x) {
        if (f.c[x] == 0) continue;
        auto u = word(f, x);
        for (size_t y = 0; y < r.c.size(); ++y) {
            auto w = word(r, y), uw = u;
            if (u.size() + w.size() > (size_t) s.d) continue;
            uw.insert(uw.end(), w.begin(), w.end());
            r.c[y] += f.c[x] * s.c[index_of(s, uw)];
        }
    }
    return r;
}
struct Operands { // what the operands of a pool are, as tensors
    int w, d;
    std::vector<Dense> l, f, s;
    explicit Operands(const Pool& p) : w(p.g.w), d(p.g.d)
    {
        for (int k = 0; k < NOBJ; ++k) {
            Result a, b, c;
            encode(p.l[(size_t) k], a);
            encode(p.f[(size_t) k], b);
            encode(p.s[(size_t) k], c);
            l.push_back(dense_of_lie(a, w, d));
            f.push_back(dense_of(b, w, d));
            s.push_back(dense_of(c, w, d));
        }
    }
};
void model(const std::vector<Pool>& P, const Op& op, const Result& r)
{
    const Pool& p = P[(size_t) op.a[0]];
    // an unknown is not a number, so these coefficients may be refused
    if (op.code == A_CONV && p.g.ct == 3 && P[(size_t) op.a[4] % P.size()].g.ct != 3) return;
    if (!r.ok) sim_violation("operation-failed", "%s fails although nothing did: %s", op_names[(size_t) op.code], r.err.c_str());
    if (p.g.ct == 3) return;
    if (op.code == A_SCALARS && r.extra != (uint64_t) (-3 * 4096 + 1e6) * 16 + 6)
        sim_violation("model-mismatch", "scalars: (1 + -2) * 3 is not -3, or an array lost its size");
    const Operands o(p);
    int w = p.g.w, d = p.g.d;
    size_t i = (size_t) op.a[1], j = (size_t) op.a[2];
    const int v = (int) op.a[3];
    const double k = 1.5;
    Dense want, want2;
    bool lie = false, two = false; // the second part has keys above 100000
    bool single = p.g.ct == 1;
    switch (op.code) {
        case A_LADD: lie = true; want = add(o.l[i], o.l[j], v & 1 ? -1 : 1); break;
        case A_LMUL: lie = true; want = add(mul(o.l[i], o.l[j]), mul(o.l[j], o.l[i]), -1); break;
        case A_LINPLACE:
            lie = true;
            want = add(o.l[i], o.l[j], v & 1 ? k : -1);
            if (v & 2) want = scale(want, k);
            if (v & 4) want = add(want, add(mul(o.l[i], o.l[j]), mul(o.l[j], o.l[i]), -1));
            break;
        case A_FADD: want = add(o.f[i], o.f[j], v & 1 ? -1 : 1); break;
        case A_FMUL: want = mul(o.f[i], o.f[j]); break;
        case A_FEXP: want = dexp(o.f[i & 1]); break;
        case A_FLOG: want = dlog(o.f[2 + (i & 1)]); break;
        case A_FANTI: want = antipode(o.f[i]); break;
        case A_FFMEXP: want = mul(o.f[i], dexp(o.f[j & 1])); break;
        case A_FINPLACE:
            want = v & 1 ? mul(o.f[i], o.f[j]) : add(o.f[i], o.f[j]);
            if (v & 2) want = scale(want, 1 / k);
            if (v & 4) want = add(want, o.f[j], -1 / k);
            if (v & 8) want = add(want, mul(o.f[i], o.f[j]));
            if (v & 16) want = scale(mul(want, o.f[j]), k);
            break;
        case A_SMUL: want = shuffled(o.s[i], o.s[j], false); break;
        case A_SADD:
            want = v & 1 ? scale(o.s[i], -1) : add(o.s[i], o.s[j]);
            if (v & 2) want = scale(want, k);
            break;
        case A_HALF: want = shuffled(o.s[i], o.s[j], true); break;
        case A_L2T: want = o.l[i]; break;
        case A_T2L: lie = true; want = o.l[i]; break;
        case A_CBHN:
            lie = true;
            want = Dense::one(w, d);
            for (int q = 0; q <= (v & 3); ++q) want = mul(want, dexp(o.l[(i + (size_t) q) % NOBJ]));
            want = dlog(want);
            break;
        case A_CBH2: lie = true; want = dlog(mul(dexp(o.l[i]), dexp(o.l[j]))); break;
        case A_TOSIG: want = dexp(o.l[i]); break;
        case A_SIG:
        case A_LOGSIG:
            want = Dense::one(w, d);
            for (int q = 0; q < 3; ++q)
                want = mul(want, exp_level1(w, d, values((uint64_t) (op.a[1] * 8 + op.a[2] + q * 64), (size_t) w, false, 0)));
            if (op.code == A_LOGSIG) {
                lie = true;
                want = dlog(want);
            }
            break;
        case A_DERIV: {
            Dense s = dexp(o.l[i]);
            want = mul(s, dsig_factor(o.l[i], o.l[j]));
            if (v & 1) {
                s = dexp(o.l[j]);
                want = add(mul(want, s), mul(s, dsig_factor(o.l[j], o.l[3])));
            }
            break;
        }
        case A_CONV: {
            const Pool& q = P[(size_t) op.a[4] % P.size()];
            if (q.g.w != w || q.g.ct == 3) return;
            single |= q.g.ct == 1;
            const int d2 = std::min(d, (int) q.g.d);
            lie = !(v & 3);
            want = truncate(v & 1 ? o.f[i] : v & 2 ? o.s[i] : o.l[i], d2);
            d = d2;
            break;
        }
        case A_ADJ: want = adjoint(o.f[i], o.s[j]); break;
        case A_COPY:
            lie = two = true;
            want = add(o.l[i], o.l[j]);
            want2 = add(o.f[j], o.f[i]);
            break;
        case A_ARCH:
            lie = v & 1;
            want = lie ? o.l[i] : o.f[i];
            break;
        case A_BORROW:
            lie = two = true;
            want = add(o.l[i], o.l[j]);
            want2 = mul(o.f[j], o.f[j]);
            break;
        case A_MIXED: {
            const int kind = (int) (op.a[4] & 7);
            const Pool& q = P[(size_t) (op.a[0] + 1) % P.size()];
            if (kind < 4 && (v >> 3) == 3 && q.ctx != p.ctx) {
                if (r.extra != 5) sim_violation("model-mismatch", "mixed: an operand of another context was not refused");
                return;
            }
            const Dense& right = v & 4 ? o.s[j] : o.f[j];
            lie = kind == 4 || kind == 7;
            switch (kind) {
                case 0: want = mul(o.f[i], right); break;
                case 1: want = shuffled(o.f[i], right, false); break;
                case 2: want = shuffled(o.f[i], right, true); break;
                case 3: want = adjoint(o.f[i], right); break;
                case 4: want = add(o.l[i], o.l[j]); break;
                case 5: want = mul(o.f[i], o.f[j]); break;
                case 6: want = add(o.f[i], o.f[j], k); break;
                default: want = add(mul(o.l[i], o.l[j]), mul(o.l[j], o.l[i]), -1);
            }
            break;
        }
        case A_RAWMUL: want = v & 1 ? mul(o.f[i], o.f[j]) : shuffled(o.s[i], o.s[j], false); break;
        default: return;
    }
    sim_probe(2);
    Result first, second;
    for (auto& x : r.v)
        if (two && x.first >= 100000) second.v.emplace_back(x.first - 100000, x.second);
        else first.v.push_back(x);
    auto compare = [&](const Dense& got, const Dense& m) {
        double tol = (single ? 1e-3 : 1e-8) * std::max(1.0, max_abs(m));
        if (!(max_diff(m, got) <= tol))
            sim_violation("model-mismatch", "%s: differs from the dense tensor-algebra model by %g", op_names[(size_t) op.code], max_diff(m, got));
    };
    compare(lie ? dense_of_lie(first, w, d) : dense_of(first, w, d), want);
    if (two) compare(dense_of(second, w, d), want2);
}

void gen(Rng& r, Case& c, int mode)
{
    gen_heap(r, c);
    int T = mode == 0 ? (int) r.range(2, 4) : (r.chance(1, 4) ? 2 : 1);
    gen_sched(r, c, T == 1);
    int np = (int) r.range(1, 3);
    c.p["tasks"] = T;
    c.p["pools"] = np;
    c.p["mode"] = mode;
    c.p["data"] = r.range(1, 500);
    int64_t w = r.range(2, 3);
    bool early = r.chance(1, 2); // create contexts and operands inside the tasks' shared past or lazily
    c.p["early"] = early;
    for (int i = 0; i < np; ++i) {
        std::string n = std::to_string(i);
        c.p["w" + n] = w;
        int64_t ct = r.chance(1, 2) ? 0 : r.range(0, 3);
        c.p["d" + n] = r.range(1, ct == 3 ? 2 : w == 2 ? 4 : 3);
        c.p["ct" + n] = ct;
        c.p["vt" + n] = r.range(0, 1);
    }
    int n = mode == 0 ? (int) r.range(1, 4) : (int) r.range(1, 5);
    bool focus = r.chance(1, 3);
    int64_t fc = r.range(0, A_N - 1);
    for (int t = 0; t < T; ++t)
        for (int k = 0; k < n; ++k) {
            Op op;
            op.tid = t;
            op.code = (int) (focus && r.chance(2, 3) ? fc : r.range(0, A_N - 1));
            op.a[0] = r.range(0, np - 1);
            op.a[1] = r.range(0, NOBJ - 1);
            op.a[2] = r.range(0, NOBJ - 1);
            op.a[3] = r.range(0, 31);
            op.a[4] = r.range(0, 7);
            if (c.faults && (mode == 1 || r.chance(1, 12))) op.a[6] = gen_alloc_fault(r);
            c.ops.push_back(op);
        }
    size_t m = c.ops.size();
    for (int k = 0; k < 3 && m; ++k) { // asked again afterwards, without faults
        Op op = c.ops[r.next() % m];
        op.tid = 99;
        op.a[6] = 0;
        c.ops.push_back(op);
    }
}
struct Sh {
    const Case* c;
    std::vector<Pool> P;
    std::vector<Result> ref;
    std::vector<Result> pool_img;
    int64_t leak_checks = 0;
};
std::vector<Result> image(const std::vector<Pool>& P)
{
    std::vector<Result> v;
    for (auto& p : P)
        for (int k = 0; k < NOBJ; ++k) {
            Result a, b, d;
            encode(p.l[(size_t) k], a);
            encode(p.f[(size_t) k], b);
            encode(p.s[(size_t) k], d);
            v.push_back(a);
            v.push_back(b);
            v.push_back(d);
        }
    return v;
}
std::vector<Pool> pools(const Case& c)
{
    std::vector<Pool> P;
    for (int i = 0; i < (int) c.get("pools", 1); ++i) P.push_back(make_pool(c, i));
    return P;
}
struct RefArg {
    const Case* c;
    size_t i;
};
void ref_one(void* q)
{
    auto* a = (RefArg*) q;
    std::vector<Pool> P = pools(*a->c);
    Result r;
    sim_arm_alloc(0, 0);
    do_op(P, a->c->ops[a->i], r);
    sim_disarm_alloc();
    r.allocs = sim_alloc_seen();
    model(P, a->c->ops[a->i], r);
    OutBuf o;
    r.save(o);
    sim_out(o.b.data(), o.b.size());
}
void run_op(Sh* sh, size_t i, bool alone)
{
    const Op& op = sh->c->ops[i];
    Result r;
    if (op.a[6]) sim_arm_alloc(alloc_nth(op.a[6], sh->ref[i]), 1);
    do_op(sh->P, op, r);
    bool fired = false;
    if (op.a[6]) fired = sim_disarm_alloc() != 0;
    for (auto& x : r.v) {
        union { double d; uint64_t u; } z;
        z.d = x.second;
        sim_hash(x.first * 31 + z.u);
    }
    sim_hash(r.ok + 7 + r.extra);
    if (sim_held_locks()) sim_violation("lock-leak", "op %zu (%s) returned while its task still holds a lock", i, op_names[(size_t) op.code]);
    if (fired && !r.ok) {
        sim_probe(1);
        ++sim_result()->ops_err;
        if (r.err != "bad_alloc" && (sh->ref[i].ok || r.err != sh->ref[i].err))
            sim_violation("wrong-error", "op %zu (%s): memory exhaustion surfaced as %s", i, op_names[(size_t) op.code], r.err.c_str());
        if (alone) { // with warm caches, a failing call gives back all it took
            Result w1, w2;
            do_op(sh->P, op, w1);
            uint64_t before;
            {
                Result t1;
                do_op(sh->P, op, t1);
            }
            uint64_t mark = sim_heap_mark();
            before = sim_live_blocks() + sim_small_live();
            {
                Result t2;
                sim_arm_alloc(alloc_nth(op.a[6], sh->ref[i]), 1);
                do_op(sh->P, op, t2);
                fired = sim_disarm_alloc() != 0;
                if (!t2.ok && t2.err != "bad_alloc" && (sh->ref[i].ok || t2.err != sh->ref[i].err))
                    sim_violation("wrong-error", "op %zu (%s): memory exhaustion surfaced as %s", i, op_names[(size_t) op.code], t2.err.c_str());
            }
            uint64_t after = sim_live_blocks() + sim_small_live();
            if (fired) sim_probe(3);
            if (after != before) {
                char b[2048];
                sim_heap_new_live(mark, b, sizeof b);
                sim_violation("leak", "op %zu (%s) with %s leaves %lld block(s) behind: %s", i, op_names[(size_t) op.code],
                              fired ? "a failing allocation" : "no failure", (long long) (after - before), b);
            }
        }
        return;
    }
    ++sim_result()->ops_ok;
    std::string why;
    int64_t ct = sh->P[(size_t) op.a[0]].g.ct;
    if (op.code == A_CONV) ct = 1;
    if (!same(r, sh->ref[i], tol_of(ct), &why))
        sim_violation(fired ? "wrong-answer-after-fault" : "wrong-answer", "op %zu (%s): answer differs from that of a pristine process: %s",
                      i, op_names[(size_t) op.code], why.c_str());
}
struct TArg {
    Sh* sh;
    int tid;
};
void task(void* q)
{
    auto* a = (TArg*) q;
    for (size_t i = 0; i < a->sh->c->ops.size(); ++i)
        if (a->sh->c->ops[i].tid == a->tid) run_op(a->sh, i, a->sh->c->get("tasks") == 1);
}
void body(const RunCtx& rc)
{
    const Case& c = rc.c;
    if (rc.phase == 0) {
        for (size_t i = 0; i < c.ops.size(); ++i) {
            RefArg a{&c, i};
            sim_isolated(ref_one, &a);
        }
        sim_finish_ok();
    }
    auto* sh = new Sh;
    sh->c = &c;
    InBuf in(rc.prev[0]->out, rc.prev[0]->outlen);
    sh->ref.resize(c.ops.size());
    for (auto& r : sh->ref) r.load(in);
    sh->P = pools(c);
    sh->pool_img = image(sh->P);
    int T = (int) c.get("tasks");
    std::vector<TArg> args;
    args.reserve((size_t) T);
    for (int t = 0; t < T; ++t) args.push_back({sh, t});
    for (int t = 0; t < T; ++t) sim_spawn(task, &args[(size_t) t]);
    sim_run(&c.sched);
    for (size_t i = 0; i < c.ops.size(); ++i)
        if (c.ops[i].tid == 99) run_op(sh, i, true);
    auto img = image(sh->P);
    for (size_t k = 0; k < img.size(); ++k) {
        std::string why;
        if (!same(img[k], sh->pool_img[k], 0, &why)) sim_violation("operand-changed", "an operand no operation may change was changed: %s", why.c_str());
    }
    delete sh;
    sim_finish_ok();
}
int two(const Case&) { return 2; }
Scenario s0{"algebra", "concurrent algebra operations on shared operands, contexts and caches", op_names,
            [](Rng& r, Case& c) { gen(r, c, 0); }, two, body, 1, {"", "failed-op", "model-checked", "leak-checked"}, {"faults"}};
Scenario s1{"algfault", "algebra operations whose allocations fail", op_names,
            [](Rng& r, Case& c) { gen(r, c, 1); }, two, body, 1, {"", "failed-op", "model-checked", "leak-checked"}, {"faults"}};
RegisterScenario r0(&s0), r1(&s1);
} // namespace
