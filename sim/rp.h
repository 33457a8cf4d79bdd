// Helpers shared by the scenarios: RoughPy objects from case data, encoding of
// results, and a small independent dense model of the truncated tensor algebra.
#pragma once
#include "case.h"

#include <roughpy/algebra/context.h>
#include <roughpy/algebra/free_tensor.h>
#include <roughpy/algebra/lie.h>
#include <roughpy/algebra/shuffle_tensor.h>
#include <roughpy/algebra/lie_basis.h>
#include <roughpy/algebra/tensor_basis.h>
#include <roughpy/algebra/algebra_iterator.h>
#include <roughpy/intervals/dyadic_interval.h>
#include <roughpy/intervals/real_interval.h>
#include <roughpy/intervals/partition.h>
#include <roughpy/platform/archives.h>
#include <roughpy/scalars/random.h>
#include <roughpy/scalars/scalar_types.h>
#include <roughpy/scalars/scalar_type.h>
#include <roughpy/scalars/key_scalar_array.h>
#include <roughpy/scalars/scalar.h>
#include <roughpy/streams/brownian_stream.h>
#include <roughpy/streams/external_data_stream.h>
#include <roughpy/streams/lie_increment_stream.h>
#include <roughpy/streams/piecewise_abelian_stream.h>
#include <roughpy/streams/stream.h>
#include <roughpy/streams/stream_construction_helper.h>
#include <roughpy/streams/tick_stream.h>

#include <cmath>
#include <memory>
#include <sstream>
#include <vector>

namespace rp {
using namespace rpy;
using algebra::FreeTensor;
using algebra::Lie;
using algebra::ShuffleTensor;
using algebra::VectorType;
using algebra::context_pointer;
using intervals::DyadicInterval;
using intervals::RealInterval;
using scalars::ScalarType;
using streams::Stream;
using streams::StreamMetadata;

// 0 double, 1 float, 2 rational, 3 polynomials with rational coefficients
inline const ScalarType* ctype_of(int64_t k)
{
    switch (k) {
        case 1: return *ScalarType::of<float>();
        case 2: return *ScalarType::of<devices::rational_scalar_type>();
        case 3: return *ScalarType::of<devices::rational_poly_scalar>();
        default: return *ScalarType::of<double>();
    }
}
// the value; a digest of the text for polynomials
double to_double(const scalars::Scalar& s);

struct Result {
    uint8_t ok = 0; // 1 value, 0 error
    std::string err;
    std::vector<std::pair<uint64_t, double>> v; // key -> coefficient, non-zero only
    uint64_t extra = 0;
    uint64_t allocs = 0; // how many allocations the reference run made
    void save(OutBuf& o) const
    {
        o.u8(ok);
        o.str(err);
        o.u64(extra);
        o.u64(allocs);
        o.u32((uint32_t) v.size());
        for (auto& x : v) {
            o.u64(x.first);
            o.f64(x.second);
        }
    }
    void load(InBuf& i)
    {
        ok = i.u8();
        err = i.str();
        extra = i.u64();
        allocs = i.u64();
        uint32_t n = i.u32();
        v.resize(n);
        for (auto& x : v) {
            x.first = i.u64();
            x.second = i.f64();
        }
    }
};
template <typename A> void encode(const A& a, Result& r)
{
    r.ok = 1;
    if (!a) return; // null algebra objects read as zero
    for (auto it = a.begin(); it != a.end(); ++it) {
        double d = to_double(it->value());
        SimNoAllocFault nf;
        if (d != 0.0) r.v.emplace_back((uint64_t) it->key(), d);
    }
    std::sort(r.v.begin(), r.v.end());
}
std::string show(const Result& r);
// tolerance relative to the largest coefficient
bool same(const Result& a, const Result& b, double tol, std::string* why = nullptr);
inline double tol_of(int64_t ct) { return ct == 1 ? 2e-4 : 1e-9; }

// ---------------------------------------------------------------- dense model
struct Dense { // truncated tensor, level-major
    int w = 0, d = 0;
    std::vector<double> c;
    Dense() = default;
    Dense(int w, int d) : w(w), d(d), c(size(w, d), 0.0) {}
    static size_t size(int w, int d)
    {
        size_t s = 1, p = 1;
        for (int i = 0; i < d; ++i) {
            p *= (size_t) w;
            s += p;
        }
        return s;
    }
    size_t off(int k) const { return k == 0 ? 0 : size(w, k - 1); }
    static Dense one(int w, int d)
    {
        Dense r(w, d);
        r.c[0] = 1;
        return r;
    }
};
Dense mul(const Dense& a, const Dense& b);
Dense exp_level1(int w, int d, const std::vector<double>& x); // exp of a degree-1 element
Dense dlog(const Dense& a);
// free tensor -> dense (RoughPy tensor keys are level-major indices)
Dense dense_of(const FreeTensor& t, int w, int d);
Dense dense_of(const Result& r, int w, int d);
Dense dexp(const Dense& a); // of a tensor without constant term
Dense add(const Dense& a, const Dense& b, double f = 1.0); // a + f b
Dense scale(const Dense& a, double f);
Dense truncate(const Dense& a, int d);
Dense dsig_factor(const Dense& log, const Dense& p); // d exp(log)[p] = exp(log) * dsig_factor
// Lie result (Hall keys) -> the tensor it stands for
Dense dense_of_lie(const Result& r, int w, int d);
double max_diff(const Dense& a, const Dense& b);
double max_abs(const Dense& a);

// ---------------------------------------------------------------- op execution
// which allocation of an operation fails: v <= 1000 is a position relative to the
// number the operation makes in a fresh process, above that an absolute number
inline int64_t gen_alloc_fault(Rng& r) { return r.chance(2, 3) ? r.range(1, 1000) : 1000 + r.range(1, 16); }
inline uint64_t alloc_nth(int64_t v, const Result& ref)
{
    if (v > 1000) return (uint64_t) v - 1000;
    return 1 + (uint64_t) v * ref.allocs / 1001;
}
// runs f, turns exceptions into results; rejects non-std exceptions
template <typename F> void guard_op(Result& r, F&& f)
{
    try {
        f();
        r.ok = 1;
    } catch (const std::bad_alloc&) {
        SimNoAllocFault nf;
        r = Result();
        r.err = "bad_alloc";
    } catch (const std::exception& e) {
        SimNoAllocFault nf;
        r = Result();
        r.err = std::string("exception: ") + e.what();
    }
}
} // namespace rp
