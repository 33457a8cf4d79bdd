#include "rp.h"

namespace rp {
double to_double(const scalars::Scalar& s)
{
    if (s.type_info().code != devices::TypeCode::APRationalPolynomial) return scalars::scalar_cast<double>(s);
    SimNoAllocFault nf;
    std::ostringstream o;
    o << s;
    std::string t = o.str();
    if (t == "{ }" || t == "0") return 0;
    uint64_t h = 1469598103934665603ull;
    for (char ch : t) h = (h ^ (unsigned char) ch) * 1099511628211ull;
    return 1.0 + (double) (h >> 24);
}
std::string show(const Result& r)
{
    if (!r.ok) return "error(" + r.err + ")";
    std::string s = "{";
    char b[64];
    int n = 0;
    for (auto& x : r.v) {
        if (++n > 12) {
            s += " ...";
            break;
        }
        snprintf(b, sizeof b, " %llu:%.12g", (unsigned long long) x.first, x.second);
        s += b;
    }
    if (r.extra) {
        snprintf(b, sizeof b, " extra=%llu", (unsigned long long) r.extra);
        s += b;
    }
    return s + " }";
}
bool same(const Result& a, const Result& b, double tol, std::string* why)
{
    auto fail = [&](const char* m) {
        if (why) *why = std::string(m) + ": " + show(a) + " vs " + show(b);
        return false;
    };
    if (a.ok != b.ok) return fail("status differs");
    if (!a.ok) return a.err == b.err ? true : fail("error differs");
    if (a.extra != b.extra) return fail("value differs");
    double m = 1.0;
    for (auto& x : a.v) m = std::max(m, std::fabs(x.second));
    for (auto& x : b.v) m = std::max(m, std::fabs(x.second));
    size_t i = 0, j = 0;
    while (i < a.v.size() || j < b.v.size()) {
        double d;
        if (j == b.v.size() || (i < a.v.size() && a.v[i].first < b.v[j].first)) d = a.v[i++].second;
        else if (i == a.v.size() || b.v[j].first < a.v[i].first)
            d = b.v[j++].second;
        else
            d = a.v[i++].second - b.v[j++].second;
        if (!(std::fabs(d) <= tol * m)) return fail("coefficients differ");
    }
    return true;
}
Dense mul(const Dense& a, const Dense& b)
{
    Dense r(a.w, a.d);
    for (int k = 0; k <= a.d; ++k)
        for (int i = 0; i <= k; ++i) {
            size_t oa = a.off(i), ob = b.off(k - i), orr = r.off(k);
            size_t na = a.off(i + 1) - oa, nb = b.off(k - i + 1) - ob;
            for (size_t x = 0; x < na; ++x) {
                if (a.c[oa + x] == 0) continue;
                for (size_t y = 0; y < nb; ++y) r.c[orr + x * nb + y] += a.c[oa + x] * b.c[ob + y];
            }
        }
    return r;
}
Dense exp_level1(int w, int d, const std::vector<double>& x)
{
    Dense r = Dense::one(w, d);
    for (int k = 1; k <= d; ++k) {
        size_t o = r.off(k), p = r.off(k - 1), n = r.off(k) - p;
        for (size_t i = 0; i < n; ++i)
            for (int j = 0; j < w; ++j) r.c[o + i * (size_t) w + (size_t) j] = r.c[p + i] * x[(size_t) j] / k;
    }
    return r;
}
Dense dlog(const Dense& a)
{
    Dense x = a;
    x.c[0] = 0;
    Dense r(a.w, a.d), p = Dense::one(a.w, a.d);
    for (int k = 1; k <= a.d; ++k) {
        p = mul(p, x);
        for (size_t i = 0; i < r.c.size(); ++i) r.c[i] += ((k & 1) ? 1.0 : -1.0) * p.c[i] / k;
    }
    return r;
}
Dense dense_of(const FreeTensor& t, int w, int d)
{
    Result r;
    encode(t, r);
    return dense_of(r, w, d);
}
Dense dense_of(const Result& r, int w, int d)
{
    Dense x(w, d);
    for (auto& kv : r.v)
        if (kv.first < x.c.size()) x.c[kv.first] = kv.second;
    return x;
}
Dense add(const Dense& a, const Dense& b, double f)
{
    Dense r = a;
    for (size_t i = 0; i < r.c.size() && i < b.c.size(); ++i) r.c[i] += f * b.c[i];
    return r;
}
Dense scale(const Dense& a, double f)
{
    Dense r = a;
    for (double& x : r.c) x *= f;
    return r;
}
Dense truncate(const Dense& a, int d)
{
    Dense r(a.w, d);
    for (size_t i = 0; i < r.c.size() && i < a.c.size(); ++i) r.c[i] = a.c[i];
    return r;
}
Dense dexp(const Dense& a)
{
    Dense r = Dense::one(a.w, a.d), p = r;
    for (int k = 1; k <= a.d; ++k) {
        p = scale(mul(p, a), 1.0 / k);
        r = add(r, p);
    }
    return r;
}
Dense dsig_factor(const Dense& log, const Dense& p)
{
    // sum over k of (-1)^k ad_log^k(p) / (k+1)!
    Dense r = p, ad = p;
    double f = 1;
    for (int k = 1; k <= log.d; ++k) {
        ad = add(mul(log, ad), mul(ad, log), -1.0);
        f /= -(double) (k + 1);
        r = add(r, ad, f);
    }
    return r;
}
Dense dense_of_lie(const Result& r, int w, int d)
{
    // the Hall set: letters, then pairs (i, j) with i < j whose second element
    // has a first parent no greater than i, by degree and first degree
    struct E {
        size_t l, r;
        int deg;
        Dense x;
    };
    std::vector<E> hall(1, E{0, 0, 0, Dense(w, d)});
    std::vector<std::pair<size_t, size_t>> range(1, {0, 1});
    for (int i = 0; i < w; ++i) {
        Dense x(w, d);
        if (d) x.c[(size_t) i + 1] = 1;
        hall.push_back({0, (size_t) i + 1, 1, x});
    }
    range.push_back({1, (size_t) w + 1});
    for (int n = 2; n <= d; ++n) {
        size_t start = hall.size();
        for (int e = 1; 2 * e <= n; ++e)
            for (size_t i = range[(size_t) e].first; i < range[(size_t) e].second; ++i)
                for (size_t j = std::max(i + 1, range[(size_t) (n - e)].first); j < range[(size_t) (n - e)].second; ++j)
                    if (hall[j].l <= i) hall.push_back({i, j, n, add(mul(hall[i].x, hall[j].x), mul(hall[j].x, hall[i].x), -1.0)});
        range.push_back({start, hall.size()});
    }
    Dense t(w, d);
    for (auto& kv : r.v)
        if (kv.first < hall.size()) t = add(t, hall[kv.first].x, kv.second);
    return t;
}
double max_diff(const Dense& a, const Dense& b)
{
    double m = 0;
    size_t n = std::min(a.c.size(), b.c.size());
    for (size_t i = 0; i < n; ++i) {
        double d = std::fabs(a.c[i] - b.c[i]);
        if (!(d <= m)) m = d;
    }
    return m;
}
double max_abs(const Dense& a)
{
    double m = 0;
    for (double v : a.c) m = std::max(m, std::fabs(v));
    return m;
}
} // namespace rp
