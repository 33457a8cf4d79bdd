// Streams of every data-backed kind from case parameters.
#pragma once
#include "rp.h"
#include <roughpy/streams/dynamically_constructed_stream.h>

namespace rp {
enum Kind { K_LIE, K_TICK, K_PIECEWISE, K_EXTERNAL, K_FN, K_NKINDS };
struct StreamSpec {
    int64_t kind = 0, seed = 0, n = 1, res = 2, w = 2, d = 2, ct = 0, vt = 0;
    int64_t off = 0;  // the data lie in [off, off + 1)
    int64_t fine = 0; // values with full mantissas: exact arithmetic needs long numbers
    double support_hi() const { return 1.0 + (double) off; }
};
struct Event {
    double t;
    std::vector<double> x;
};
std::vector<Event> events_of(const StreamSpec& s); // sorted by time, times in [off, off + 1)
void gen_spec(Rng& r, Case& c, int i, int64_t kinds_mask = (1 << K_NKINDS) - 1);
StreamSpec spec_of(const Case& c, int i);
std::shared_ptr<streams::StreamInterface> make_impl(const StreamSpec& s);
Stream make_stream(const StreamSpec& s);
StreamMetadata make_md(const StreamSpec& s);
Lie lie_level1(const algebra::Context& ctx, const std::vector<double>& x, int64_t vt);
Dense model_sig(const StreamSpec& s, double lo, double hi); // signature of events in [lo,hi)
// the data sources throw on their n-th call (per task)
void source_fail_arm(int64_t nth);
bool source_fail_disarm(); // did it fire?
} // namespace rp
