// Arrays, scalars, buffers, streams of arrays and events: values kept until they
// are released, everything released exactly once, whatever is copied, moved,
// shared between threads or fails on the way.
#include "rp.h"
#include <functional>
#include <roughpy/core/slice.hpp>
#include <roughpy/platform/devices/buffer.h>
#include <roughpy/platform/devices/event.h>
#include <roughpy/platform/devices/host_device.h>
#include <roughpy/platform/devices/memory_view.h>
#include <roughpy/scalars/key_scalar_stream.h>

using namespace rp;
using scalars::KeyScalarArray;
using scalars::KeyScalarStream;
using scalars::Scalar;
using scalars::ScalarArray;

namespace {
enum OpCode {
    M_NEW, M_COPY, M_ASSIGN, M_MOVE, M_MOVEASSIGN, M_SELF, M_WRITE, M_CONVERT, M_SLICE, M_ARCHIVE, M_SHARED,
    M_OWNKEYS, M_PUSH, M_STREAM, M_STREAMASSIGN, M_SNEW, M_SASSIGN, M_BNEW, M_BCOPY, M_BASSIGN, M_BMAP, M_BSHARED, M_SWAP,
    M_EWAIT, M_ESET, M_ESTATUS, M_N
};
const std::vector<const char*> op_names{"new", "copy", "assign", "move", "moveassign", "selfassign", "write", "convert", "slice",
                                        "archive", "shared", "ownkeys", "push", "stream", "streamassign", "scalar", "scalarassign",
                                        "buffer", "buffercopy", "bufferassign", "buffermap", "sharedbuffer", "swap",
                                        "wait", "set", "status"};
// a[0] target slot, a[1] source slot, a[2] type, a[3] length, a[4] pattern, a[5] index, a[6] failing allocation, a[7] with keys
constexpr int NS = 4;

// what a slot must hold
struct Vals {
    int ty = -1; // 0..3 as ctype_of, 4 int64 without a scalar type; -1 nothing
    std::vector<int64_t> q; // quarters
    bool operator==(const Vals& o) const { return ty == o.ty && q == o.q; }
};
using PV = std::shared_ptr<Vals>; // shared where the storage is
struct Slot {
    KeyScalarArray a;
    PV v;
    std::vector<key_type> keys; // what keys() must show; empty: none
    bool own = false;
};
struct SSlot {
    Scalar s;
    int ty = -1;
    int64_t q = 0;
};
struct BSlot {
    devices::Buffer b;
    std::shared_ptr<std::vector<int64_t>> v;
};
struct RowModel {
    PV v;
    bool keyed;
};
struct MSlot {
    KeyScalarStream m;
    std::vector<RowModel> rows;
};
struct State {
    Slot a[NS];
    SSlot s[NS];
    BSlot b[NS];
    MSlot m[2];
};
const key_type g_keys[64] = {3, 1, 4, 1, 5, 9, 2, 6, 5, 3, 5, 8, 9, 7, 9, 3, 2, 3, 8, 4, 6, 2, 6, 4, 3, 3, 8, 3, 2, 7, 9, 5,
                             0, 2, 8, 8, 4, 1, 9, 7, 1, 6, 9, 3, 9, 9, 3, 7, 5, 1, 0, 5, 8, 2, 0, 9, 7, 4, 9, 4, 4, 5, 9, 2};
int64_t quarter(int64_t pattern, int64_t i)
{
    uint64_t z = (uint64_t) (pattern * 1000003 + i * 7919 + 17);
    z ^= z >> 13;
    z *= 0x9e3779b97f4a7c15ull;
    z ^= z >> 29;
    return (int64_t) (z % 2001) - 1000;
}
Scalar scalar_of(int ty, int64_t q)
{
    if (ty == 4) return Scalar(*ScalarType::of<double>(), q, 4);
    return Scalar(ctype_of(ty), q, 4);
}
bool holds(const Scalar& s, int ty, int64_t q)
{
    SimNoAllocFault nf;
    if (ty < 3) return to_double(s) == (double) q / 4;
    if (ty == 3) return s == scalar_of(3, q);
    return to_double(s) == (double) q;
}
void fail(size_t i, const Op& op, const char* what, const std::string& more = "")
{
    sim_violation("wrong-content", "op %zu (%s): %s%s", i, op_names[(size_t) op.code], what, more.c_str());
}
void check_array(const ScalarArray& a, const Vals& v, size_t i, const Op& op, const char* what)
{
    SimNoAllocFault nf;
    if (v.ty < 0) {
        if (!a.empty()) fail(i, op, what, " is not empty");
        return;
    }
    if (a.size() != v.q.size()) fail(i, op, what, " has size " + std::to_string(a.size()) + ", not " + std::to_string(v.q.size()));
    if (a.empty()) return;
    if (v.ty == 4) {
        auto sl = a.as_slice<int64_t>();
        for (size_t k = 0; k < v.q.size(); ++k)
            if (sl[k] != v.q[k]) fail(i, op, what, " lost element " + std::to_string(k));
        return;
    }
    if (a.type() != ctype_of(v.ty)) fail(i, op, what, " has another type");
    for (size_t k = 0; k < v.q.size(); ++k)
        if (!holds(a[k], v.ty, v.q[k])) fail(i, op, what, " lost element " + std::to_string(k));
}
void check_slot(const Slot& s, size_t i, const Op& op, const char* what)
{
    SimNoAllocFault nf;
    Vals none;
    check_array(s.a, s.v ? *s.v : none, i, op, what);
    if (s.keys.empty() != (s.a.keys() == nullptr) && !(s.v && s.v->q.empty())) fail(i, op, what, s.keys.empty() ? " has keys" : " lost its keys");
    for (size_t k = 0; k < s.keys.size(); ++k)
        if (s.a.keys()[k] != s.keys[k]) fail(i, op, what, " has another key at " + std::to_string(k));
}
ScalarArray build(const Op& op, Vals& v)
{
    v.ty = (int) op.a[2];
    size_t n = (size_t) op.a[3];
    {
        SimNoAllocFault nf;
        v.q.resize(n);
        for (size_t k = 0; k < n; ++k) v.q[k] = quarter(op.a[4], (int64_t) k);
    }
    if (v.ty == 4) {
        ScalarArray a(devices::type_info<int64_t>(), n);
        if (n) {
            auto sl = a.as_mut_slice<int64_t>();
            for (size_t k = 0; k < n; ++k) sl[k] = v.q[k];
        }
        return a;
    }
    ScalarArray a(ctype_of(v.ty), n);
    for (size_t k = 0; k < n; ++k) a[k] = scalar_of(v.ty, v.q[k]);
    return a;
}
struct Sh {
    const Case* c;
    State pub; // read by everybody
    devices::Event ev[2];
    int64_t ev_started[2] = {0, 0}, ev_done[2] = {0, 0}; // accessed atomically
    bool faults = true;
};
bool ld(const int64_t& x) { return __atomic_load_n(&x, __ATOMIC_ACQUIRE) != 0; }

void do_op(Sh* sh, State& st, size_t i, const Op& op, bool concurrent)
{
    auto& T = st.a[op.a[0] % NS];
    auto& F = st.a[op.a[1] % NS];
    bool armed = sh->faults && op.a[6] && concurrent;
    if (armed) sim_arm_alloc((uint64_t) op.a[6], 1);
    Result r;
    guard_op(r, [&] {
        switch (op.code) {
            case M_NEW: {
                Vals v;
                ScalarArray a = build(op, v);
                bool keyed = op.a[7] && !a.empty();
                if (keyed) {
                    KeyScalarArray k(std::move(a), g_keys);
                    T.a = std::move(k);
                } else
                    T.a = std::move(a);
                SimNoAllocFault nf;
                T.v = std::make_shared<Vals>(v);
                T.keys.clear();
                T.own = false;
                if (keyed) T.keys.assign(g_keys, g_keys + v.q.size());
                break;
            }
            case M_COPY: {
                KeyScalarArray k(F.a);
                { SimNoAllocFault nf; Slot t2; t2.v = F.v; t2.keys = F.keys; t2.a = KeyScalarArray(k); check_slot(t2, i, op, "a copy"); }
                T.a = std::move(k);
                SimNoAllocFault nf;
                PV v = F.v;
                auto keys = F.keys;
                T.v = v;
                T.keys = keys;
                T.own = F.own;
                break;
            }
            case M_ASSIGN: {
                T.a = F.a;
                SimNoAllocFault nf;
                if (&T != &F) {
                    T.v = F.v && F.v->ty >= 0 ? std::make_shared<Vals>(*F.v) : nullptr;
                    T.keys = F.keys;
                    T.own = F.own;
                }
                break;
            }
            case M_MOVE: {
                if (&T == &F) break;
                KeyScalarArray k(std::move(F.a));
                T.a = std::move(k);
                SimNoAllocFault nf;
                T.v = F.v;
                T.keys = F.keys;
                T.own = F.own;
                F = Slot();
                break;
            }
            case M_MOVEASSIGN: {
                if (&T == &F) break;
                T.a = std::move(F.a);
                SimNoAllocFault nf;
                T.v = F.v;
                T.keys = F.keys;
                T.own = F.own;
                F = Slot();
                break;
            }
            case M_SELF: {
                auto& self = T.a;
                T.a = self;
                T.a = std::move(self);
                break;
            }
            case M_WRITE: {
                if (!T.v || T.v.use_count() != 1 || T.v->q.empty()) break;
                size_t k = (size_t) op.a[5] % T.v->q.size();
                int64_t q = quarter(op.a[4], 99);
                if (T.v->ty == 4)
                    T.a.as_mut_slice<int64_t>()[k] = q;
                else {
                    Scalar x = scalar_of(T.v->ty, q);
                    T.a[k] = x;
                }
                T.v->q[k] = q;
                break;
            }
            case M_CONVERT: {
                if (!F.v || F.v->ty < 0 || F.v->ty > 2 || F.v->q.empty()) break;
                int ty = (int) op.a[2] % 3;
                ScalarArray a(ctype_of(ty), F.v->q.size());
                ctype_of(ty)->convert_copy(a, F.a);
                SimNoAllocFault nf;
                Vals v = *F.v;
                v.ty = ty;
                check_array(a, v, i, op, "the converted array");
                T.a = std::move(a);
                T.v = std::make_shared<Vals>(v);
                T.keys.clear();
                T.own = false;
                break;
            }
            case M_SLICE: {
                if (!F.v || F.v->q.size() < 2) break;
                size_t n = F.v->q.size(), lo = (size_t) op.a[5] % (n - 1), hi = lo + 1 + (size_t) op.a[4] % (n - lo - 1 + 1);
                if (hi > n) hi = n;
                const auto& cf = F.a;
                ScalarArray sl = cf[scalars::SliceIndex{lo, hi}];
                Vals v;
                { SimNoAllocFault nf; v.ty = F.v->ty; v.q.assign(F.v->q.begin() + (long) lo, F.v->q.begin() + (long) hi); }
                check_array(sl, v, i, op, "a slice");
                if (op.a[7] && v.ty != 4) { // a copy of a slice owns its elements
                    if (op.a[7] == 2) {
                        KeyScalarArray k(std::move(sl), g_keys);
                        KeyScalarArray d = std::move(k).copy_or_move();
                        SimNoAllocFault nf;
                        Slot t2;
                        t2.v = std::make_shared<Vals>(v);
                        t2.keys.assign(g_keys, g_keys + v.q.size());
                        t2.a = std::move(d);
                        check_slot(t2, i, op, "an owning copy of a slice");
                        T = std::move(t2);
                        T.own = true;
                    } else {
                        ScalarArray d;
                        d = sl;
                        T.a = std::move(d);
                        SimNoAllocFault nf;
                        T.v = std::make_shared<Vals>(v);
                        T.keys.clear();
                        T.own = false;
                    }
                }
                break;
            }
            case M_ARCHIVE: {
                if (!F.v || F.v->ty < 0) break;
                std::stringstream ss;
                ss.exceptions(std::ios::badbit);
                { archives::BinaryOutputArchive ar(ss); ar(F.a); }
                KeyScalarArray k;
                { archives::BinaryInputArchive ar(ss); ar(k); }
                SimNoAllocFault nf;
                Slot t2;
                t2.v = std::make_shared<Vals>(*F.v);
                t2.keys = F.keys;
                t2.own = !F.keys.empty();
                t2.a = std::move(k);
                check_slot(t2, i, op, "an array read from an archive");
                T = std::move(t2);
                break;
            }
            case M_SHARED: {
                const auto& P = sh->pub.a[op.a[1] % NS];
                KeyScalarArray k(P.a);
                if (op.a[7]) { KeyScalarArray d; d = P.a; k = std::move(d); }
                T.a = std::move(k);
                SimNoAllocFault nf;
                T.v = op.a[7] ? std::make_shared<Vals>(*P.v) : P.v;
                T.keys = P.keys;
                T.own = P.own;
                break;
            }
            case M_OWNKEYS: {
                if (!T.v || T.v->q.empty()) break;
                T.a.allocate_keys();
                SimNoAllocFault nf;
                auto* k = T.a.keys();
                const auto* ck = static_cast<const KeyScalarArray&>(T.a).keys();
                if (!k || k != ck) fail(i, op, "allocated keys cannot be written");
                T.keys.clear();
                for (size_t j = 0; j < T.v->q.size(); ++j) {
                    if (k[j] != 0) fail(i, op, "allocated keys are not zero");
                    k[j] = (key_type) quarter(op.a[4], (int64_t) j);
                    T.keys.push_back(k[j]);
                }
                T.own = true;
                break;
            }
            case M_PUSH: {
                auto& M = st.m[op.a[0] % 2];
                if (!F.v || F.v->ty < 0 || F.v->ty == 4 || F.v->q.empty()) break;
                ScalarArray row;
                row = static_cast<const ScalarArray&>(F.a);
                M.m.push_back(std::move(row), op.a[7] ? g_keys : nullptr);
                SimNoAllocFault nf;
                M.rows.push_back({std::make_shared<Vals>(*F.v), op.a[7] != 0});
                break;
            }
            case M_STREAM: break; // only looked at, below
            case M_STREAMASSIGN: {
                auto& X = st.m[op.a[0] % 2];
                auto& Y = st.m[(op.a[0] + 1) % 2];
                switch (op.a[5] % 4) {
                    case 0: X.m = Y.m; break;
                    case 1: { KeyScalarStream k(Y.m); X.m = std::move(k); break; }
                    case 2: { KeyScalarStream y(Y.m); KeyScalarStream k(std::move(y)); X.m = k; break; }
                    default: { KeyScalarStream k; k = Y.m; KeyScalarStream l; l = std::move(k); X.m = std::move(l); }
                }
                SimNoAllocFault nf;
                X.rows = Y.rows;
                break;
            }
            case M_SNEW: {
                auto& S = st.s[op.a[0] % NS];
                int ty = (int) op.a[2] % 4;
                int64_t q = quarter(op.a[4], 5);
                Scalar x = scalar_of(ty, q);
                Scalar y(x);
                if (!holds(y, ty, q)) fail(i, op, "a copied scalar has another value");
                SimNoAllocFault nf;
                S.s.~Scalar();
                new (&S.s) Scalar(std::move(y));
                S.ty = ty;
                S.q = q;
                break;
            }
            case M_SASSIGN: {
                auto& X = st.s[op.a[0] % NS];
                auto& Y = st.s[op.a[1] % NS];
                if (Y.ty < 0 || &X == &Y) break;
                if (X.ty == 3 || Y.ty == 3) { // never mixed: polynomials only among themselves
                    if (X.ty >= 0 && X.ty != Y.ty) break;
                }
                bool was = X.ty >= 0;
                // assigning to a scalar that has a value keeps its type
                switch (op.a[5] % 3) {
                    case 0: X.s = Y.s; break;
                    case 1: { Scalar z(Y.s); X.s = std::move(z); break; }
                    default: {
                        Scalar z(Y.s);
                        Scalar zz(std::move(z));
                        X.s = zz;
                    }
                }
                if (!was || X.q == 0) X.ty = X.s.is_zero() ? (was ? X.ty : Y.ty) : X.ty;
                if (!was) X.ty = Y.ty;
                X.q = Y.q;
                break;
            }
            case M_BNEW: {
                auto& B = st.b[op.a[0] % NS];
                size_t n = (size_t) op.a[3] + 1;
                devices::Buffer b = devices::get_host_device()->raw_alloc(n * 8, op.a[2] ? 64 : 8);
                if (b.size() != n * 8 || b.is_null()) fail(i, op, "a new buffer has another size");
                if (((uintptr_t) b.ptr()) % (op.a[2] ? 64 : 8)) fail(i, op, "a new buffer is not aligned as asked");
                auto sl = b.as_mut_slice<int64_t>();
                for (size_t k = 0; k < n; ++k) sl[k] = quarter(op.a[4], (int64_t) k);
                SimNoAllocFault nf;
                B.v = std::make_shared<std::vector<int64_t>>(n);
                for (size_t k = 0; k < n; ++k) (*B.v)[k] = quarter(op.a[4], (int64_t) k);
                B.b = std::move(b);
                break;
            }
            case M_BCOPY: {
                auto& X = st.b[op.a[0] % NS];
                auto& Y = st.b[op.a[1] % NS];
                if (&X == &Y) break;
                devices::Buffer d;
                if (op.a[5] % 2 && !X.b.is_null() && X.v.use_count() == 1) { // into a buffer that is there already
                    Y.b.to_device(X.b, devices::get_host_device());
                } else {
                    Y.b.to_device(d, devices::get_host_device());
                    X.b = std::move(d);
                }
                SimNoAllocFault nf;
                if (Y.v)
                    X.v = std::make_shared<std::vector<int64_t>>(*Y.v);
                else if (!(op.a[5] % 2 && !X.b.is_null() && X.v.use_count() == 1))
                    X.v = nullptr;
                break;
            }
            case M_BASSIGN: {
                auto& X = st.b[op.a[0] % NS];
                auto& Y = st.b[op.a[1] % NS];
                switch (op.a[5] % 3) {
                    case 0: X.b = Y.b; X.v = Y.v; break;
                    case 1: { devices::Buffer z(Y.b); X.b = z; X.v = Y.v; break; }
                    default:
                        if (&X != &Y) {
                            X.b = std::move(Y.b);
                            X.v = Y.v;
                            Y.v = nullptr;
                        }
                }
                break;
            }
            case M_BMAP: {
                auto& B = st.b[op.a[0] % NS];
                size_t n = B.v ? B.v->size() : 0;
                size_t off = n ? (size_t) op.a[5] % n : 0, len = n ? 1 + (size_t) op.a[4] % (n - off) : 0;
                auto view = B.b.map(devices::BufferMode::Read, len * 8, off * 8);
                if (view.size() != len * 8) fail(i, op, "a view has another size");
                auto sl = view.as_slice<int64_t>();
                for (size_t k = 0; k < len; ++k)
                    if (sl[k] != (*B.v)[off + k]) fail(i, op, "a view shows other values");
                break;
            }
            case M_BSHARED: {
                auto& B = st.b[op.a[0] % NS];
                auto& P = sh->pub.b[op.a[1] % NS];
                const auto& pb = P.b;
                devices::Buffer b(pb);
                B.b = std::move(b);
                B.v = P.v;
                break;
            }
            case M_SWAP: {
                std::swap(st.a[op.a[0] % NS].a, st.a[op.a[1] % NS].a);
                std::swap(st.b[op.a[0] % NS].b, st.b[op.a[1] % NS].b);
                SimNoAllocFault nf;
                auto &x = st.a[op.a[0] % NS], &y = st.a[op.a[1] % NS];
                std::swap(x.v, y.v);
                std::swap(x.keys, y.keys);
                std::swap(x.own, y.own);
                std::swap(st.b[op.a[0] % NS].v, st.b[op.a[1] % NS].v);
                break;
            }
            case M_EWAIT: {
                if (!concurrent) break;
                int e = (int) (op.a[0] % 2);
                devices::Event h(sh->ev[e]);
                h.wait();
                if (!ld(sh->ev_started[e])) sim_violation("early-wake", "op %zu: wait() returned before anything completed the event", i);
                auto s = h.status();
                if (s != (e ? devices::EventStatus::Error : devices::EventStatus::CompletedSuccessfully))
                    sim_violation("wrong-status", "op %zu: a completed event has status %d", i, (int) s);
                break;
            }
            case M_ESET: {
                if (!concurrent) break;
                int e = (int) (op.a[0] % 2);
                devices::Event h;
                h = sh->ev[e];
                if (op.a[5] % 2 && !ld(sh->ev_started[e])) h.set_status(devices::EventStatus::Running);
                __atomic_store_n(&sh->ev_started[e], 1, __ATOMIC_RELEASE);
                h.set_status(e ? devices::EventStatus::Error : devices::EventStatus::CompletedSuccessfully);
                __atomic_store_n(&sh->ev_done[e], 1, __ATOMIC_RELEASE);
                break;
            }
            case M_ESTATUS: {
                if (!concurrent) break;
                int e = (int) (op.a[0] % 2);
                devices::Event h(std::move(devices::Event(sh->ev[e])));
                bool done = ld(sh->ev_done[e]);
                auto s = h.status();
                bool started = ld(sh->ev_started[e]);
                auto fin = e ? devices::EventStatus::Error : devices::EventStatus::CompletedSuccessfully;
                if (done ? s != fin : (s != fin && s != devices::EventStatus::Submitted && s != devices::EventStatus::Running))
                    sim_violation("wrong-status", "op %zu: an event %s has status %d", i, done ? "that was completed" : "in progress", (int) s);
                if (s == fin && !started) sim_violation("wrong-status", "op %zu: an event has status %d before anything gave it", i, (int) s);
                break;
            }
        }
    });
    bool fired = armed && sim_disarm_alloc() != 0;
    if (!r.ok) {
        if (op.code == M_STREAMASSIGN) { // only says that the target can still be used
            SimNoAllocFault nf;
            auto& X = st.m[op.a[0] % 2];
            X.m = KeyScalarStream();
            X.rows.clear();
        }
        if (!(fired && r.err == "bad_alloc")) sim_violation("wrong-error", "op %zu (%s): %s", i, op_names[(size_t) op.code], r.err.c_str());
        ++sim_result()->ops_err;
        sim_probe(1);
    } else
        ++sim_result()->ops_ok;
    // everything this task holds is as the model says
    for (int k = 0; k < NS; ++k) {
        check_slot(st.a[k], i, op, "an array");
        if (st.s[k].ty >= 0 && !holds(st.s[k].s, st.s[k].ty, st.s[k].q)) fail(i, op, "a scalar has another value");
        auto& B = st.b[k];
        if (B.v) {
            if (B.b.size() != B.v->size() * 8) fail(i, op, "a buffer has another size");
            const auto& cb = B.b;
            auto sl = cb.as_slice<int64_t>();
            for (size_t j = 0; j < B.v->size(); ++j)
                if (sl[j] != (*B.v)[j]) fail(i, op, "a buffer has other contents");
        } else if (!B.b.is_null())
            fail(i, op, "a buffer that holds nothing is not null");
    }
    for (auto& M : st.m) {
        if (M.m.row_count() != M.rows.size()) fail(i, op, "a stream of arrays has another number of rows");
        for (size_t j = 0; j < M.rows.size(); ++j) {
            SimNoAllocFault nf;
            KeyScalarArray row = M.m[j];
            check_array(row, *M.rows[j].v, i, op, "a row");
            const auto& crow = row;
            bool wants = M.rows[j].keyed;
            if ((static_cast<const KeyScalarArray&>(crow).keys() == g_keys) != wants) fail(i, op, "a row has other keys");
        }
    }
    for (int k = 0; k < NS; ++k)
        if (st.a[k].v && st.a[k].v->ty == 2) sim_hash((uint64_t) st.a[k].v->q.size());
    if (sim_held_locks()) sim_violation("lock-leak", "op %zu returned while its task still holds a lock", i);
}
struct TArg {
    Sh* sh;
    int tid;
};
void program(Sh* sh, int tid, bool concurrent)
{
    SimNoAllocFault* nf = new SimNoAllocFault;
    auto* st = new State;
    delete nf;
    for (size_t i = 0; i < sh->c->ops.size(); ++i)
        if (sh->c->ops[i].tid == tid) do_op(sh, *st, i, sh->c->ops[i], concurrent);
    delete st;
}
void task(void* q)
{
    auto* a = (TArg*) q;
    program(a->sh, a->tid, true);
}
void make_public(const Case& c, Sh* sh)
{
    for (int k = 0; k < NS; ++k) {
        Op op;
        op.code = M_NEW;
        op.a[0] = k;
        op.a[2] = c.get(("pt" + std::to_string(k)).c_str());
        op.a[3] = c.get(("pn" + std::to_string(k)).c_str(), 3);
        op.a[4] = 100 + k;
        op.a[7] = k % 2;
        do_op(sh, sh->pub, 0, op, false);
        op.code = M_OWNKEYS;
        if (k == 3) do_op(sh, sh->pub, 0, op, false);
        op.code = M_BNEW;
        op.a[2] = 0;
        do_op(sh, sh->pub, 0, op, false);
    }
}
void body(const RunCtx& rc)
{
    const Case& c = rc.c;
    auto* sh = new Sh;
    sh->c = &c;
    make_public(c, sh);
    int T = (int) c.get("tasks");
    for (int t = 0; t < T; ++t) program(sh, t, false); // first uses of everything
    sh->ev[0] = devices::get_host_device()->new_event();
    sh->ev[1] = devices::get_host_device()->new_event();
    std::vector<TArg> args;
    args.reserve((size_t) T);
    for (int t = 0; t < T; ++t) args.push_back({sh, t});
    for (int t = 0; t < T; ++t) sim_spawn(task, &args[(size_t) t]);
    uint64_t small = sim_small_live(), mark = sim_heap_mark();
    sim_run(&c.sched);
    for (auto& e : sh->ev) {
        if (e.ref_count() != 1) sim_violation("reference-count", "an event held once has a reference count of %zu", (size_t) e.ref_count());
        e = devices::Event();
    }
    for (auto& b : sh->pub.b)
        if (b.b.ref_count() != 1) sim_violation("reference-count", "a buffer held once has a reference count of %zu", (size_t) b.b.ref_count());
    char buf[2048];
    uint64_t n = sim_heap_new_live(mark, buf, sizeof buf);
    if (n) sim_violation("leak", "%llu block(s) are never given back: %s", (unsigned long long) n, buf);
    if (sim_small_live() != small) sim_violation("leak", "%lld small object(s) are never given back", (long long) (sim_small_live() - small));
    sim_probe(2);
    delete sh;
    sim_finish_ok();
}
void gen(Rng& r, Case& c)
{
    gen_heap(r, c);
    int T = r.chance(1, 3) ? 1 : (int) r.range(2, 4);
    gen_sched(r, c, T == 1);
    c.p["tasks"] = T;
    for (int k = 0; k < NS; ++k) {
        c.p["pt" + std::to_string(k)] = r.range(0, 4);
        c.p["pn" + std::to_string(k)] = r.range(1, 6);
    }
    int n = (int) r.range(3, T == 1 ? 24 : 9);
    for (int t = 0; t < T; ++t) {
        for (int k = 0; k < n; ++k) {
            Op op;
            op.tid = t;
            op.code = (int) r.range(0, M_N - 1);
            if (op.code == M_EWAIT && t == T - 1) op.code = M_ESTATUS;
            if (op.code == M_ESET && t != T - 1) op.code = M_EWAIT;
            if (k < 2 && r.chance(1, 2)) op.code = r.chance(1, 2) ? M_NEW : M_SHARED;
            op.a[0] = r.range(0, NS - 1);
            op.a[1] = r.range(0, NS - 1);
            op.a[2] = r.range(0, 4);
            op.a[3] = r.chance(1, 8) ? 0 : r.chance(1, 8) ? r.range(30, 60) : r.range(1, 6);
            op.a[4] = r.range(1, 1000);
            op.a[5] = r.range(0, 11);
            op.a[7] = r.range(0, 2);
            if (c.faults && op.code < M_EWAIT && r.chance(1, 2)) op.a[6] = r.chance(3, 4) ? r.range(1, 8) : r.range(1, 40);
            c.ops.push_back(op);
        }
        if (t == T - 1)
            for (int e = 0; e < 2; ++e) {
                Op op;
                op.tid = t;
                op.code = M_ESET;
                op.a[0] = e;
                op.a[5] = r.range(0, 1);
                c.ops.push_back(op);
            }
    }
}
int one(const Case&) { return 1; }
Scenario s0{"memory", "owners, borrowers and shared handles of values, buffers and events", op_names, gen, one, body, 0,
            {"", "failed-op", "balanced"}, {}};
RegisterScenario r0(&s0);
} // namespace
