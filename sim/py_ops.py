"""World and operations of the Python callers' scenarios (pyq, pyleak)."""
import gc, random, sys
import numpy as np
import roughpy as rp
import _sim

OPS = []


def op(kind):
    def deco(f):
        f.kind = kind
        OPS.append(f)
        return f
    return deco


class CallbackError(Exception):
    """raised by a caller's own function"""


class Wrong(Exception):
    """an operation found two answers that differ"""


def agree(x, y, what):
    a, b = canon(x), canon(y)
    if not same(a, b, 1e-3 if "SPReal" in repr(a) else 1e-9):
        raise Wrong("%s: %r instead of %r" % (what, a, b))
    return x


W = None  # the world of this run
OPLIST = []


class World:
    pass


def dyadic(r, lo=-16, hi=16):
    return r.randint(lo, hi) / 8


# ------------------------------------------------------------------ canonical form
def canon(x):
    t = type(x)
    if x is None or t in (bool, int, str):
        return x
    if t is float:
        return ["f", x]
    if t is rp.Scalar:
        return ["s", str(x.scalar_type().__name__), canon(x.to_float()), ["str", str(x)]]
    if t in (rp.Lie, rp.FreeTensor, rp.ShuffleTensor):
        items = []
        for it in x:
            v = it.value()
            f = v.to_float()
            if f != 0.0:
                items.append([str(it.key()), ["f", f] if x.dtype is not rp.Rational else str(v)])
        items.sort(key=lambda p: p[0])
        return [t.__name__, x.width, x.max_degree, x.dtype.__name__, items]
    if t is np.ndarray:
        return ["nd", str(x.dtype), list(x.shape), [canon(float(y)) if x.dtype != object else str(y) for y in x.ravel()]]
    if t in (list, tuple):
        return [canon(y) for y in x]
    if t in (rp.RealInterval, rp.DyadicInterval, rp.Interval):
        return [t.__name__, ["f", x.inf()], ["f", x.sup()]]
    if t is rp.Context:
        return ["ctx", x.width, x.depth, x.ctype.__name__]
    return ["repr", str(x)]


def same(a, b, tol):
    if type(a) is not type(b): return False
    if isinstance(a, list):
        if len(a) == 2 and a[0] == "f" and len(b) == 2 and b[0] == "f":
            x, y = a[1], b[1]
            return x == y or abs(x - y) <= tol * max(1.0, abs(x), abs(y)) or (x != x and y != y)
        if a and b and a[0] == "str" and b[0] == "str": return True
        if len(a) == 5 and isinstance(a[4], list) and a[0] in ("Lie", "FreeTensor", "ShuffleTensor") and a[:4] == b[:4] and a[3] != "Rational":
            da, db = dict((k, v[1]) for k, v in a[4]), dict((k, v[1]) for k, v in b[4])
            sc = max([1.0] + [abs(v) for v in da.values()])
            return all(abs(da.get(k, 0.0) - db.get(k, 0.0)) <= tol * sc for k in set(da) | set(db))
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    return a == b


# ------------------------------------------------------------------ the world
def make_ctx(r):
    w = r.choice([2, 2, 3])
    d = r.choice([1, 2, 2, 3]) if w == 3 else r.choice([1, 2, 3, 4])
    c = r.choice([rp.Rational, rp.Rational, rp.DPReal, rp.DPReal, rp.SPReal])
    return rp.get_context(w, d, c)


class Callback:
    """a caller's function; may fail on its nth call within an operation"""

    def __init__(self, coef):
        self.coef = coef
        self.hold = None

    def __call__(self, t, ctx):
        st = STATE.get(_sim.self_())
        if st is not None:
            st.calls += 1
            if st.fail_at and st.calls == st.fail_at:
                st.raised = "no value at call %d" % st.calls
                _sim.fault(_sim.F_CALLBACK)
                raise CallbackError(st.raised)
        _sim.yield_()
        n = int(round(t * 64))
        # increments in one direction: the answer does not depend on how finely the path was cut
        v = [c * (3 * n + n * n) / 64 for c in self.coef]
        if self.hold is not None:  # a caller that hands out the same object every time
            k = n
            if k not in self.hold: self.hold[k] = self.lie(v, ctx)
            return self.hold[k]
        return self.lie(v, ctx)

    def lie(self, v, ctx):
        return rp.Lie(np.array(v), ctx=ctx)


def lie_of(r, ctx, full=False):
    n = ctx.lie_size(ctx.depth) if full else ctx.width
    return rp.Lie(np.array([dyadic(r) for _ in range(n)]), ctx=ctx)


def tensor_of(r, ctx, cls, scalar=True):
    n = r.randint(1, ctx.tensor_size(ctx.depth))
    a = np.array([dyadic(r) for _ in range(n)])
    if scalar: a[0] = 1.0
    return cls(a, ctx=ctx)


def make_stream(r, ctx, brown=True):
    kind = r.choice(["incr", "incr", "tick", "pw", "fn", "fn", "brown", "simp", "restr", "tv"])
    if kind == "brown" and not brown: kind = "fn"
    base = r.choice([0, 0, 0, -2, 3])
    res = r.choice([2, 3, 4])
    s = _make(r, ctx, kind, base, res)
    return kind, base, s




def _make(r, ctx, kind, base, res):
    n = r.randint(1, 6)
    ts = sorted(r.sample(range(64), n))
    if kind in ("incr", "simp", "restr", "tv"):
        data = np.array([[dyadic(r) for _ in range(ctx.width)] for _ in range(n)])
        if r.random() < 0.3: data = np.asfortranarray(data)
        s = rp.LieIncrementStream.from_increments(data, indices=np.array([base + t / 64 for t in ts]), resolution=res, ctx=ctx)
        if kind == "simp":
            s = s.simplify(rp.Partition(rp.RealInterval(base, base + 1), [base + 0.5]), resolution=res)
        elif kind == "restr":
            s = s.restrict(rp.RealInterval(base + 0.125, base + 0.75))
        elif kind == "tv":
            return rp.TensorValuedStream(s, tensor_of(r, ctx, rp.FreeTensor), rp.RealInterval(base, base + 1))
        return s
    if kind == "tick":
        names = ["a", "b", "c"][:ctx.width]
        d = {}
        for t in ts: d[base + t / 64] = [(r.choice(names), "increment", dyadic(r))]
        d[base + 0.999] = [(x, "increment", 1.0) for x in names]
        return rp.TickStream.from_data(d, resolution=res, ctx=ctx)
    if kind == "pw":
        cuts = [0] + sorted(r.sample(range(1, 8), min(n, 4))) + [8]
        return rp.PiecewiseAbelianStream.construct(
            [(rp.RealInterval(base + a / 8, base + b / 8), lie_of(r, ctx, True)) for a, b in zip(cuts, cuts[1:])],
            ctx=ctx, resolution=res)
    if kind == "fn":
        cb = Callback([r.randint(-3, 3) for _ in range(ctx.width)])
        if r.random() < 0.4: cb.hold = {}
        return rp.FunctionStream.from_function(cb, ctx=ctx, resolution=res)
    if kind == "brown":
        c = ctx if ctx.ctype is not rp.Rational else rp.get_context(ctx.width, ctx.depth, rp.DPReal)
        return rp.BrownianStream.with_generator(ctx=c, resolution=res)
    raise AssertionError(kind)


STATE = {}


class OpState:
    __slots__ = ("calls", "fail_at", "raised")


def begin(params, ops):
    global W, OPLIST
    W = World()
    r = random.Random(params["world"])
    n = max(1, params.get("nobj", 1))
    W.ctxs = [make_ctx(r) for _ in range(n)]
    W.streams = [make_stream(r, r.choice(W.ctxs)) for _ in range(n + 1)]
    W.lies = [lie_of(r, c, True) for c in W.ctxs]
    W.fts = [tensor_of(r, c, rp.FreeTensor) for c in W.ctxs]
    W.shs = [tensor_of(r, c, rp.ShuffleTensor, False) for c in W.ctxs]
    W.lies2 = [lie_of(r, c, True) for c in W.ctxs]
    W.fts2 = [tensor_of(r, c, rp.FreeTensor) for c in W.ctxs]
    W.shs2 = [tensor_of(r, c, rp.ShuffleTensor, False) for c in W.ctxs]
    W.arrs = [np.array([dyadic(r) for _ in range(c.width)]) for c in W.ctxs]
    W.before = state_of_inputs()
    OPLIST = ops
    return ""


def inputs():
    return [("stream %d" % i, s[2]) for i, s in enumerate(W.streams)] + \
        [("%s %d" % (n, i), x) for n in ("lies", "fts", "shs", "lies2", "fts2", "shs2", "arrs", "ctxs")
         for i, x in enumerate(getattr(W, n))]


def state_of_inputs():
    return [canon(x) if not isinstance(x, (rp.Stream, rp.TensorValuedStream)) else None for _, x in inputs()]


def ordered():
    return sorted(OPS, key=lambda f: 0 if "stream" in f.kind else 1)


ORD = None


def one(i):
    global ORD
    if ORD is None: ORD = ordered()
    tid, code, a = OPLIST[i]
    f = ORD[code % len(ORD)]
    st = OpState()
    st.calls = 0
    st.raised = None
    st.fail_at = -a[6] if a[6] < 0 else 0
    me = _sim.self_()
    STATE[me] = st
    if a[6] > 0: _sim.arm(a[6], a[7])
    try:
        x = f(*a[:6])
        _sim.disarm()
        if st.raised: return "bad:lost-error|the caller's function raised CallbackError(%r) and the operation returned %r" % (st.raised, canon(x))
        return "ok:" + repr(canon(x))
    except Wrong as e:
        _sim.disarm()
        return "bad:wrong-answer|" + str(e)[:900]
    except CallbackError as e:
        _sim.disarm()
        if str(e) != st.raised: return "bad:wrong-error|%r instead of %r" % (str(e), st.raised)
        _sim.probe(2)
        return "err:callback"
    except MemoryError:
        n = _sim.disarm() if a[6] > 0 else 0
        if not n: return "bad:wrong-error|MemoryError without a failing allocation"
        _sim.probe(3)
        return "err:memory"
    except Exception as e:
        n = _sim.disarm() if a[6] > 0 else 0
        if st.raised: return "bad:wrong-error|the caller's function raised CallbackError(%r), the operation raised %s(%s)" % (st.raised, type(e).__name__, str(e)[:300])
        if n: return "errf:%s:%s" % (type(e).__name__, str(e).split("\n")[0][:200])
        if isinstance(e, SystemError): return "bad:system-error|%s" % str(e)[:300]
        return "err:%s:%s" % (type(e).__name__, str(e).split("\n")[0][:200])
    finally:
        STATE.pop(me, None)


def run(i):
    a = OPLIST[i][2]
    return one(i)


def check(i, got, ref):
    """'' or 'class|message'"""
    name = ORD[OPLIST[i][1] % len(ORD)].__name__
    a = OPLIST[i][2]
    if got.startswith("bad:"):
        c, m = got[4:].split("|", 1)
        return c + "|" + name + ": " + m
    if got in ("err:callback", "err:memory"): return ""
    if getattr(ORD[OPLIST[i][1] % len(ORD)], "kind") == "stream" and pick(W.streams, a[0])[0] == "brown":
        return ""  # seeded when first asked
    if ref.startswith("bad:"):
        c, m = ref[4:].split("|", 1)
        return c + "|" + name + " (alone): " + m
    if got.startswith("errf:"):
        # What the operation raises anyway. The small-object pool asks again for less when it is refused, so that a
        # failing allocation need not be an error, and it may fail alone too.
        if ref.split(":", 1)[1] == got[5:]: return ""
        return "wrong-error|%s: an allocation failed, the operation raised %s; alone in a fresh process %s" % (name, got[5:], ref)
    if ref in ("err:callback", "err:memory") or ref.startswith("errf:"): return ""
    if got == ref:
        _sim.probe(4)
        return ""
    if got.startswith("ok:") and ref.startswith("ok:"):
        x, y = eval(got[3:], {"nan": float("nan"), "inf": float("inf")}), eval(ref[3:], {"nan": float("nan"), "inf": float("inf")})
        if same(x, y, 1e-3 if "SPReal" in got else 1e-9):
            _sim.probe(4)
            return ""
    return "wrong-answer|%s%r: %s but alone in a fresh process %s" % (name, tuple(a[:6]), got[:600], ref[:600])


def finish():
    after = state_of_inputs()
    for (n, x), b, c in zip(inputs(), W.before, after):
        if b != c: return "input-changed|%s changed from %r to %r" % (n, b, c)
    return ""


def leak(i):
    tid, code, a = OPLIST[i]
    for _ in range(2):  # without faults, to fill the caches
        OPLIST[i] = (tid, code, a[:6] + (0, 0))
        one(i)
        OPLIST[i] = (tid, code, a)
    one(i)
    s = one(i)
    for _ in range(4): s = one(i)
    if s.startswith("bad:"):
        return s[4:]
    # Blocks allocated during one round of repetitions and still alive two rounds later: a cache or a free list
    # keeps some, a leak keeps at least one for every repetition, in every round.
    K, ROUNDS = 8, 6
    name = ORD[OPLIST[i][1] % len(ORD)].__name__
    refs, marks = [], []
    for k in range(ROUNDS):
        gc.collect()
        sys._clear_type_cache()  # keeps the names of attributes that were looked up
        refs.append([sys.getrefcount(x) for _, x in inputs()])
        marks.append(_sim.mark())
        for _ in range(K): one(i)
    gc.collect()
    sys._clear_type_cache()
    kept = [_sim.between(u, v) for u, v in zip(marks, marks[1:-1])]
    for q, (n, x) in enumerate(inputs()):
        if all(u[q] < v[q] for u, v in zip(refs, refs[1:])):
            return "refcount|%s repeated (%s): references to %s went %s every %d repetitions" % (name, s[:60], n, [u[q] for u in refs], K)
    if all(n >= K for n, _ in kept):
        return "leak|%s repeated (%s): of every %d repetitions %s blocks stayed; %s" % (name, s[:60], K, [n for n, _ in kept], kept[3][1])
    _sim.probe(2 if s.startswith("err") else 1)
    return ""


# ------------------------------------------------------------------ operations on streams
def pick(l, a): return l[a % len(l)]


def interval(base, a, b):
    p, q = a % 65, b % 65
    if p > q: p, q = q, p
    return rp.RealInterval(base + p / 64, base + q / 64)


@op("stream")
def signature(s, a, b, r, k, z):
    _, base, st = pick(W.streams, s)
    if k % 5 == 0: return st.signature(interval(base, a, b), resolution=r % 5, depth=1 + z % 3)
    if k % 5 == 1 and not isinstance(st, rp.TensorValuedStream): return st.signature(base + 0.25, base + 0.75, r % 5)
    return st.signature(interval(base, a, b), r % 5)


@op("stream")
def log_signature(s, a, b, r, k, z):
    _, base, st = pick(W.streams, s)
    if k % 5 == 0: return st.log_signature(interval(base, a, b), resolution=r % 5, depth=1 + z % 3)
    if k % 5 == 1: return st.log_signature(rp.DyadicInterval(base * 4 + a % 4, 2), r % 5)
    return st.log_signature(interval(base, a, b), r % 5)


@op("stream")
def derivative(s, a, b, r, k, z):
    _, base, st = pick(W.streams, s)
    if isinstance(st, rp.TensorValuedStream): st = st.increment_stream()
    p = rp.Lie(np.array([dyadic(random.Random(z)) for _ in range(st.width)]), ctx=st.ctx)
    if k % 3 == 0: return st.signature_derivative(interval(base, a, b), p, r % 4)
    if k % 3 == 1: return st.signature_derivative((interval(base, a, b), p), r % 4)
    return st.signature_derivative([(interval(base, a, b), p), (interval(base, b, a + 7), p)], r % 4)


@op("stream")
def simplify(s, a, b, r, k, z):
    _, base, st = pick(W.streams, s)
    if isinstance(st, rp.TensorValuedStream): st = st.increment_stream()
    q = st.simplify(rp.Partition(rp.RealInterval(base, base + 1), [base + (1 + a % 63) / 64]), resolution=r % 5)
    return q.log_signature(interval(base, a, b), r % 4)


@op("stream")
def restrict(s, a, b, r, k, z):
    _, base, st = pick(W.streams, s)
    if isinstance(st, rp.TensorValuedStream): return st.query(interval(base, a, b)).terminal_value()
    q = st.restrict(interval(base, a, b))
    return q.log_signature(interval(base, b, k), r % 4)


@op("stream")
def attributes(s, a, b, r, k, z):
    kind, base, st = pick(W.streams, s)
    if isinstance(st, rp.TensorValuedStream):
        return [st.domain(), st.initial_value(), st.terminal_value()]
    sup = st.support if kind != "brown" else None
    return [st.width, st.dtype.__name__, st.ctx, sup, st.resolution, repr(st), str(st)]


@op("stream")
def terminal(s, a, b, r, k, z):
    _, base, st = pick(W.streams, s)
    if not isinstance(st, rp.TensorValuedStream): st = rp.TensorValuedStream(st, rp.FreeTensor(np.array([1.0]), ctx=st.ctx), rp.RealInterval(base, base + 1))
    return st.query(interval(base, a, b)).initial_value()


@op("stream")
def build(s, a, b, r, k, z):
    rr = random.Random(a * 1000 + b)
    _, base, st = make_stream(rr, pick(W.ctxs, s), False)
    return st.log_signature(interval(base, r, k), 2)


# ------------------------------------------------------------------ algebra
@op("alg")
def ft_arith(s, a, b, r, k, z):
    i = s % len(W.fts)
    x, y = W.fts[i], W.fts2[i]
    c = dyadic(random.Random(z))
    t = a % 9
    if t == 0: return x + y
    if t == 1: return x - y
    if t == 2: return x * y
    if t == 3: return x * c
    if t == 4: return c * x
    if t == 5: return -x
    if t == 6: return x / 4
    if t == 7: return x.exp()
    return x.log()


@op("alg")
def sh_arith(s, a, b, r, k, z):
    i = s % len(W.shs)
    x, y = W.shs[i], W.shs2[i]
    t = a % 5
    if t == 0: return x * y
    if t == 1: return x + y
    if t == 2: return rp.free_multiply(x, y)
    if t == 3: return rp.half_shuffle_multiply(x, y)
    return rp.shuffle_multiply(W.fts[i], W.fts2[i])


@op("alg")
def lie_arith(s, a, b, r, k, z):
    i = s % len(W.lies)
    x, y = W.lies[i], W.lies2[i]
    c = W.ctxs[i]
    t = a % 8
    if t == 0: return x * y
    if t == 1: return c.cbh([x, y, x])
    if t == 2: return c.lie_to_tensor(x)
    if t == 3: return c.tensor_to_lie(c.lie_to_tensor(x))
    if t == 4: return c.to_logsignature(c.lie_to_tensor(x).exp())
    if t == 5: return x - y
    if t == 6: return x * 0.5
    return c.zero_lie()


@op("alg")
def inplace(s, a, b, r, k, z):
    i = s % len(W.fts)
    cls, x, y = [(rp.FreeTensor, W.fts[i], W.fts2[i]), (rp.ShuffleTensor, W.shs[i], W.shs2[i]), (rp.Lie, W.lies[i], W.lies2[i])][a % 3]
    v = x + y
    t = b % 9
    c = dyadic(random.Random(z))
    if t == 0: v += x
    elif t == 1: v -= x
    elif t == 2: v *= c
    elif t == 3: v /= 4
    elif t == 4: v.add_scal_mul(x, c)
    elif t == 5: v.sub_scal_mul(x, c)
    elif t == 6: v.add_mul(x, y)
    elif t == 7: v.sub_mul(x, y)
    else: v.add_scal_div(x, 4)
    return v


@op("alg")
def to_numpy(s, a, b, r, k, z):
    i = s % len(W.fts)
    return np.array([W.fts[i], W.shs[i], W.lies[i]][a % 3])


@op("alg")
def keys(s, a, b, r, k, z):
    c = pick(W.ctxs, s)
    if a % 4 == 0: return [str(x) for x in c.tensor_basis]
    if a % 4 == 1: return [str(x) for x in c.lie_basis]
    tb, lb = c.tensor_basis, c.lie_basis
    if a % 4 == 2: return [[str(tb.index_to_key(j)), tb.key_to_index(tb.index_to_key(j))] for j in range(tb.dimension)]
    return [[str(lb.index_to_key(j)), lb.key_to_index(lb.index_to_key(j))] for j in range(lb.dimension)]


@op("alg")
def items(s, a, b, r, k, z):
    i = s % len(W.fts)
    x = [W.fts[i], W.shs[i], W.lies[i]][a % 3]
    return [[str(it.key()), it.value()] for it in x]


@op("alg")
def element(s, a, b, r, k, z):
    i = s % len(W.fts)
    c = W.ctxs[i]
    if a % 2: return W.lies[i][c.lie_basis.index_to_key(b % c.lie_basis.dimension)]
    return W.fts[i][c.tensor_basis.index_to_key(b % c.tensor_basis.dimension)]


@op("alg")
def text(s, a, b, r, k, z):
    i = s % len(W.fts)
    x = [W.fts[i], W.shs[i], W.lies[i], W.ctxs[i]][a % 4]
    return [str(x), repr(x)]


def from_forms(c, cls, r):
    """the same vector from every form of data the constructors take"""
    n = r.randint(1, c.lie_size(c.depth) if cls is rp.Lie else c.tensor_size(c.depth))
    basis = c.lie_basis if cls is rp.Lie else c.tensor_basis
    v = [dyadic(r) for _ in range(n)]
    want = cls(np.array(v), ctx=c)
    t = r.randint(0, 9)
    sc = lambda q: rp.FreeTensor(np.array([q]), ctx=rp.get_context(c.width, c.depth, r.choice([c.ctype, rp.DPReal, rp.Rational])))[c.tensor_basis.index_to_key(0)]
    if t == 0: d = {j: v[j] for j in range(n)}
    elif t == 1: d = [(j, v[j]) for j in range(n)]
    elif t == 2:
        d = [(j, v[j]) for j in range(n)]
        r.shuffle(d)
    elif t == 3: d = [sc(q) for q in v]
    elif t == 4: d = [int(q) if q == int(q) else q for q in v]
    elif t == 5: d = tuple(v)
    elif t == 6: d = np.array(v + [7.0])[:n]
    elif t == 7: d = cls(np.array(v), ctx=c, vector_type=rp.VectorType.SparseVector)
    elif t == 8: d = {j: sc(v[j]) for j in range(n)}
    else:
        e = (ValueError, TypeError, RuntimeError, OverflowError)
        d = r.choice([np.array([True, False]), np.array([1j]), np.array(["a"]), np.array([None]), ["a"], [None], [1.0, "a"], [[1.0]], {"a": 1.0}, {0: "a"}, object(), np.zeros((2, 2))])
        how = r.randint(0, 2)
        if how == 1 and c.ctype is rp.Rational: d = r.choice([np.array([float("nan")]), [float("inf")], np.array([1.0, float("-inf")], dtype=np.float32), {1: float("nan")}])
        if how == 2:
            d = r.choice([np.array([[True] * c.width]), np.array([[1j] * c.width]), [["a"] * c.width]] + ([np.array([[float("nan")] * c.width])] if c.ctype is rp.Rational else []))
            return refuses(e, lambda: rp.LieIncrementStream.from_increments(d, indices=[0.0], ctx=c, resolution=4).log_signature(rp.RealInterval(0, 1), 4), "stream of %r" % (d,))
        return refuses_or_ignores(e, cls, c, d)
    return agree(cls(d, ctx=c), want, "%s from form %d of %r" % (cls.__name__, t, v))


def refuses_or_ignores(exc, cls, c, d):
    """what cannot be data must raise, and never end the process"""
    try: x = cls(d, ctx=c)
    except exc as e: return type(e).__name__
    str(x)
    return "accepted"


@op("alg")
def construct(s, a, b, r, k, z):
    i = s % len(W.fts)
    c = W.ctxs[i]
    arr = W.arrs[i]
    cls = [rp.FreeTensor, rp.ShuffleTensor, rp.Lie][a % 3]
    t = b % 7
    if t in (0, 3) and z % 3: return from_forms(c, cls, random.Random(k * 1000 + z))
    if t == 0: return cls(arr, ctx=c)
    if t == 1: return cls([float(v) for v in arr], ctx=c)
    if t == 2: return cls(arr.astype(np.float32), ctx=c)
    if t == 3: return cls(np.array([1, 2]), ctx=c)
    if t == 4: return cls(np.repeat(arr, 2)[::2], ctx=c)
    if t == 5: return cls([int(v) for v in arr], ctx=c)
    return cls(arr[::-1], ctx=c)


@op("alg")
def equality(s, a, b, r, k, z):
    i = s % len(W.fts)
    x, y = [(W.fts[i], W.fts2[i]), (W.shs[i], W.shs2[i]), (W.lies[i], W.lies2[i])][a % 3]
    return [x == y, x == x, x != y, x == y - y + x, c_eq(W.ctxs[i])]


def c_eq(c): return c == rp.get_context(c.width, c.depth, c.ctype)


@op("alg")
def pickled(s, a, b, r, k, z):
    import pickle
    i = s % len(W.fts)
    kind, base, st = pick(W.streams, s)
    if a % 4 == 3 and kind in ("incr", "restr"):
        return pickle.loads(pickle.dumps(st)).log_signature(interval(base, b, r), 2)
    return pickle.loads(pickle.dumps([W.fts[i], W.shs[i], W.lies[i]][a % 3]))


def kept_values(c, r, k):
    """values taken from vectors that are gone by the time they are looked at"""
    cls = [rp.FreeTensor, rp.ShuffleTensor, rp.Lie][k % 3]
    n = c.lie_size(c.depth) if cls is rp.Lie else c.tensor_size(c.depth)
    v = [dyadic(r, 1, 40) for _ in range(n)]
    basis = c.lie_basis if cls is rp.Lie else c.tensor_basis
    vt = r.choice([rp.VectorType.DenseVector, rp.VectorType.SparseVector])
    make = lambda: cls(np.array(v), ctx=c, vector_type=vt)
    got = {str(it.key()): it.value() for it in make()}
    keyed = [make()[basis.index_to_key(j)] for j in range(n)]
    ks = [it.key() for it in make()]
    junk = [cls(np.array([99.0] * n), ctx=c, vector_type=vt) for _ in range(8)]
    for j in range(n):
        key = str(basis.index_to_key(j))
        if got[key].to_float() != v[j]: raise Wrong("%s %s: value of %s kept from the iteration of a vector that is gone is %s instead of %r" % (cls.__name__, vt, key, got[key], v[j]))
        if keyed[j].to_float() != v[j]: raise Wrong("%s %s: element %s kept from a vector that is gone is %s instead of %r" % (cls.__name__, vt, key, keyed[j], v[j]))
    if sorted(str(q) for q in ks) != sorted(got): raise Wrong("keys kept from a vector that is gone: %r" % [str(q) for q in ks])
    # nor do they change with the vector
    x = make()
    e = [x[basis.index_to_key(j)] for j in range(n)] + [it.value() for it in x]
    before = [q.to_float() for q in e]
    x *= 3
    x += junk[0]
    if [q.to_float() for q in e] != before: raise Wrong("elements changed with the vector they were taken from")
    return [v, before]


def scalar_arith(c, r, tensor):
    """arithmetic of scalars, with other scalars and with numbers, against that of numbers"""
    import operator
    u, w = dyadic(r, 1, 40), r.choice([-1, 1]) * dyadic(r, 1, 40)
    x = rp.FreeTensor(np.array([u]), ctx=c)[c.tensor_basis.index_to_key(0)]
    kind = r.choice(["int", "float", "scalar", "sum", "other"])
    if kind == "int": y = w = r.choice([-5, -3, -1, 1, 2, 3, 4, 7])
    elif kind == "float": y = w
    elif kind == "scalar": y = rp.FreeTensor(np.array([w]), ctx=c)[c.tensor_basis.index_to_key(0)]
    elif kind == "sum": y = rp.FreeTensor(np.array([w - 1]), ctx=c)[c.tensor_basis.index_to_key(0)] + 1
    else:  # a scalar of another type
        c2 = rp.get_context(c.width, c.depth, r.choice([rp.Rational, rp.DPReal, rp.SPReal]))
        y = rp.FreeTensor(np.array([w]), ctx=c2)[c2.tensor_basis.index_to_key(0)]
    sym = r.choice(["+", "-", "*", "/"])
    f = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv}[sym]
    g = {"+": operator.iadd, "-": operator.isub, "*": operator.imul, "/": operator.itruediv}[sym]
    way = r.randint(0, 4)
    if way == 4:  # vectors and scalars
        t = -(-tensor)
        f, sym = r.choice([(operator.mul, "*"), (operator.truediv, "/")])
        if kind == "other": y, kind = w, "float"
        a = f(t, y)
        agree(a, f(t, float(w)), "tensor %s %s %r" % (sym, kind, w))
        if sym == "*": agree(y * t, a, "%s %r * tensor" % (kind, w))
        return agree(g_of(sym)(-(-tensor), y), a, "tensor %s= %s %r" % (sym, kind, w))
    if way == 3:
        if (x == y) != (u == w) or (x != y) == (u == w) or (y == x) != (u == w): raise Wrong("%r == %s %r is %r" % (u, kind, w, x == y))
        if not (x == u and x == x and x == x + 0): raise Wrong("%r is not equal to itself" % u)
        if x == float("nan") or x == float("inf"): raise Wrong("%r is equal to something that is not finite" % u)
        if c.ctype is rp.Rational: refuses((ValueError, RuntimeError, OverflowError), lambda: f(x, float("nan")), "%r %s nan" % (u, sym))
        refuses((ValueError, RuntimeError, OverflowError, ZeroDivisionError), lambda: x / 0, "division by zero")
        refuses((ValueError, RuntimeError, OverflowError, ZeroDivisionError), lambda: x / 0.0, "division by zero")
        return [u, w]
    if way == 0: q, e = f(x, y), f(u, w)
    elif way == 1: q, e = f(y, x), f(w, u)
    else:
        q, e = g(x, y), f(u, w)
    if not abs(q.to_float() - e) <= 1e-5 * max(1.0, abs(e)): raise Wrong("%r %s %s %r (way %d, %s) is %s instead of %r" % (u, sym, kind, w, way, c.ctype.__name__, q, e))
    n = -q
    if not abs(n.to_float() + e) <= 1e-5 * max(1.0, abs(e)): raise Wrong("-%r is %s" % (e, n))
    if way != 2 and x.to_float() != u: raise Wrong("%r %s %s %r changed the left operand to %s" % (u, sym, kind, w, x))
    if kind not in ("int", "float") and y.to_float() != w: raise Wrong("%r %s %s %r changed the right operand to %s" % (u, sym, kind, w, y))
    return q


def g_of(sym):
    import operator
    return operator.imul if sym == "*" else operator.itruediv


@op("alg")
def scalars(s, a, b, r, k, z):
    i = s % len(W.fts)
    t = a % 8
    if t == 7:
        x = [it.value() for it in W.fts[i]][0]
        return [repr(x), str(x), x.scalar_type().__name__]
    if t == 6: return kept_values(W.ctxs[i], random.Random(b * 1000 + z), k)
    return scalar_arith(W.ctxs[i], random.Random(b * 1000 + z), W.fts[i])


@op("alg")
def intervals(s, a, b, r, k, z):
    p = rp.Partition(rp.RealInterval(0, 1), [0.25, 0.5])
    t = a % 6
    if t == 0: return rp.DyadicInterval.to_dyadic_intervals(b % 17 / 16, 1 + r % 17 / 16, 4)
    if t == 1: return [p.mesh(), p.intermediates(), str(p.refine_midpoints()), len(p), p[1]]
    if t == 2: return rp.segment(rp.RealInterval(0, 1), seg_cb, 3)
    if t == 3: return [str(p.merge(rp.Partition(rp.RealInterval(0, 1), [0.375])))]
    if t == 4: return [rp.RealInterval(0, 1).contains(0.5), rp.RealInterval(0, 1).intersects_with(rp.RealInterval(0.5, 3)), repr(rp.RealInterval(0, 1)), rp.DyadicInterval(1, 2).dyadic_inf() < rp.Dyadic(3, 2)]
    return repr([rp.Dyadic(3, 2), rp.DyadicInterval(1, 2)])


def seg_cb(i):
    st = STATE.get(_sim.self_())
    if st is not None:
        st.calls += 1
        if st.fail_at and st.calls == st.fail_at:
            st.raised = "no value at call %d" % st.calls
            _sim.fault(_sim.F_CALLBACK)
            raise CallbackError(st.raised)
    return i.sup() - i.inf() < 0.3 and i.inf() >= 0.25


def mono(m):
    return rp.Monomial(dict(m)) if m else rp.Monomial()


def mono_mul(m, n):
    d = dict(m)
    for k, v in n: d[k] = d.get(k, 0) + v
    return tuple(sorted(d.items()))


def poly_mul(p, q):
    d = {}
    for m, x in p.items():
        for n, y in q.items(): d[mono_mul(m, n)] = d.get(mono_mul(m, n), 0) + x * y
    return d


def poly_sum(p, q, c=1):
    d = dict(p)
    for m, x in q.items(): d[m] = d.get(m, 0) + c * x
    return d


def is_poly(p, model, what):
    """the polynomial holds the terms of the model: {((indeterminate, power), ...): coefficient}"""
    model = {m: x for m, x in model.items() if x}
    got = {m: p[mono(m)].to_float() for m in model}
    if len(p) != len(model) or any(abs(got[m] - float(x)) > 1e-12 * max(1, abs(float(x))) for m, x in model.items()) or bool(p) != bool(model):
        raise Wrong("%s: %s with coefficients %r instead of %r" % (what, p, got, model))
    if p.degree() != max([0] + [sum(e for _, e in m) for m in model]): raise Wrong("%s: %s has degree %d" % (what, p, p.degree()))
    return p


def refuses(exc, f, what):
    try: x = f()
    except exc as e: return type(e).__name__
    raise Wrong("%s: gave %s instead of %r" % (what, x, exc))


@op("alg")
def polynomials(s, a, b, r, k, z):
    g = random.Random(a * 7919 + z)
    if a % 3 == 0: return polynomial_op(a // 3, b, r, k, z)  # one call alone, for the reports of leaks
    return [polynomial_op(g.randrange(26), b + j, g.randrange(216), k + j, z) for j in range(16)]


def polynomial_op(a, b, r, k, z):
    import copy, operator, pickle
    from fractions import Fraction as F
    g = random.Random(b * 1000 + z)

    def some_mono():
        return tuple(sorted((x, g.randint(1, 3)) for x in g.sample(["x1", "x2", "y3"], g.randint(0, 2))))

    def number(t):
        n, d = g.randint(-9, 9), g.choice([1, 2, 4, 8])
        return [n, n / d, F(n, d), F(n, 3)][t % 4]

    def some_poly():
        d = {some_mono(): F(number(0) or 1, g.choice([1, 2, 3])) for _ in range(g.randint(1, 4))}
        return rp.PolynomialScalar({mono(m): x for m, x in d.items()}), d

    (p, dp), (q, dq) = some_poly(), some_poly()
    m, n = some_mono(), some_mono()
    pm, pn = mono(m), mono(n)
    c = number(k)
    fc = F(c)
    t = a % 26
    if t == 0: return str(is_poly(p + q, poly_sum(dp, dq), "sum"))
    if t == 1: return str(is_poly(p - q, poly_sum(dp, dq, -1), "difference"))
    if t == 2: return str(is_poly(p * q, poly_mul(dp, dq), "product"))
    if t == 3: return str(is_poly(-p, poly_sum({}, dp, -1), "negative"))
    if t == 4: return str(is_poly([p + c, c + p][r % 2], poly_sum(dp, {(): fc}), "polynomial plus number"))
    if t == 5: return str(is_poly(p - c, poly_sum(dp, {(): -fc}), "polynomial minus number"))
    if t == 6: return str(is_poly(c - p, poly_sum({(): fc}, dp, -1), "number minus polynomial"))
    if t == 7: return str(is_poly([p * c, c * p][r % 2], poly_mul(dp, {(): fc}), "polynomial times number"))
    if t == 8:
        if not c: return refuses(ArithmeticError, lambda: p / c, "polynomial over zero")
        return str(is_poly(p / c, poly_mul(dp, {(): 1 / fc}), "polynomial over number"))
    if t == 9:
        e = {(): F(1)}
        for _ in range(r % 4): e = poly_mul(e, dp)
        return str(is_poly(p ** (r % 4), e, "power"))
    if t == 10:
        if not r % 2: return str(is_poly(p + pm, poly_sum(dp, {m: F(1)}), "polynomial plus monomial"))
        return str(is_poly(pm * p, poly_mul(dp, {m: F(1)}), "monomial times polynomial"))
    if t == 11:
        x, d = copy.deepcopy(p), dict(dp)
        i = r % 6
        if i == 0: x += q; d = poly_sum(d, dq)
        elif i == 1: x -= q; d = poly_sum(d, dq, -1)
        elif i == 2: x *= q; d = poly_mul(d, dq)
        elif i == 3: x += c; d = poly_sum(d, {(): fc})
        elif i == 4: x *= c; d = poly_mul(d, {(): fc})
        else: x /= 4; d = poly_mul(d, {(): F(1, 4)})
        is_poly(p, dp, "the polynomial copied")
        return str(is_poly(x, d, "in place operation %d" % i))
    if t == 12:
        x, d = copy.deepcopy(p), dict(dp)
        x[pm] = c
        d[m] = fc
        if r % 2:
            x["y7"] = 3
            d[(("y7", 1),)] = F(3)
        return str(is_poly(x, d, "assigned coefficient"))
    if t == 13: return str(is_poly(pickle.loads(pickle.dumps(p)), dp, "pickled polynomial"))
    if t == 14:
        x = pickle.loads(pickle.dumps(pm))
        if x != pm or str(x) != str(pm) or hash(x) != hash(pm): raise Wrong("pickled monomial: %r instead of %r" % (x, pm))
        return str(x)
    if t == 15: return str(is_poly([pm + pn, pn + pm][r % 2], poly_sum({m: F(1)}, {n: F(1)}), "sum of monomials"))
    if t == 16: return str(is_poly(pm - pn, poly_sum({m: F(1)}, {n: F(1)}, -1), "difference of monomials"))
    if t == 17:
        x = pm * pn
        if x != mono(mono_mul(m, n)): raise Wrong("product of monomials %r and %r: %r" % (pm, pn, x))
        if any(x[i] != e for i, e in mono_mul(m, n)): raise Wrong("powers of %r" % x)
        return str(x)
    if t == 18:
        i = r % 4
        x = pm ** i
        if x != mono(tuple((j, e * i) for j, e in m) if i else ()): raise Wrong("%r to the power of %d: %r" % (pm, i, x))
        y = mono(m)
        y **= i
        if x != y: raise Wrong("%r to the power of %d in place: %r" % (pm, i, y))
        return str(x)
    if t == 19: return str(is_poly([pm + c, c + pm][r % 2], poly_sum({m: F(1)}, {(): fc}), "monomial plus number"))
    if t == 20: return str(is_poly([pm * c, c * pm][r % 2], {m: fc}, "monomial times number")) if c else ""
    if t == 21:
        x = mono(m)
        x /= 4
        return [str(is_poly(x, {m: F(1, 4)}, "monomial divided in place")), str(is_poly(pm / 4, {m: F(1, 4)}, "monomial over number"))]
    if t == 22: return [p == q, p == p, p != q, p != p, pm == pn, pm < pn, pm >= pn, hash(pm) == hash(mono(m))]
    if t == 23: return [str(is_poly(rp.PolynomialScalar(*x), y, "new polynomial")) for x, y in
                        [((), {}), ((c,), {(): fc}), ((pm,), {m: F(1)}), ((pm, c), {m: fc})]]
    big = [2 ** 70, F(2 ** 70, 3), float("inf"), float("nan"), "1", None, [1], 10 ** 30][r % 8]
    bad = (OverflowError, ValueError, TypeError, ArithmeticError, RuntimeError)

    def delete(x, i): del x[i]

    def assign(x, i, v): x[i] = v

    if t == 24:
        return [refuses(bad, f, "number %r, operation %d" % (big, i)) for i, f in enumerate([
            lambda: p + big, lambda: big + p, lambda: p * big, lambda: p / big, lambda: pm * big, lambda: pm + big, lambda: pm - big, lambda: big - pm,
            lambda: rp.PolynomialScalar(pm, big), lambda: rp.PolynomialScalar({pm: big}), lambda: assign(copy.deepcopy(p), pm, big),
            lambda: rp.PolynomialScalar(big)])][k % 12:k % 12 + 2]
    return [refuses(bad, f, "bad call %d" % i) for i, f in enumerate([
        lambda: delete(p, pm), lambda: delete(mono(m), "x1"), lambda: assign(p, 3, 1), lambda: p[3], lambda: pm[3], lambda: assign(mono(m), 3, 1),
        lambda: assign(mono(m), "x1", 2 ** 70), lambda: assign(mono(m), "x1", 2 ** 31), lambda: p ** (2 ** 70), lambda: p ** -1, lambda: pm ** -1,
        lambda: (pm * rp.Monomial("x1")) ** (2 ** 70), lambda: (rp.Monomial("x1", 2) ** (2 ** 31 - 1)), lambda: rp.Monomial("x1", 2 ** 70),
        lambda: rp.Monomial({1: 2}), lambda: rp.Monomial({"x1": 2 ** 70}), lambda: rp.Monomial(""), lambda: rp.Monomial("1"), lambda: pow(2, 3, p),
        lambda: 2 ** p, lambda: operator.floordiv(p, q), lambda: p < q, lambda: p.__setstate__(bytearray(b"\x01" + b"\xff" * 12)), lambda: p.__setstate__(3),
        lambda: rp.PolynomialScalar({3: 3}), lambda: rp.PolynomialScalar(3, 3), lambda: rp.PolynomialScalar(1, 2, 3)])][r % 27:r % 27 + 1]


def laid_out(r, n, m):
    """an n x m (or n, when m == 0) array of one of many memory layouts, and its plain copy"""
    big = np.array([dyadic(r) for _ in range(4 * max(n, 1) * max(m, 1))])
    dt = r.choice([np.float64, np.float64, np.float32, np.int64, np.int32])
    if dt in (np.int64, np.int32): big = np.rint(big * 4)
    big = big.astype(dt)
    k = r.randint(0, 7)
    if m == 0:
        x = [big[:n], big[:2 * n:2], big[:n][::-1], big[: 2 * n][::-2], np.broadcast_to(big[1], (n,)),
             big[: 3 * n].reshape(n, 3)[:, 1], big[: 2 * n].reshape(2, n)[1], big[1:n + 1]][k]
    else:
        x = [big[:n * m].reshape(n, m), big[:2 * n * m].reshape(2 * n, m)[::2], big[:2 * n * m].reshape(n, 2 * m)[:, ::2],
             np.asfortranarray(big[:n * m].reshape(n, m)), big[:n * m].reshape(n, m)[::-1], big[:n * m].reshape(n, m)[:, ::-1],
             np.broadcast_to(big[:m], (n, m)), big[:2 * n * m].reshape(n, 2 * m)[:, m // 2:m // 2 + m]][k]
    return x, np.ascontiguousarray(x).astype(np.float64), "%s layout %d" % (np.dtype(dt).name, k)


def row_form(rr, c):
    """one of the ways to write a row of increments"""
    S = rp.VectorType.SparseVector
    forms = [lambda q: [float(e) for e in q], lambda q: rp.Lie(q, ctx=c), lambda q: {j: float(e) for j, e in enumerate(q)},
             lambda q: {j: float(e) for j, e in reversed(list(enumerate(q))) if e != 0 or j == 0}, lambda q: [(j, float(e)) for j, e in reversed(list(enumerate(q)))],
             lambda q: [(j, float(e)) for j, e in enumerate(q) if e != 0] or [(0, 0.0)], lambda q: np.array(q), lambda q: rp.Lie(q, ctx=rp.get_context(c.width, c.depth, rp.Rational)),
             lambda q: rp.Lie(q, ctx=c, vector_type=S), lambda q: rp.Lie(q, ctx=rp.get_context(c.width, c.depth, rp.DPReal), vector_type=S)]
    form = rr.randint(0, len(forms))
    if form == len(forms): return form, lambda q: forms[rr.randint(0, len(forms) - 1)](q)
    return form, forms[form]


@op("alg")
def layouts(s, a, b, r, k, z):
    c = pick(W.ctxs, s)
    rr = random.Random(b * 1000 + z)
    t = a % 3
    if t == 2:
        cls = [rp.FreeTensor, rp.ShuffleTensor, rp.Lie][k % 3]
        n = rr.randint(1, c.lie_size(c.depth) if cls is rp.Lie else c.tensor_size(c.depth))
        x, y, w = laid_out(rr, n, 0)
        return agree(cls(x, ctx=c), cls([float(v) for v in y], ctx=c), "%s from %s %r" % (cls.__name__, w, x.tolist()))
    n = rr.randint(1, 5)
    x, y, w = laid_out(rr, n, c.width)
    idx = np.arange(n) / 8
    f = lambda d: rp.LieIncrementStream.from_increments(d, indices=idx, ctx=c, resolution=4)
    if t == 1 and z % 3 == 1:
        form, row = row_form(rr, c)
        return agree(f([row(q) for q in y]).log_signature(interval(0, r, k), 4), f(y).log_signature(interval(0, r, k), 4), "stream of rows in form %d of %r" % (form, y.tolist()))
    if t == 0:
        return agree(f(x).log_signature(interval(0, r, k), 4), f(y).log_signature(interval(0, r, k), 4), "stream of %s %r" % (w, x.tolist()))
    if t == 1 and z % 3 == 2:  # the times as a column of the data
        col = rr.randint(0, c.width - 1)
        y[:, col] = [rr.randint(1, 8) / 64 for _ in range(n)]
        d = y if k % 2 else [{j: float(e) for j, e in enumerate(q)} for q in y]
        g = rp.LieIncrementStream.from_increments(d, indices=col, ctx=c, resolution=6)
        h = rp.LieIncrementStream.from_increments(y, indices=np.cumsum(y[:, col]), ctx=c, resolution=6)
        return agree(g.log_signature(interval(0, r, k), 6), h.log_signature(interval(0, r, k), 6), "stream with times in column %d of %r" % (col, y.tolist()))
    i2 = np.zeros(3 * n)
    i2[::3] = idx
    g = rp.LieIncrementStream.from_increments(y, indices=i2[::3], ctx=c, resolution=4)
    return agree(g.log_signature(interval(0, r, k), 4), f(y).log_signature(interval(0, r, k), 4), "stream with strided indices")


@op("alg")
def exported(s, a, b, r, k, z):
    c = pick(W.ctxs, s)
    rr = random.Random(b * 1000 + z)
    cls = [rp.FreeTensor, rp.ShuffleTensor, rp.Lie][a % 3]
    dim = c.lie_size(c.depth) if cls is rp.Lie else c.tensor_size(c.depth)
    vt = [rp.VectorType.DenseVector, rp.VectorType.SparseVector][k % 2]
    n = rr.randint(1, dim)
    v = [dyadic(rr) for _ in range(n)]
    x = cls(np.array(v), ctx=c, vector_type=vt)
    basis = c.lie_basis if cls is rp.Lie else c.tensor_basis
    arr = np.array(x)
    for j in range(dim):
        e = v[j] if j < n else 0.0
        key = basis.index_to_key(j)
        g = x[key].to_float() if hasattr(x[key], "to_float") else float(x[key])
        if abs(g - e) > 1e-6: raise Wrong("%s %s %r element %s is %r" % (cls.__name__, vt, v, key, g))
        # sparse vectors become arrays of zeros, which a test of the repository demands (known-findings.txt)
        if k % 2 and r != 1000: continue
        h = 0.0 if j >= len(arr) else (arr[j].to_float() if hasattr(arr[j], "to_float") else float(arr[j]))
        if abs(h - e) > 1e-6: raise Wrong("%s %s %r as an array is %r" % (cls.__name__, vt, v, [str(q) for q in arr]))
    return x


@op("alg")
def path_signature(s, a, b, r, k, z):
    c = pick(W.ctxs, s)
    rr = random.Random(b * 1000 + z)
    n = rr.randint(1, 4)
    x = np.array([[dyadic(rr) for _ in range(c.width)] for _ in range(n)])
    t = a % 4
    f, row = row_form(rr, c)
    y = c.compute_signature([list(map(float, v)) for v in x] if t == 1 else [row(v) for v in x] if t == 2 else x)
    e = rp.FreeTensor(np.array([1.0]), ctx=c)
    for v in x: e = e * rp.FreeTensor(np.concatenate([[0.0], v]), ctx=c).exp()
    if c.depth >= 1: agree(y, e, "compute_signature(%r)" % x.tolist())
    return y


@op("stream")
def from_values(s, a, b, r, k, z):
    c = pick(W.ctxs, s)
    rr = random.Random(b * 1000 + z)
    n = rr.randint(1, 4)
    base = rr.choice([0, 2])
    ts = sorted(rr.sample(range(32), n))
    vals = [(base + t / 32, tensor_of(rr, c, rp.FreeTensor)) for t in ts]
    st = rp.TensorValuedStream.from_values(vals, ctx=c)
    return [st.domain(), st.initial_value(), st.terminal_value(), st.query(interval(base, r, k)).terminal_value()]


@op("alg")
def monomials(s, a, b, r, k, z):
    m = rp.Monomial("x%d" % (1 + b % 3), 1 + k % 3)
    n = rp.Monomial({"x1": 1, "x%d" % (2 + r % 2): 2})
    t = a % 6
    if t == 0:
        for _ in range(1 + z % 5): m *= n
        return str(m)
    if t == 1: return [str(m * n), str(n * m), m == n, m != n]
    if t == 2: return [m["x1"], n["x2"], n.degree()]
    if t == 3: return str(+m) if hasattr(m, "__pos__") else str(m)
    p = rp.PolynomialScalar({m: 2, n: b % 5})
    q = rp.PolynomialScalar({n: 1})
    if t == 4:
        p += q
        p -= rp.PolynomialScalar({m: 1})
        p *= q
        return str(p)
    return [p[m], p[n], str(-p), p == q, p != q]


@op("alg")
def contexts(s, a, b, r, k, z):
    c = pick(W.ctxs, s)
    t = a % 5
    if t == 0:
        d = rp.get_context(1 + b % 3, 1 + k % 3, [rp.DPReal, rp.Rational][z % 2])
        return [d.width, d.depth, d.lie_size(d.depth), d.tensor_size(d.depth), d == c, d != c, d == 5]
    if t == 1:
        with c as d: return [d is c or d == c, str(d)]
    if t == 2: return rp.Context()
    if t == 3: return c < c
    return [c.zero_lie(), c.lie_size(1), c.tensor_size(degree=1) if b % 2 else c.tensor_size(1)]
