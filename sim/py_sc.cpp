// The Python extension module inside an embedded interpreter: threads of
// Python callers, callbacks, allocation faults, leaks. The interpreter itself,
// numpy and this file are not instrumented; RoughPy and its bindings are.
#include <fcntl.h>
#include <unistd.h>
#include <Python.h>
#include "case.h"
#include <string.h>
#include <string>
#include <vector>

#ifndef PY_OPS_DIR
#define PY_OPS_DIR "/verif/sim"
#endif
extern "C" PyObject* PyInit__roughpy(void);

static PyObject* g_ops; // the module py_ops

static int g_stderr = 2;
static void pydie(const char* what)
{
    dup2(g_stderr, 2);
    if (PyErr_Occurred()) PyErr_Print();
    fprintf(stderr, "pysim: %s\n", what);
    _Exit(96);
}

static PyObject* m_arm(PyObject*, PyObject* a)
{
    long n, l;
    if (!PyArg_ParseTuple(a, "ll", &n, &l)) return nullptr;
    sim_arm_alloc((uint64_t) n, (uint64_t) l);
    Py_RETURN_NONE;
}
// Only while RoughPy works without the interpreter's lock: pybind11's own
// bookkeeping, done under it, does not survive a failing allocation.
extern "C" int sim_alloc_may_fail(void) { return !PyGILState_Check(); }
static PyObject* m_disarm(PyObject*, PyObject*) { return PyLong_FromUnsignedLongLong(sim_disarm_alloc()); }
static PyObject* m_live(PyObject*, PyObject*) { return PyLong_FromUnsignedLongLong(sim_live_blocks() + sim_small_live()); }
static PyObject* m_mark(PyObject*, PyObject*) { return PyLong_FromUnsignedLongLong(sim_heap_mark()); }
static PyObject* m_between(PyObject*, PyObject* a)
{
    unsigned long long m, u;
    if (!PyArg_ParseTuple(a, "KK", &m, &u)) return nullptr;
    char buf[2000];
    unsigned long long n = sim_heap_live_between(m, u, buf, sizeof buf);
    return Py_BuildValue("Ks", n, buf);
}
static PyObject* m_probe(PyObject*, PyObject* a)
{
    int i;
    if (!PyArg_ParseTuple(a, "i", &i)) return nullptr;
    sim_probe(i);
    Py_RETURN_NONE;
}
static PyObject* m_fault(PyObject*, PyObject* a)
{
    int i;
    if (!PyArg_ParseTuple(a, "i", &i)) return nullptr;
    sim_fault(i);
    Py_RETURN_NONE;
}
static PyObject* m_yield(PyObject*, PyObject*)
{
    // a point at which the interpreter may hand over to another thread
    Py_BEGIN_ALLOW_THREADS
    sim_yield();
    Py_END_ALLOW_THREADS
    Py_RETURN_NONE;
}
static PyObject* m_self(PyObject*, PyObject*) { return PyLong_FromLong(sim_self()); }
static PyMethodDef g_methods[] = {{"arm", m_arm, METH_VARARGS, nullptr},
                                  {"disarm", m_disarm, METH_NOARGS, nullptr},
                                  {"live", m_live, METH_NOARGS, nullptr},
                                  {"mark", m_mark, METH_NOARGS, nullptr},
                                  {"between", m_between, METH_VARARGS, nullptr},
                                  {"probe", m_probe, METH_VARARGS, nullptr},
                                  {"fault", m_fault, METH_VARARGS, nullptr},
                                  {"yield_", m_yield, METH_NOARGS, nullptr},
                                  {"self_", m_self, METH_NOARGS, nullptr},
                                  {nullptr, nullptr, 0, nullptr}};
static PyModuleDef g_def = {PyModuleDef_HEAD_INIT, "_sim", nullptr, -1, g_methods};
static PyObject* init_sim(void)
{
    PyObject* m = PyModule_Create(&g_def);
    PyModule_AddIntConstant(m, "F_ALLOC", F_ALLOC);
    PyModule_AddIntConstant(m, "F_CALLBACK", F_CALLBACK);
    PyModule_AddIntConstant(m, "F_BAD_ARG", F_BAD_ARG);
    PyModule_AddIntConstant(m, "F_CORRUPT", F_CORRUPT);
    return m;
}

// The interpreter starts in the same way whatever the simulator's own standard streams, and whenever it is started.
extern bool g_zygote_clock;
struct NullStreams {
    int keep[3];
    NullStreams()
    {
        g_zygote_clock = true;
        int n = open("/dev/null", O_RDWR);
        for (int i = 0; i < 3; ++i) {
            keep[i] = dup(i);
            dup2(n, i);
        }
        if (n > 2) close(n);
        g_stderr = keep[2];
    }
    ~NullStreams()
    {
        for (int i = 0; i < 3; ++i)
            if (keep[i] >= 0) {
                dup2(keep[i], i);
                close(keep[i]);
            }
        g_zygote_clock = false;
        g_stderr = 2;
    }
};
extern "C" void sim_zygote_init(void)
{
    NullStreams ns;
    setenv("OPENBLAS_NUM_THREADS", "1", 1);
    PyImport_AppendInittab("roughpy._roughpy", PyInit__roughpy);
    PyImport_AppendInittab("_sim", init_sim);
    PyPreConfig pre;
    PyPreConfig_InitIsolatedConfig(&pre);
    pre.utf8_mode = 1;
    pre.allocator = PYMEM_ALLOCATOR_MALLOC;
    if (PyStatus_Exception(Py_PreInitialize(&pre))) pydie("preinitialise");
    PyConfig c;
    PyConfig_InitIsolatedConfig(&c);
    c.use_hash_seed = 1;
    c.hash_seed = 0;
    c.site_import = 0;
    c.write_bytecode = 0;
    c.install_signal_handlers = 0;
    c.module_search_paths_set = 1;
    const wchar_t* paths[] = {L"/usr/lib/python3.12", L"/usr/lib/python3.12/lib-dynload",
                              L"/opt/roughpy-venv/lib/python3.12/site-packages", L"/repo"};
    for (auto* p : paths) PyWideStringList_Append(&c.module_search_paths, p);
    PyConfig_SetString(&c, &c.executable, L"/opt/roughpy-venv/bin/python");
    PyStatus st = Py_InitializeFromConfig(&c);
    if (PyStatus_Exception(st)) {
        fprintf(stderr, "%s: %s\n", st.func, st.err_msg);
        pydie("initialise");
    }
    PyConfig_Clear(&c);
    PyRun_SimpleString("import sys; sys.dont_write_bytecode = True; sys.path.append('" PY_OPS_DIR "')");
    g_ops = PyImport_ImportModule("py_ops");
    if (!g_ops) pydie("import py_ops");
    PyEval_SaveThread();
}

static std::string take_str(PyObject* r)
{
    if (!r) {
        PyObject *t, *v, *tb;
        PyErr_Fetch(&t, &v, &tb);
        PyErr_NormalizeException(&t, &v, &tb);
        PyObject* s = v ? PyObject_Str(v) : nullptr;
        std::string m = s ? PyUnicode_AsUTF8(s) : "?";
        sim_error("py_ops raised %s: %s", t ? ((PyTypeObject*) t)->tp_name : "?", m.c_str());
    }
    Py_ssize_t n;
    const char* p = PyUnicode_AsUTF8AndSize(r, &n);
    std::string s(p, (size_t) n);
    Py_DECREF(r);
    return s;
}
static void begin_world(const Case& c)
{
    PyObject* d = PyDict_New();
    for (auto& kv : c.p) {
        PyObject* v = PyLong_FromLongLong(kv.second);
        PyDict_SetItemString(d, kv.first.c_str(), v);
        Py_DECREF(v);
    }
    PyObject* ops = PyList_New(0);
    for (auto& o : c.ops) {
        PyObject* t = Py_BuildValue("ii(LLLLLLLL)", o.tid, o.code, (long long) o.a[0], (long long) o.a[1],
                                    (long long) o.a[2], (long long) o.a[3], (long long) o.a[4],
                                    (long long) o.a[5], (long long) o.a[6], (long long) o.a[7]);
        PyList_Append(ops, t);
        Py_DECREF(t);
    }
    take_str(PyObject_CallMethod(g_ops, "begin", "OO", d, ops));
    Py_DECREF(d);
    Py_DECREF(ops);
}
static std::string run_op(int i)
{
    return take_str(PyObject_CallMethod(g_ops, "run", "i", i));
}
static void put(int i, const std::string& s)
{
    OutBuf o;
    o.u32((uint32_t) i);
    o.str(s);
    sim_out(o.b.data(), o.b.size());
}

// ---------------------------------------------------------------- pyq
struct PyTask {
    const Case* c;
    int id;
    const std::vector<std::string>* ref;
};
static void iso_op(void* p)
{
    int i = *(int*) p;
    put(i, run_op(i));
}
static void py_task(void* p)
{
    auto& t = *(PyTask*) p;
    for (int i = 0; i < (int) t.c->ops.size(); ++i) {
        if (t.c->ops[(size_t) i].tid != t.id) continue;
        PyGILState_STATE g = PyGILState_Ensure();
        std::string s = run_op(i);
        std::string r = take_str(PyObject_CallMethod(g_ops, "check", "iss", i, s.c_str(), (*t.ref)[(size_t) i].c_str()));
        if (!r.empty()) {
            size_t k = r.find('|');
            sim_violation(r.substr(0, k).c_str(), "op %d (task %d): %s", i, t.id, r.c_str() + k + 1);
        }
        ++(s.compare(0, 3, "err") == 0 ? sim_result()->ops_err : sim_result()->ops_ok);
        uint64_t h = 1469598103934665603ull;
        for (char ch : s) h = (h ^ (unsigned char) ch) * 1099511628211ull;
        sim_hash(h);
        PyGILState_Release(g);
    }
}
static void pyq_body(const RunCtx& rc)
{
    const Case& c = rc.c;
    int nt = (int) c.get("tasks", 1);
    PyGILState_STATE g = PyGILState_Ensure();
    sim_env_seed(c.seed); // Brownian streams draw the same seeds in both phases
    begin_world(c);
    if (rc.phase == 0) {
        for (int i = 0; i < (int) c.ops.size(); ++i) sim_isolated(iso_op, &i);
        return;
    }
    std::vector<std::string> ref(c.ops.size());
    InBuf in(rc.prev[0]->out, rc.prev[0]->outlen);
    while (!in.done()) {
        uint32_t i = in.u32();
        ref[i] = in.str();
    }
    std::vector<PyTask> ts((size_t) nt);
    for (int i = 0; i < nt; ++i) {
        ts[(size_t) i] = {&c, i + 1, &ref};
        sim_spawn(py_task, &ts[(size_t) i]);
    }
    PyThreadState* save = PyEval_SaveThread();
    sim_run(&c.sched);
    PyEval_RestoreThread(save);
    std::string s = take_str(PyObject_CallMethod(g_ops, "finish", nullptr));
    if (!s.empty()) {
        size_t k = s.find('|');
        sim_violation(s.substr(0, k).c_str(), "%s", s.c_str() + k + 1);
    }
    (void) g;
}
static int op_count(const char* table)
{
    PyGILState_STATE g = PyGILState_Ensure();
    PyObject* r = PyObject_GetAttrString(g_ops, table);
    int n = r ? (int) PyObject_Length(r) : 0;
    Py_XDECREF(r);
    PyGILState_Release(g);
    return n;
}
#include "py_names.h"
static void gen_common(Rng& r, Case& c, int ntasks, int nops)
{
    c.p["world"] = (int64_t) (r.next() >> 33);
    c.p["nobj"] = r.range(1, 4);
    c.p["tasks"] = ntasks;
    for (int i = 0; i < nops; ++i) {
        Op o;
        o.tid = 1 + (int) r.range(0, ntasks - 1);
        o.code = (int) r.range(0, PY_NOPS - 1);
        if (r.chance(1, 2)) o.code = (int) r.range(0, PY_NSTREAM - 1);
        for (int k = 0; k < 6; ++k) o.a[k] = r.range(0, 999);
        c.ops.push_back(o);
    }
}
static void pyq_gen(Rng& r, Case& c)
{
    gen_heap(r, c);
    int nt = r.chance(1, 5) ? 1 : (int) r.range(2, 4);
    gen_common(r, c, nt, (int) r.range(2, 10));
    gen_sched(r, c, nt == 1);
    if (c.faults)
        for (auto& o : c.ops)
            if (r.chance(1, 3)) {
                if (r.chance(1, 2)) {
                    o.a[6] = r.chance(2, 3) ? r.range(1, 40) : r.range(1, 400); // failing allocation
                    o.a[7] = r.chance(3, 4) ? 1 : 0;
                } else
                    o.a[6] = -r.range(1, 12); // callback raises on its nth call
            }
}
static int pyq_phases(const Case&) { return 2; }
static Scenario g_pyq = {"pyq", "Python threads asking shared objects questions", PY_NAMES, pyq_gen, pyq_phases, pyq_body, 1,
                         {"", "gil handover in callback", "callback error reached the caller", "allocation error reached the caller",
                          "answers equal"}, {"nobj"}};
static RegisterScenario rpyq(&g_pyq);

// ---------------------------------------------------------------- pyleak
static void pyleak_gen(Rng& r, Case& c)
{
    gen_heap(r, c);
    gen_common(r, c, 1, 1);
    gen_sched(r, c, true);
    for (auto& o : c.ops) {
        o.tid = 1;
        if (c.faults) {
            if (r.chance(1, 2)) {
                o.a[6] = r.chance(2, 3) ? r.range(1, 40) : r.range(1, 400);
                o.a[7] = r.chance(3, 4) ? 1 : 0;
            } else
                o.a[6] = -r.range(1, 12);
        }
    }
}
static void pyleak_body(const RunCtx& rc)
{
    PyGILState_Ensure();
    begin_world(rc.c);
    std::string s = take_str(PyObject_CallMethod(g_ops, "leak", "i", 0));
    if (!s.empty()) {
        size_t k = s.find('|');
        sim_violation(s.substr(0, k).c_str(), "%s", s.c_str() + k + 1);
    }
    ++sim_result()->ops_ok;
}
static int one_phase(const Case&) { return 1; }
static Scenario g_pyleak = {"pyleak", "one Python operation repeated: memory and reference counts stay put", PY_NAMES, pyleak_gen,
                            one_phase, pyleak_body, 0, {"", "repeated without growth", "repeated error without growth"}, {"nobj"}};
static RegisterScenario rpyleak(&g_pyleak);
