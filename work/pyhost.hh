// Hosts the Python package of the repository inside the simulated process: the interpreter
// runs on the simulated heap, its random module draws from the simulator, and the samplers
// handed to the package are decided by the simulator.
#ifndef VERIF_PYHOST_HH
#define VERIF_PYHOST_HH
#include "common.hh"
#include <pybind11/embed.h>
#include <pybind11/stl.h>
#include <cstdlib>
#include <dlfcn.h>
namespace py = pybind11;
namespace wl {

inline void startPython(std::initializer_list<const char*> modules)
{
    const char* dir = getenv("SIM_PYDIR");
    if (!dir) { fprintf(stderr, "SIM_PYDIR is not set\n"); exit(2); }
    PyConfig c; PyConfig_InitIsolatedConfig(&c);
    c.use_hash_seed = 1; c.hash_seed = 0; c.write_bytecode = 0; c.site_import = 0; c.buffered_stdio = 1; c.install_signal_handlers = 0; c.parse_argv = 0; c.use_environment = 0;
    PyConfig_SetBytesString(&c, &c.program_name, "/usr/bin/python3");
    PyStatus st = Py_InitializeFromConfig(&c);
    if (PyStatus_Exception(st)) { fprintf(stderr, "cannot start python: %s\n", st.err_msg ? st.err_msg : "?"); exit(2); }
    try {
        py::module_::import("sys").attr("path").attr("insert")(0, dir);
        py::module_::import("warnings").attr("simplefilter")("ignore");
        py::module_::import("random"); py::module_::import("copy"); py::module_::import("math");
        for (auto m : modules) py::module_::import(m);
    } catch (const std::exception& e) { fprintf(stderr, "cannot import the package: %s\n", e.what()); exit(2); }
}
inline py::module_ mod(const char* m) { return py::module_::import(m); }

// what the random module delivers: a seeded stream, or every value decided on the tape
inline void pythonEntropy()
{
    auto r = mod("random");
    if (sim::chance(65)) { r.attr("seed")((uint64_t)sim::choose(1ull << 32)); return; }
    // values on a grid, without repetitions among close draws (a real source does not repeat 53 bit)
    auto recent = std::make_shared<std::vector<uint64_t>>();
    py::object f = py::cpp_function([recent] {
        constexpr uint64_t N = 1u << 20; uint64_t v = 0;
        switch (sim::choose(16)) {
            case 1: v = 0; sim::fault("random-zero"); break;
            case 2: v = N - 1; sim::fault("random-almost-one"); break;
            default: v = sim::choose(N);
        }
        while (std::find(recent->begin(), recent->end(), v) != recent->end()) v = (v + N / 3 + 1) % N;
        recent->push_back(v); if (recent->size() > 80) recent->erase(recent->begin());
        return (double)v / (double)N;
    });
    r.attr("random") = f; r.attr("_inst").attr("random") = f;
}

struct Boom : std::runtime_error { Boom() : std::runtime_error("boom") {} };
// throws on the nth call from now on (0: never); shared by all samplers of one session
struct Bomb { long n = 0; bool fired = false; void tick() { if (n > 0 && --n == 0) { fired = true; throw Boom(); } } };
template<class R> struct PyDist {
    Dist<R> d; std::shared_ptr<Bomb> b = std::make_shared<Bomb>();
    py::object fn() const { auto self = *this; return py::cpp_function([self]() mutable { self.b->tick(); int dummy = 0; return self.d(dummy); }); }
    auto operator->() const { return d.st.get(); }
};
struct PyPoints {
    SimPoints p; std::shared_ptr<Bomb> b = std::make_shared<Bomb>();
    py::object fn() const { auto self = *this; return py::cpp_function([self]() mutable { self.b->tick(); return self.p(); }); }
};
// runs f; a python exception is described as "py: <Type>: <message>"
template<class F> bool pyThrows(F&& f, std::string& err)
{
    try { f(); return false; }
    catch (py::error_already_set& e) { err = "py: " + std::string(py::str(e.type().attr("__name__"))) + ": " + std::string(py::str(e.value())); return true; }
    catch (const std::exception& e) { err = std::string("std: ") + e.what(); return true; }
    catch (const Standard_Failure& e) { err = std::string("occ: ") + e.DynamicType()->Name(); return true; }
}
template<class F> void pyMust(const char* cls, const char* what, F&& f) { std::string err; if (pyThrows(f, err)) sim::violation(cls, "%s raised %s", what, err.c_str()); }
inline V3 pv(const py::object& p) { return { p.attr("x")().cast<double>(), p.attr("y")().cast<double>(), p.attr("z")().cast<double>() }; }
} // namespace wl
#endif
