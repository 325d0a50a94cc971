// Executor for the Python module (C28, C29): Python embedded in a sanitised process, with the module
// compiled in.  The module `vtcpp` lets the driver look at the same objects through the C++ interface.
#include <pybind11/pybind11.h>
#include <pybind11/embed.h>
#include <pybind11/stl.h>
#include "zygote.h"
#include "Interpreter/include/Interpreter.hpp"
#include "Narsese/Parser/NarseseParser.h"
#include "Narsese/include/Narsese.h"
#include "dump.h"

namespace py = pybind11;
using SENTENCE::pSentence;

extern "C" PyObject *PyInit_narsese();

// A C++ reading of the object, or nothing when it is of another type.
static std::string text_of(py::handle o)
{
    if (py::isinstance<pTask>(o))
        return interpreter.interpret(*py::cast<pTask &>(o));
    if (py::isinstance<pSentence>(o))
        return interpreter.interpret(*py::cast<pSentence &>(o));
    return interpreter.interpret(*py::cast<pTerm &>(o));
}

PYBIND11_EMBEDDED_MODULE(vtcpp, m)
{
    m.def("text", [](py::object o) { return py::bytes(text_of(o)); });
    m.def("dump", [](py::object o) {
        Json j;
        if (py::isinstance<pTask>(o))
            dump_task(j, py::cast<pTask &>(o), false);
        else
            dump_term(j, *py::cast<pTerm &>(o), true);
        return j.s;
    });
    // the sentence object as C++ sees it
    m.def("sentence", [](py::object o) {
        auto &s = py::cast<pSentence &>(o);
        Json j;
        j.open('{');
        j.key("term");
        dump_term(j, *s->term, false);
        j.key("punct").num((int)s->punct);
        j.key("truth");
        if (s->truth == nullptr)
            j.null();
        else
        {
            j.open('[');
            j.real(s->truth->f).real(s->truth->c).real(s->truth->k);
            j.close(']');
        }
        j.key("stamp").boolean(s->stamp != nullptr);
        j.close('}');
        return j.s;
    });
    m.def("equal", [](py::object a, py::object b) {
        auto &x = py::cast<pTerm &>(a);
        auto &y = py::cast<pTerm &>(b);
        return std::vector<bool>{*x == *y, *y == *x, UTILS::hash(*x) == UTILS::hash(*y)};
    });
    // the same line through the C++ parser: its task in words and structure
    m.def("parse", [](std::string line) -> py::object {
        pTask t;
        try
        {
            t = NARSESEPARSER::parser->parse_task(line);
        }
        catch (std::exception &)
        {
            return py::none();
        }
        if (t == nullptr)
            return py::none();
        Json j;
        j.open('[');
        dump_task(j, t, false);
        std::string whole = interpreter.interpret(*t), term = interpreter.interpret(*t->sentence->term), sentence = interpreter.interpret(*t->sentence);
        j.str(whole).str(term).str(sentence);
        j.close(']');
        return py::cast(j.s);
    });
}

static PyObject *g_run;

void warm_up()
{
    PyImport_AppendInittab("narsese", PyInit_narsese);
    PyPreConfig pre;
    PyPreConfig_InitIsolatedConfig(&pre);
    pre.allocator = PYMEM_ALLOCATOR_MALLOC;
    pre.utf8_mode = 1;
    Py_PreInitialize(&pre);
    PyConfig config;
    PyConfig_InitIsolatedConfig(&config);
    config.site_import = 0;
    config.write_bytecode = 0;
    PyStatus st = Py_InitializeFromConfig(&config);
    if (PyStatus_Exception(st))
    {
        fprintf(stderr, "python: %s\n", st.err_msg);
        _exit(98);
    }
    const char *driver = getenv("VT_PY_DRIVER");
    if (!driver)
        _exit(98);
    try
    {
        py::module_ runpy = py::module_::import("runpy");
        py::dict g = runpy.attr("run_path")(driver);
        g_run = py::object(g["run"]).release().ptr();
    }
    catch (std::exception &e)
    {
        fprintf(stderr, "driver: %s\n", e.what());
        _exit(98);
    }
}

std::string run_case(const std::vector<zy::Cmd> &cmds)
{
    std::string out;
    try
    {
        for (auto &c : cmds)
        {
            py::object r = py::reinterpret_borrow<py::object>(g_run)(py::bytes(c[1]));
            out += py::cast<std::string>(r) + "\n";
        }
    }
    catch (std::exception &e)
    {
        fprintf(stderr, "driver: %s\n", e.what());
        _exit(96);
    }
    return out;
}
