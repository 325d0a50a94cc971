// Stand-in for pybind11 used by the C++ executors only: it gives the binding functions of the
// repository (pybind_term & co.) something to compile against, so that instrumented builds are
// quick.  None of those functions is ever called by an executor; C28/C29 use the real module.
// When code under test needs more of pybind11 than this offers, the build falls back to the real one.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <complex>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <forward_list>
#include <functional>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <numeric>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <valarray>
#include <variant>
#include <vector>
#define PYBIND11_STUB 1
#define PYBIND11_EXPORT __attribute__((visibility("default")))
#define PYBIND11_NAMESPACE pybind11
struct _object;
typedef _object PyObject;
typedef std::ptrdiff_t Py_ssize_t;
static PyObject *const PyExc_RuntimeError = nullptr;
static PyObject *const PyExc_TypeError = nullptr;
static PyObject *const PyExc_ValueError = nullptr;
static PyObject *const PyExc_IndexError = nullptr;
static PyObject *const PyExc_KeyError = nullptr;
template <class... A> inline void PyErr_SetString(A &&...) {}
inline void PyErr_Clear() {}
namespace pybind11
{
    struct handle
    {
        template <class... A> handle(A &&...) {}
        handle() {}
        handle(const handle &) {}
        handle &operator=(const handle &) { return *this; }
        template <class T> T cast() const { std::abort(); }
        const handle *begin() const { return nullptr; }
        const handle *end() const { return nullptr; }
        std::size_t size() const { return 0; }
        handle operator[](std::size_t) const { return {}; }
        bool is_none() const { return true; }
        handle inc_ref() const { return *this; }
        handle dec_ref() const { return *this; }
        PyObject *ptr() const { return nullptr; }
        template <class... A> handle attr(A &&...) const { return {}; }
        template <class... A> handle operator()(A &&...) const { return {}; }
        explicit operator bool() const { return false; }
    };
#define STUB_TYPE(N)                                                         \
    struct N : handle                                                        \
    {                                                                        \
        N() {}                                                               \
        N(const N &) : handle() {}                                           \
        N &operator=(const N &) { return *this; }                            \
        template <class A, class... R> N(A &&, R &&...) {}                   \
        template <class... A> void append(A &&...) const {}                  \
    };
    STUB_TYPE(object)
    STUB_TYPE(none)
    STUB_TYPE(args)
    STUB_TYPE(kwargs)
    STUB_TYPE(str)
    STUB_TYPE(bytes)
    STUB_TYPE(int_)
    STUB_TYPE(float_)
    STUB_TYPE(bool_)
    STUB_TYPE(list)
    STUB_TYPE(tuple)
    STUB_TYPE(dict)
    STUB_TYPE(iterator)
    STUB_TYPE(iterable)
    STUB_TYPE(sequence)
    STUB_TYPE(capsule)
    STUB_TYPE(function)
#undef STUB_TYPE
    struct arg
    {
        template <class... A> arg(A &&...) {}
        template <class T> arg &operator=(T &&) { return *this; }
        arg &noconvert() { return *this; }
        arg &none(bool = true) { return *this; }
    };
    struct arg_v
    {
        template <class... A> arg_v(A &&...) {}
    };
    enum class return_value_policy
    {
        automatic,
        automatic_reference,
        take_ownership,
        copy,
        move,
        reference,
        reference_internal
    };
    template <int A, int B> struct keep_alive
    {
    };
    template <class... T> struct call_guard
    {
    };
    struct dynamic_attr
    {
    };
    struct arithmetic
    {
    };
    struct module_local
    {
        module_local(bool = true) {}
    };
    struct gil_scoped_release
    {
        gil_scoped_release() {}
    };
    struct gil_scoped_acquire
    {
        gil_scoped_acquire() {}
    };
#define STUB_EXC(N)                          \
    struct N : std::runtime_error            \
    {                                        \
        N(const std::string &s = "")         \
            : std::runtime_error(s) {}       \
    };
    STUB_EXC(error_already_set)
    STUB_EXC(value_error)
    STUB_EXC(type_error)
    STUB_EXC(index_error)
    STUB_EXC(key_error)
    STUB_EXC(stop_iteration)
    STUB_EXC(cast_error)
#undef STUB_EXC
    template <class... A> inline int init(A &&...) { return 0; }
    template <class T, class... A> inline T cast(A &&...) { std::abort(); }
    template <class A, class... R> inline object cast(A &&, R &&...) { return {}; }
    template <class... A> inline iterator iter(A &&...) { return {}; }
    template <class... A> inline iterator make_iterator(A &&...) { return {}; }
    template <class... A> inline tuple make_tuple(A &&...) { return {}; }
    template <class... A> inline str repr(A &&...) { return {}; }
    template <class T> inline bool isinstance(const handle &) { return false; }
    struct assign_any : handle
    {
        template <class T> assign_any &operator=(T &&) { return *this; }
    };
    struct module_ : handle
    {
        template <class... A> module_ &def(A &&...) { return *this; }
        template <class... A> assign_any attr(A &&...) { return {}; }
        assign_any doc() { return {}; }
        module_ def_submodule(...) { return {}; }
        template <class... A> void add_object(A &&...) {}
    };
    using module = module_;
    template <class... T> struct class_ : handle
    {
        template <class... A> class_(A &&...) {}
        template <class... A> class_ &def(A &&...) { return *this; }
        template <class... A> class_ &def_static(A &&...) { return *this; }
        template <class... A> class_ &def_property(A &&...) { return *this; }
        template <class... A> class_ &def_property_readonly(A &&...) { return *this; }
        template <class... A> class_ &def_property_readonly_static(A &&...) { return *this; }
        template <class... A> class_ &def_readonly(A &&...) { return *this; }
        template <class... A> class_ &def_readwrite(A &&...) { return *this; }
        template <class... A> class_ &def_readonly_static(A &&...) { return *this; }
        template <class... A> class_ &def_readwrite_static(A &&...) { return *this; }
    };
    template <class T> struct enum_ : class_<T>
    {
        template <class... A> enum_(A &&...) {}
        template <class... A> enum_ &value(A &&...) { return *this; }
        enum_ &export_values() { return *this; }
    };
    template <class T> struct exception : handle
    {
        template <class... A> exception(A &&...) {}
    };
    template <class T, class... A> inline void register_exception(A &&...) {}
}
