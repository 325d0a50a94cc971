// Executor for the numeric functions: truth values, evidence, truth functions, projection.
#include "zygote.h"
#include "Narsese/include/Narsese.h"
#include "NAL/Functions/include/TruthFunctions.h"
#include "NAL/Functions/include/TemporalFunctions.h"
#include <utility>

using zy::Cmd;
using zy::Json;
using TRUTH::pTruth;
using TRUTH::Truth;
namespace U = UNCERTAINTY_MAPPING_FUNCTIONS;
namespace T = TRUTH_FUNCTIONS;
namespace B = BOOLEAN_FUNCTIONS;

static double real(const std::string &s) { return strtod(s.c_str(), nullptr); }
static void out(Json &j, const Truth &t) { j.real(t.f).real(t.c).real(t.k); }

template <size_t... I>
static double or_list(const std::vector<double> &v, std::index_sequence<I...>)
{
    return B::Or(std::initializer_list<double>{v[I]...});
}
template <size_t N>
static double or_n(const std::vector<double> &v)
{
    if constexpr (N > 32)
        return -1;
    else
        return v.size() == N ? or_list(v, std::make_index_sequence<N>()) : or_n<N + 1>(v);
}
template <size_t... N>
static double or_long(const std::vector<double> &v, std::index_sequence<N...>)
{
    double r = -1;
    ((v.size() == N ? (void)(r = or_list(v, std::make_index_sequence<N>())) : (void)0), ...);
    return r;
}

static void command(const Cmd &c, Json &j)
{
    auto &op = c[0];
    std::vector<double> a;
    for (size_t i = 1; i < c.size(); i++)
        a.push_back(real(c[i]));
    auto truth = [&](size_t i) { return Truth::create((float)a[i], (float)a[i + 1], (float)a[i + 2]); };
    j.open('[');
    if (op == "evidence") // f c k
    {
        auto t = truth(0);
        j.real(t->w()).real(t->w_p()).real(t->w_m()).real(t->e());
        j.real(U::fc_to_w(a[0], a[1], a[2])).real(U::fc_to_w_plus(a[0], a[1], a[2])).real(U::fc_to_w_minus(a[0], a[1], a[2]));
        float p, m;
        U::w_from_truth(*t, p, m);
        j.real(p).real(m);
        auto pm = U::w_from_truth(*t);
        j.real(std::get<0>(pm)).real(std::get<1>(pm));
        out(j, *t);
        // and back
        auto b = U::truth_from_w(p, U::fc_to_w(a[0], a[1], a[2]), a[2]);
        out(j, b);
        auto d = Truth::create((float)a[2]);
        d->set_w(t->w_p(), t->w());
        out(j, *d);
        // changing the object and deriving again
        t->set_w(t->w_p(), t->w());
        out(j, *t);
    }
    else if (op == "amounts") // w+ w k
    {
        j.real(U::w_to_f(a[0], a[1])).real(U::w_to_c(a[1], a[2]));
        out(j, U::truth_from_w(a[0], a[1], a[2]));
        out(j, U::truth_from_w(a[0], a[1]));
        auto d = Truth::create(0.25f, 0.75f, (float)a[2]);
        d->set_w(a[0], a[1]);
        out(j, *d);
        j.real(d->w()).real(d->w_p()).real(d->w_m());
    }
    else if (op == "revision") // t1 t2: both forms
    {
        auto x = truth(0), y = truth(3);
        T::truth_revision(x, y);
        out(j, *x);
        out(j, *y);
        auto u = truth(0), v = truth(3);
        T::truth_revision(*u, *v);
        out(j, *u);
        out(j, *v);
    }
    else if (op == "revisionself")
    {
        auto x = truth(0);
        T::truth_revision(x, x);
        out(j, *x);
    }
    else if (op == "sums")
    {
        auto r = T::revision(a[0], a[1], a[2], a[3]);
        j.real(r.first).real(r.second);
    }
    else if (op == "infer") // t1 t2 same: deduction, induction, comparison; then the arguments
    {
        auto x = truth(0), y = a[6] ? x : truth(3);
        auto d = T::truth_deduction(x, y);
        out(j, *d);
        out(j, *x);
        out(j, *y);
        auto i = T::truth_induction(x, y);
        out(j, *i);
        out(j, *x);
        out(j, *y);
        auto m = T::truth_comparison(x, y);
        out(j, *m);
        out(j, *x);
        out(j, *y);
        j.boolean(d != x && d != y && i != x && i != y && m != x && m != y && d != i && d != m && i != m);
    }
    else if (op == "project") // f c k source current target [decay]
    {
        auto x = truth(0);
        auto t = [&](int i) { return (int64_t)strtoll(c[i].c_str(), nullptr, 10); };
        auto r = c.size() > 7 ? TEMPORAL_FUNCTIONS::project(x, t(4), t(5), t(6), (size_t)strtoull(c[7].c_str(), nullptr, 10)) : TEMPORAL_FUNCTIONS::project(x, t(4), t(5), t(6));
        out(j, *r);
        out(j, *x);
        j.boolean(r != x);
    }
    else if (op == "and")
        j.real(a.size() == 2 ? B::And(a[0], a[1]) : a.size() == 3 ? B::And(a[0], a[1], a[2])
                                                                  : B::And(a[0], a[1], a[2], a[3]));
    else if (op == "or")
        j.real(a.size() == 2 ? B::Or(a[0], a[1]) : a.size() == 3 ? B::Or(a[0], a[1], a[2])
                                                                 : B::Or(a[0], a[1], a[2], a[3]));
    else if (op == "orlist")
        j.real(a.size() <= 32 ? or_n<0>(a) : or_long(a, std::index_sequence<33, 48, 49, 64, 65, 100, 101, 128, 129, 200, 201, 256, 257, 300, 301>()));
    else
    {
        fprintf(stderr, "unknown command %s\n", op.c_str());
        _exit(96);
    }
    j.close(']');
}

std::string run_case(const std::vector<Cmd> &cmds)
{
    Json j;
    for (auto &c : cmds)
    {
        command(c, j);
        j.s += '\n';
        j.fresh = true;
    }
    return j.s;
}

void warm_up() {}
