// Executor for the data structures under the language: variable indexes, evidential bases, the name
// table, and the connector, copula and interval tables.
#include "zygote.h"
#include "Narsese/include/Narsese.h"
#include "Interpreter/include/Interpreter.hpp"
#include "Narsese/include/Evidence.h"
#include "utils/IndexVar.h"
#include <memory>

using zy::Cmd;
using zy::Json;
using INDEXVAR::IndexVar;
using INDEXVAR::pIndexVar;
using INDEXVAR::pInt;
using EVIDENCE::Base;
using EVIDENCE::pBase;

struct World
{
    std::map<std::string, pIndexVar> index;
    std::map<std::string, pInt> numbers;
    std::map<std::string, pBase> base;
    std::unique_ptr<INTERPRETER::Interpreter> table{new INTERPRETER::Interpreter()};
    std::map<std::string, TERM::pTerm *> objects;
    std::map<std::string, int> freed;
    std::map<std::string, std::unique_ptr<INTERVAL::Interval>> interval;
};

static size_t big(const std::string &s) { return strtoull(s.c_str(), nullptr, 10); }
static int num(const std::string &s) { return (int)strtol(s.c_str(), nullptr, 10); }

static std::vector<int> path(const std::string &s)
{
    std::vector<int> v;
    size_t i = 0;
    while (i < s.size())
    {
        if (s[i] == '/')
        {
            i++;
            continue;
        }
        size_t e = s.find('/', i);
        v.push_back(num(s.substr(i, e == std::string::npos ? e : e - i)));
        i = e == std::string::npos ? s.size() : e;
    }
    return v;
}

// lists: the stored numbers and positions; derived: the normalised numbers and the hash
static void dump_index(Json &j, IndexVar &iv, bool derived)
{
    j.open('[');
    j.open('[');
    for (auto &p : iv.indices)
    {
        if (p == nullptr)
            j.null();
        else
            j.num(*p);
    }
    j.close(']');
    j.open('[');
    for (auto &p : iv.positions)
    {
        j.open('[');
        for (int x : p)
            j.num(x);
        j.close(']');
    }
    j.close(']');
    if (derived)
    {
        j.open('[');
        for (int x : *iv.indices_normalized())
            j.num(x);
        j.close(']');
        j.unum(UTILS::hash(iv));
    }
    j.close(']');
}

static void dump_base(Json &j, Base &b)
{
    j.open('{');
    j.key("set").open('[');
    for (size_t x : *b._set)
        j.unum(x);
    j.close(']');
    j.key("size").unum(b.size());
    j.close('}');
}

static bool index_command(World &w, const Cmd &c, Json &j)
{
    auto &op = c[0];
    if (op == "inew") // inew name
    {
        w.index[c[1]] = IndexVar::create();
        j.null();
    }
    else if (op == "iconnect") // iconnect father son pos
    {
        if (c[3] == "d") // the default: the successor's own numbers are not placed
            IndexVar::connect(w.index.at(c[1]), w.index.at(c[2]));
        else
            IndexVar::connect(w.index.at(c[1]), w.index.at(c[2]), c[3] == "1");
        j.null();
    }
    else if (op == "iadd") // iadd index number path handle
    {
        auto p = w.index.at(c[1])->add(num(c[2]), path(c[3]));
        w.numbers[c[4]] = p;
        j.num(p == nullptr ? -1 : *p);
    }
    else if (op == "iremove") // iremove index path
    {
        w.index.at(c[1])->remove(path(c[2]));
        j.null();
    }
    else if (op == "iset") // iset handle number
    {
        *w.numbers.at(c[1]) = num(c[2]);
        j.null();
    }
    else if (op == "ibuild") // ibuild index again
    {
        if (c[2] == "2")
            w.index.at(c[1])->rebuild();
        else
            w.index.at(c[1])->build(c[2] == "1");
        j.null();
    }
    else if (op == "iclone") // iclone new old
    {
        w.index[c[1]] = IndexVar::clone(w.index.at(c[2]));
        j.null();
    }
    else if (op == "ilists")
        dump_index(j, *w.index.at(c[1]), false);
    else if (op == "iall")
        dump_index(j, *w.index.at(c[1]), true);
    else if (op == "inorm") // through normalize()
    {
        j.open('[');
        for (int x : *w.index.at(c[1])->normalize())
            j.num(x);
        j.close(']');
    }
    else if (op == "ieq")
        j.boolean(*w.index.at(c[1]) == w.index.at(c[2]).get());
    else if (op == "idrop")
    {
        w.index.erase(c[1]);
        j.null();
    }
    else
        return false;
    return true;
}

static bool evidence_command(World &w, const Cmd &c, Json &j)
{
    auto &op = c[0];
    if (op == "emax")
    {
        CONFIG::maximum_evidential_base_length = (unsigned int)big(c[1]);
        j.null();
    }
    else if (op == "edefault")
        j.unum(CONFIG::maximum_evidential_base_length);
    else if (op == "enew") // enew name how ids...
    {
        std::set<size_t> s;
        for (size_t i = 3; i < c.size(); i++)
            s.insert(big(c[i]));
        if (c[2] == "shared")
            w.base[c[1]] = pBase(new Base(std::shared_ptr<std::set<size_t>>(new std::set<size_t>(s))));
        else if (c[2] == "input")
            w.base[c[1]] = pBase(new Base());
        else
            w.base[c[1]] = pBase(new Base(s));
        dump_base(j, *w.base[c[1]]);
    }
    else if (op == "eextend")
    {
        w.base.at(c[1])->extend(*w.base.at(c[2]));
        dump_base(j, *w.base[c[1]]);
    }
    else if (op == "emerge") // emerge new a b
    {
        w.base[c[1]] = Base::interleave(*w.base.at(c[2]), *w.base.at(c[3]));
        dump_base(j, *w.base[c[1]]);
    }
    else if (op == "einto") // einto new a b: the form that fills an existing (empty) base
    {
        auto b = pBase(new Base(std::set<size_t>()));
        Base::interleave(*b, *w.base.at(c[2]), *w.base.at(c[3]));
        w.base[c[1]] = b;
        dump_base(j, *b);
    }
    else if (op == "eadd")
    {
        w.base.at(c[1])->add(big(c[2]));
        dump_base(j, *w.base[c[1]]);
    }
    else if (op == "ecopy") // ecopy new how a: another base with the same evidence
    {
        auto &a = *w.base.at(c[3]);
        if (c[2] == "assign")
        {
            auto b = pBase(new Base(std::set<size_t>()));
            *b = a;
            w.base[c[1]] = b;
        }
        else
            w.base[c[1]] = c[2] == "copy" ? pBase(new Base(a)) : pBase(new Base(a._set));
        dump_base(j, *w.base[c[1]]);
    }
    else if (op == "eover")
        j.boolean(w.base.at(c[1])->is_overlaped(*w.base.at(c[2])));
    else if (op == "ehash")
        j.unum(UTILS::hash(*w.base.at(c[1])));
    else if (op == "edump")
        dump_base(j, *w.base.at(c[1]));
    else
        return false;
    return true;
}

static TERM::pTerm *object(World &w, const std::string &tag)
{
    auto &p = w.objects[tag];
    if (p == nullptr)
    {
        p = new TERM::pTerm();
        auto *freed = &w.freed[tag];
        *freed = 0;
        static char nothing;
        ((std::shared_ptr<TERM::Term> &)*p) = std::shared_ptr<TERM::Term>(std::shared_ptr<char>(&nothing, [freed](char *) { ++*freed; }), (TERM::Term *)nullptr);
    }
    return p;
}

static bool table_command(World &w, const Cmd &c, Json &j)
{
    auto &op = c[0];
    auto &t = *w.table;
    if (op == "nput") // nput key name object
    {
        t.put(big(c[1]), c[2], object(w, c[3]));
        j.null();
    }
    else if (op == "nget")
        j.str(t.get(big(c[1])));
    else if (op == "nobject") // nobject key object: is it the one given?
        j.boolean(t.get_object(big(c[1])) == w.objects.at(c[2]));
    else if (op == "nbyname")
    {
        std::string n = c[1];
        j.unum(t.get_by_name(n));
    }
    else if (op == "ncheck")
        j.boolean(t.check(big(c[1])));
    else if (op == "ncheckname")
    {
        std::string n = c[1];
        j.boolean(t.check_by_name(n));
    }
    else if (op == "ncount")
        j.num(t.check_count(big(c[1])));
    else if (op == "nremove")
        j.boolean(t.remove(big(c[1])));
    else if (op == "nremovename")
        j.boolean(t.remove_by_name(c[1]));
    else if (op == "nerase")
        j.boolean(t.erase(big(c[1])));
    else if (op == "nreset")
    {
        t.reset();
        j.null();
    }
    else if (op == "nend") // the table itself is destroyed and a new one takes its place
    {
        w.table.reset(new INTERPRETER::Interpreter());
        j.null();
    }
    else if (op == "nfreed") // how often every object was released
    {
        j.open('{');
        for (auto &p : w.freed)
            j.key(p.first.c_str()).num(p.second);
        j.close('}');
    }
    else if (op == "nsizes")
    {
        j.open('[');
        j.unum(t.dictionary.size()).unum(t.dictionary_inv.size()).unum(t.objects.size()).unum(t.count.size());
        j.close(']');
    }
    else
        return false;
    return true;
}

static bool constant_command(World &w, const Cmd &c, Json &j)
{
    auto &op = c[0];
    if (op == "connector") // connector number counts...
    {
        auto x = (CONNECTOR::Connector)num(c[1]);
        j.open('{');
        j.key("repr").str(CONNECTOR::Repr[x]);
        j.key("com").boolean(CONNECTOR::is_commutative(x));
        j.key("tmp").boolean(CONNECTOR::is_temporal(x));
        j.key("red").boolean(CONNECTOR::is_reducible(x));
        j.key("one").boolean(CONNECTOR::is_single_only(x));
        j.key("two").boolean(CONNECTOR::is_double_only(x));
        j.key("many").boolean(CONNECTOR::is_multiple_only(x));
        j.key("valid").open('[');
        for (size_t i = 2; i < c.size(); i++)
            j.boolean(CONNECTOR::check_valid(x, (unsigned int)big(c[i])));
        j.close(']');
        j.close('}');
    }
    else if (op == "copula")
    {
        auto x = (COPULA::Copula)num(c[1]);
        j.open('{');
        j.key("repr").str(COPULA::Repr[x]);
        j.key("com").boolean(COPULA::is_commutative(x));
        j.key("high").boolean(COPULA::is_higher_order(x));
        j.key("tmp").boolean(COPULA::is_temporal(x));
        j.key("sym").num((int)COPULA::symmetrize(x));
        j.key("rev").num((int)COPULA::reverse(x));
        j.close('}');
    }
    else if (op == "constants")
    {
        j.open('[');
        for (int x : {(int)CONNECTOR::CONJUNCTION, (int)CONNECTOR::DISJUNCTION, (int)CONNECTOR::PRODUCT, (int)CONNECTOR::PARALLEL_EVENTS, (int)CONNECTOR::SEQUENTIAL_EVENTS, (int)CONNECTOR::INTENSIONAL_INTERSECTION, (int)CONNECTOR::EXTENSIONAL_INTERSECTION, (int)CONNECTOR::EXTENSIONAL_DIFFERENCE, (int)CONNECTOR::INTENSIONAL_DIFFERENCE, (int)CONNECTOR::NEGATION, (int)CONNECTOR::INTENSIONAL_SET, (int)CONNECTOR::EXTENSIONAL_SET, (int)CONNECTOR::INTENSIONAL_IMAGE, (int)CONNECTOR::EXTENSIONAL_IMAGE, (int)CONNECTOR::LIST})
            j.num(x);
        for (int x : {(int)COPULA::INHERITANCE, (int)COPULA::SIMILARITY, (int)COPULA::INSTANCE, (int)COPULA::PROPERTY, (int)COPULA::INSTANCEPROPERTY, (int)COPULA::IMPLICATION, (int)COPULA::PREDICTIVEIMPLICATION, (int)COPULA::CONCURRENTIMPLICATION, (int)COPULA::RETROSPECTIVEIMPLICATION, (int)COPULA::EQUIVALENCE, (int)COPULA::PREDICTIVEEQUIVALENCE, (int)COPULA::CONCURRENTEQUIVALENCE})
            j.num(x);
        j.close(']');
    }
    else if (op == "tnew")
    {
        w.interval[c[1]].reset(new INTERVAL::Interval(num(c[2])));
        j.null();
    }
    else if (op == "tadd") // tadd new a b
    {
        w.interval[c[1]].reset(new INTERVAL::Interval(*w.interval.at(c[2]) + *w.interval.at(c[3])));
        j.null();
    }
    else if (op == "tinc") // tinc a b: a += b
    {
        auto &a = *w.interval.at(c[1]);
        auto &r = (a += *w.interval.at(c[2]));
        j.boolean(&r == &a);
    }
    else if (op == "tchain") // tchain a b c: (a += b) += c
    {
        (*w.interval.at(c[1]) += *w.interval.at(c[2])) += *w.interval.at(c[3]);
        j.null();
    }
    else if (op == "tdump")
    {
        auto &a = *w.interval.at(c[1]);
        j.open('[');
        j.num(a.interval).num((signed int)a).unum(UTILS::hash((TERM::Term &)a)).str(w.table->interpret(a)).boolean(a.is_interval);
        j.close(']');
    }
    else if (op == "teq")
    {
        auto &a = (TERM::Term &)*w.interval.at(c[1]);
        auto &b = (TERM::Term &)*w.interval.at(c[2]);
        j.boolean(a == b);
    }
    else
        return false;
    return true;
}

std::string run_case(const std::vector<Cmd> &cmds)
{
    World w;
    Json j;
    for (auto &c : cmds)
    {
        if (!index_command(w, c, j) && !evidence_command(w, c, j) && !table_command(w, c, j) && !constant_command(w, c, j))
        {
            fprintf(stderr, "unknown command %s\n", c[0].c_str());
            _exit(96);
        }
        j.s += '\n';
        j.fresh = true;
    }
    return j.s;
}

void warm_up() {}
