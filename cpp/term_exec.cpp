// Executor for parsing, printing and terms (C01-C06, C08-C17, C19, C20, C26, C29).
#include "zygote.h"
#include "Interpreter/include/Interpreter.hpp"
#include "Narsese/Parser/NarseseParser.h"
#include "Narsese/include/Narsese.h"
#include <sanitizer/allocator_interface.h>

using COMPOUND::Compound;
using INTERPRETER::interpreter;
using NARSESEPARSER::NarseseParser;
using STATEMENT::Statement;
using TASK::pTask;
using TASK::Task;
using TERM::pTerm;
using TERM::pTerms;
using TERM::Term;
using TERM::Terms;
#include "dump.h"
using zy::Cmd;
using zy::Json;

std::vector<size_t> newid_elsewhere(const std::string &how); // second translation unit

std::vector<size_t> newid_here(const std::string &how)
{
    SENTENCE::pStamp s;
    if (how == "id")
        return {GLOBAL::get_input_id()};
    if (how == "stamp")
        s = SENTENCE::pStamp(new SENTENCE::Stamp(true));
    else if (how == "event")
        s = SENTENCE::pStamp(new SENTENCE::Stamp((signed int)5));
    else
        s = SENTENCE::Stamp::create(true);
    if (s->evidential_base == nullptr || s->evidential_base->_set == nullptr)
        return {};
    return std::vector<size_t>(s->evidential_base->_set->begin(), s->evidential_base->_set->end());
}

// the counter behind the identifiers, where the repository has one
namespace vt_fallback
{
    inline unsigned long long _input_id = 0;
}
namespace GLOBAL
{
    namespace vt_probe
    {
        using namespace ::vt_fallback;
        inline auto &counter() { return _input_id; }
    }
}
static std::vector<size_t> g_ids;
static bool g_idless = false;

static long g_live = 0;
static long g_bytes = 0, g_bytes_max = 3000000000L;
static void on_malloc(const volatile void *p, size_t n)
{
    g_live++;
    g_bytes += n;
    if (g_bytes > g_bytes_max)
        abort(); // cumulative bytes are bounded far above anything a case needs
}
static void on_free(const volatile void *p)
{
    if (p)
        g_live--;
}

struct World
{
    std::map<std::string, pTask> tasks;
    std::map<std::string, pTerm> terms;
    std::map<std::string, pTerms> collections;
    std::map<std::string, std::shared_ptr<NarseseParser>> parsers;
    std::vector<std::shared_ptr<std::vector<char>>> noise;
    std::map<std::string, EVIDENCE::pBase> bases;
    std::map<std::string, SENTENCE::pStamp> stamps;
    std::map<std::string, SENTENCE::pSentence> sentences;
    int compounds = 0;
    int changed = 0; // lines that a parser has changed
    std::map<std::string, std::unique_ptr<INTERPRETER::Interpreter>> tables; // besides the global one
    INTERPRETER::Interpreter &table(const std::string &name)
    {
        if (name == "0")
            return interpreter;
        auto &t = tables[name];
        if (t == nullptr)
            t.reset(new INTERPRETER::Interpreter());
        return *t;
    }
    void clear()
    {
        sentences.clear();
        stamps.clear();
        bases.clear();
        tasks.clear();
        terms.clear();
        collections.clear();
        parsers.clear();
        noise.clear();
        tables.clear();
    }
};

// A compound made through one of the constructors, in turn.
static pTerm compound(CONNECTOR::Connector con, std::vector<pTerm> &v, bool input, int turn)
{
    std::list<pTerm> listed(v.begin(), v.end());
    switch (turn % 4)
    {
    case 1:
        return input ? pTerm(new Compound(con, listed, true)) : pTerm(Compound::create(con, listed));
    case 2:
    {
        pTerms ts = Terms::create(v, CONNECTOR::is_commutative(con));
        return input ? pTerm(new Compound(con, ts, true)) : pTerm(Compound::create(con, ts));
    }
    case 3:
        if (v.size() == 1)
            return turn % 8 == 3 ? pTerm(new Compound(con, v[0], input)) : con == CONNECTOR::EXTENSIONAL_SET ? pTerm(Compound::ExtensionalSet({v[0]}))
                                                                       : con == CONNECTOR::INTENSIONAL_SET   ? pTerm(Compound::IntensionalSet({v[0]}))
                                                                                                              : pTerm(new Compound(con, {v[0]}, input));
        if (v.size() == 2)
            return pTerm(new Compound(con, {v[0], v[1]}, input));
        if (v.size() == 3)
            return con == CONNECTOR::EXTENSIONAL_SET ? pTerm(Compound::ExtensionalSet({v[0], v[1], v[2]})) : pTerm(new Compound(con, {v[0], v[1], v[2]}, input));
    default:
        return input ? pTerm(new Compound(con, v, true)) : pTerm(Compound::create(con, v));
    }
}

static pTerm component(const pTerm &t, int i)
{
    if (t->type == TERM::TermType::STATEMENT)
        return i == 0 ? t->subject : t->predicate;
    int k = 0;
    for (auto it = t->terms->begin(); it != t->terms->end(); ++it, ++k)
        if (k == i)
            return *it;
    _exit(95);
}

// What is wrong with the ways to walk a collection: every one should visit the elements that counting from the start visits.
static std::string walks(Terms &ts)
{
    std::vector<Term *> plain;
    for (auto it = ts.begin(); it != ts.end(); ++it)
        plain.push_back((*it).get());
    int n = plain.size();
    std::vector<pTerm> listed = ts;
    if ((int)listed.size() != n)
        return "its list has another length";
    TERM::Iterator pos = ts.begin(), other = ts.end();
    for (int i = 0; i < n; i++)
    {
        auto ahead = ts.begin() + i, back = ts.end() - (n - i);
        if ((*ahead).get() != plain[i] || (*back).get() != plain[i] || listed[i].get() != plain[i])
            return "element " + std::to_string(i) + " is another one when counted from the start, from the end or in its list";
        if (!(ahead == back) || ahead != back || (*(ahead + 0)).get() != plain[i])
            return "two iterators at one element differ";
        TERM::Iterator copy = pos; // moving the copy leaves the original where it was
        ++copy;
        if ((*pos).get() != plain[i] || copy == pos || (copy == ts.end()) != (i + 1 == n))
            return "moving a copy moves the original";
        other = pos; // an assigned iterator is an independent one as well
        if ((*other).get() != plain[i] || !(other == pos))
            return "an assigned iterator is elsewhere";
        ++other;
        if ((*pos).get() != plain[i] || (other == ts.end()) != (i + 1 == n))
            return "moving an assigned iterator moves the original";
        pos = copy;
    }
    if (pos != ts.end())
        return "the end is not reached";
    if (n) // an iterator over one collection can be moved to another
    {
        Terms turned(listed, !ts._is_commutative);
        other = turned.begin();
        pos = other;
        if ((*pos).get() != (*turned.begin()).get())
            return "an iterator assigned from another kind of collection is elsewhere";
    }
    return "";
}

static void terms_out(Json &j, World &w, Terms &ts)
{
    // which named terms are in the collection, by iteration
    j.open('{');
    j.key("n").num(ts.size());
    j.key("walks").str(walks(ts));
    j.key("t").open('[');
    for (auto it = ts.begin(); it != ts.end(); ++it)
    {
        j.open('[');
        for (auto &p : w.terms)
            if (*p.second == **it)
                j.str(p.first);
        j.close(']');
    }
    j.close(']');
    j.close('}');
}

static void table_out(Json &j, INTERPRETER::Interpreter &table)
{
    j.open('{');
    j.key("names").open('[');
    for (auto &p : table.dictionary)
        j.str(p.second);
    j.close(']');
    j.key("inv").open('[');
    for (auto &p : table.dictionary_inv)
        j.str(p.first);
    j.close(']');
    j.key("objects").num(table.objects.size());
    j.key("count").num(table.count.size());
    j.close('}');
}

// Builds the form at `at` of the words `f` with atoms drawn by `draw`; key: the structure as text, "" when the term is not wanted.
template <class Draw>
static std::pair<pTerm, std::string> build_form(const std::vector<std::string> &f, size_t &at, Draw &draw)
{
    std::string word = f.at(at++);
    if (word == "_")
        return draw();
    auto p = word.find(':'), q = word.rfind(':');
    if (word[0] == 's')
    {
        auto name = word.substr(p + 1);
        auto a = build_form(f, at, draw), b = build_form(f, at, draw);
        if (a.second.empty() || b.second.empty())
            return {nullptr, ""};
        auto cop = (COPULA::Copula)cop_of(name);
        pTerm t = word[1] == 'i' ? pTerm(new Statement(a.first, cop, b.first, true)) : pTerm(Statement::create(a.first, cop, b.first));
        return {t, "<" + a.second + " " + name + " " + b.second + ">"};
    }
    auto name = word.substr(p + 1, q - p - 1);
    std::vector<pTerm> v;
    std::vector<std::string> keys;
    bool wanted = true;
    for (int i = atoi(word.c_str() + q + 1); i > 0; i--)
    {
        auto a = build_form(f, at, draw);
        v.push_back(a.first);
        keys.push_back(a.second);
        wanted = wanted && !a.second.empty();
    }
    if (name == "&&" || name == "||" || name == "&|" || name == "&" || name == "|" || name == "{" || name == "[")
    {
        std::sort(keys.begin(), keys.end());
        wanted = wanted && std::unique(keys.begin(), keys.end()) == keys.end();
    }
    if (!wanted)
        return {nullptr, ""};
    auto con = (CONNECTOR::Connector)conn_of(name);
    pTerm t = word[1] == 'i' ? pTerm(new Compound(con, v, true)) : pTerm(Compound::create(con, v));
    std::string key = "(" + name;
    for (auto &k : keys)
        key += " " + k;
    return {t, key + ")"};
}

// collide lo hi vars seed count forms...: many terms over intervals and variables; terms with equal hashes are compared
static void collide(const Cmd &c, Json &j)
{
    long lo = atol(c[1].c_str()), hi = atol(c[2].c_str()), vars = atol(c[3].c_str()), count = atol(c[5].c_str());
    unsigned long long state = strtoull(c[4].c_str(), nullptr, 10) * 2 + 1;
    auto rnd = [&](unsigned long n)
    {
        state = state * 6364136223846793005ull + 1442695040888963407ull;
        return (unsigned long)((state >> 33) % n);
    };
    std::map<std::string, pTerm> atoms;
    auto atom = [&](long i) -> std::pair<pTerm, std::string>
    {
        std::string key = i < 3 * vars ? std::string(VARIABLE::Repr[i % 3]) + std::to_string(i / 3) : "+" + std::to_string(lo + i - 3 * vars);
        auto &t = atoms[key];
        if (t == nullptr && i < 3 * vars)
        {
            t = pTerm(new VARIABLE::Variable((VARIABLE::VarPrefix)(i % 3), VARIABLE::Repr[i % 3] + "v"));
            index_of(*t, i % 3).add(i / 3, {});
        }
        else if (t == nullptr)
            t = pTerm(new INTERVAL::Interval((signed int)(lo + i - 3 * vars)));
        return {t, key};
    };
    auto draw = [&]
    { return vars && rnd(4) == 0 ? atom(rnd(3 * vars)) : atom(3 * vars + rnd(hi - lo)); };
    std::vector<std::pair<pTerm, std::string>> ts;
    std::vector<std::string> bad;
    std::map<std::string, size_t> hash_of;
    long collisions = 0;
    auto judge = [&](const std::pair<pTerm, std::string> &a, const std::pair<pTerm, std::string> &b)
    {
        bool same = a.second == b.second;
        std::string why;
        if ((*a.first == *b.first) != same || (*b.first == *a.first) != same)
            why = same ? "are not equal" : "are equal";
        else if ((*a.first < *b.first) && (*b.first < *a.first))
            why = "are each less than the other";
        else if (((*a.first < *b.first) || (*b.first < *a.first)) == same)
            why = same ? "are ordered" : "are unordered";
        if (!why.empty() && bad.size() < 4)
            bad.push_back(a.second + " and " + b.second + " " + why);
    };
    for (size_t i = 6; i < c.size(); i++)
    {
        std::vector<std::string> f;
        std::stringstream ss(c[i]);
        for (std::string x; ss >> x;)
            f.push_back(x);
        if (f.size() == 1)
            for (long k = 0; k < 3 * vars + hi - lo; k++)
                ts.push_back(atom(k));
        else
            for (long k = 0; k < count; k++)
            {
                size_t at = 0;
                auto t = build_form(f, at, draw);
                if (!t.second.empty())
                    ts.push_back(t);
            }
    }
    std::map<size_t, std::vector<size_t>> byhash;
    Terms all(true);
    for (size_t i = 0; i < ts.size(); i++)
    {
        auto h = UTILS::hash(*ts[i].first);
        if (!hash_of.insert({ts[i].second, h}).second && hash_of[ts[i].second] != h && bad.size() < 4)
            bad.push_back(ts[i].second + " has different hashes");
        auto &b = byhash[h];
        if (b.size() < 24)
            b.push_back(i);
        all.push_back(ts[i].first);
    }
    for (auto &p : byhash)
    {
        auto &b = p.second;
        for (size_t x = 0; x < b.size(); x++)
            for (size_t y = 0; y < b.size(); y++)
            {
                judge(ts[b[x]], ts[b[y]]);
                collisions += x < y && ts[b[x]].second != ts[b[y]].second;
            }
        // a strict weak order: ranks decide it
        std::vector<int> rank(b.size());
        for (size_t x = 0; x < b.size(); x++)
            for (size_t y = 0; y < b.size(); y++)
                rank[x] += *ts[b[y]].first < *ts[b[x]].first;
        for (size_t x = 0; x < b.size(); x++)
            for (size_t y = 0; y < b.size(); y++)
                if ((*ts[b[x]].first < *ts[b[y]].first) != (rank[x] < rank[y]) && bad.size() < 4)
                    bad.push_back(ts[b[x]].second + " and " + ts[b[y]].second + " are not placed by a transitive order");
    }
    for (long v = 0; v < 3 * vars; v++)
        for (auto &t : ts)
            judge(atom(v), t);
    for (int k = 0; k < 2000 && !ts.empty(); k++)
        judge(ts[rnd(ts.size())], ts[rnd(ts.size())]);
    j.open('{');
    j.key("terms").num(ts.size());
    j.key("distinct").num(hash_of.size());
    j.key("collisions").num(collisions);
    j.key("held").num(all.size());
    j.key("bad").open('[');
    for (auto &b : bad)
        j.str(b);
    j.close(']');
    j.close('}');
}

// Sentences, stamps and tasks made by a program rather than read from a line.
static bool object_command(World &w, const Cmd &c, Json &j)
{
    using namespace SENTENCE;
    auto &op = c[0];
    auto number = [](const std::string &s) { return (signed int)strtol(s.c_str(), nullptr, 10); };
    if (op == "mkbase") // mkbase slot identifiers...
    {
        std::set<size_t> ids;
        for (size_t i = 2; i < c.size(); i++)
            ids.insert(strtoull(c[i].c_str(), nullptr, 10));
        w.bases[c[1]] = EVIDENCE::pBase(new EVIDENCE::Base(ids));
        j.null();
    }
    else if (op == "base")
    {
        j.open('[');
        for (auto x : *w.bases.at(c[1])->_set)
            j.unum(x);
        j.close(']');
    }
    else if (op == "mkstamp") // mkstamp slot create? how ...
    {
        bool create = c[2] == "1";
        auto &how = c[3];
        pStamp s;
        if (how == "plain")
            s = create ? Stamp::create() : pStamp(new Stamp());
        else if (how == "eternal")
            s = create ? Stamp::create(c[4] == "1") : pStamp(new Stamp(c[4] == "1"));
        else if (how == "at")
            s = create ? Stamp::create(number(c[4])) : pStamp(new Stamp(number(c[4])));
        else
        {
            EVIDENCE::pBase b = c[7] == "-" ? nullptr : w.bases.at(c[7]);
            if (c.size() > 8)
                s = create ? Stamp::create(number(c[4]), number(c[5]), number(c[6]), b, c[8] == "1") : pStamp(new Stamp(number(c[4]), number(c[5]), number(c[6]), b, c[8] == "1"));
            else
                s = create ? Stamp::create(number(c[4]), number(c[5]), number(c[6]), b) : pStamp(new Stamp(number(c[4]), number(c[5]), number(c[6]), b));
        }
        w.stamps[c[1]] = s;
        dump_stamp(j, *s);
    }
    else if (op == "stamp")
        dump_stamp(j, *w.stamps.at(c[1]));
    else if (op == "eternalize")
    {
        w.stamps.at(c[1])->eternalize();
        dump_stamp(j, *w.stamps.at(c[1]));
    }
    else if (op == "extendstamp") // extendstamp slot (b base | s stamp)
    {
        w.stamps.at(c[1])->extend_evidenital_base(c[2] == "b" ? *w.bases.at(c[3]) : *w.stamps.at(c[3])->evidential_base);
        dump_stamp(j, *w.stamps.at(c[1]));
    }
    else if (op == "maxlength")
    {
        CONFIG::maximum_evidential_base_length = (unsigned int)strtoul(c[1].c_str(), nullptr, 10);
        j.null();
    }
    else if (op == "mktask") // mktask slot how punctuation term stamp|- budget parts (0-3) numbers... truth parts (0-3) numbers...
    {
        std::vector<float> b, t;
        size_t at = 6;
        for (int n = number(c[at++]); n > 0; n--)
            b.push_back(strtof(c[at++].c_str(), nullptr));
        for (int n = number(c[at++]); n > 0; n--)
            t.push_back(strtof(c[at++].c_str(), nullptr));
        bool create = c[2] == "create";
        TRUTH::pTruth truth;
        if (t.size() == 1) // the constant alone
            truth = create ? TRUTH::Truth::create(t[0]) : TRUTH::pTruth(new TRUTH::Truth(t[0]));
        else if (t.size() == 2)
            truth = create ? TRUTH::Truth::create(t[0], t[1]) : TRUTH::pTruth(new TRUTH::Truth(t[0], t[1]));
        else if (t.size() == 3)
            truth = create ? TRUTH::Truth::create(t[0], t[1], t[2]) : TRUTH::pTruth(new TRUTH::Truth(t[0], t[1], t[2]));
        pStamp stamp = c[5] == "-" ? nullptr : w.stamps.at(c[5]);
        pTerm term = w.terms.at(c[4]);
        int p = number(c[3]); // . ? ! @
        pSentence s;
        bool desire = true;
        if (c[2] == "class")
        {
            if (p == 0)
                s = stamp ? pSentence(new Judgement(term, truth, stamp)) : truth ? pSentence(new Judgement(term, truth)) : pSentence(new Judgement(term));
            else if (p == 1)
                s = stamp ? pSentence(new Question(term, stamp)) : pSentence(new Question(term));
            else if (p == 2)
            {
                auto g = stamp ? new Goal(term, truth, stamp) : new Goal(term, truth);
                s = pSentence(g);
                desire = g->desire != nullptr && g->desire.get() == g->truth.get();
            }
            else
                s = stamp ? pSentence(new Quest(term, stamp)) : pSentence(new Quest(term));
        }
        else if (create)
            s = Sentence::create(term, (PUNCTUATION::Punctuation)p, truth, stamp);
        else
            s = stamp ? pSentence(new Sentence(term, (PUNCTUATION::Punctuation)p, truth, stamp)) : truth ? pSentence(new Sentence(term, (PUNCTUATION::Punctuation)p, truth)) : pSentence(new Sentence(term, (PUNCTUATION::Punctuation)p));
        using BUDGET::Budget;
        BUDGET::pBudget budget;
        if (b.empty())
            budget = create ? Budget::create() : BUDGET::pBudget(new Budget());
        else if (b.size() == 1)
            budget = create ? Budget::create(b[0]) : BUDGET::pBudget(new Budget(b[0]));
        else if (b.size() == 2)
            budget = create ? Budget::create(b[0], b[1]) : BUDGET::pBudget(new Budget(b[0], b[1]));
        else
            budget = create ? Budget::create(b[0], b[1], b[2]) : BUDGET::pBudget(new Budget(b[0], b[1], b[2]));
        w.tasks[c[1]] = pTask(new TASK::Task(budget, s));
        auto &task = w.tasks[c[1]];
        j.open('{');
        j.key("task");
        dump_task(j, task, false);
        j.key("desire").boolean(desire);
        j.key("term").boolean(&task->term() == term.get() && task.term().get() == term.get() && task.sentence().get() == s.get() && s->term.get() == term.get());
        j.key("stamp").boolean(stamp == nullptr || s->stamp.get() == stamp.get());
        j.key("general").open('[');
        j.real(Budget::_priority_default).real(Budget::_durability_default).real(Budget::_quality_default);
        j.close(']');
        j.close('}');
    }
    else if (op == "anonop") // an operation without name
    {
        w.terms[c[1]] = pTerm(new OPERATION::Operation(c[2] == "1"));
        j.null();
    }
    else
        return false;
    return true;
}

static void command(World &w, const Cmd &c, Json &j)
{
    auto &op = c[0];
    if (object_command(w, c, j))
        return;
    if (op == "parse" || op == "parsex") // parser slot line
    {
        NarseseParser *p;
        if (c[1] == "0")
            p = NARSESEPARSER::parser.get();
        else
        {
            auto &sp = w.parsers[c[1]];
            if (!sp)
                sp = std::shared_ptr<NarseseParser>(new NarseseParser);
            p = sp.get();
        }
        pTask t;
        std::string line = c.size() > 3 ? c[3] : "";
        const std::string given = line;
        try
        {
            if (line.size() % 2 && line.find('\0') == std::string::npos)
                t = p->parse_task(line.c_str());
            else
                t = p->parse_task(line);
            if (line != given)
                w.changed++;
        }
        catch (std::exception &e)
        {
            j.open('{').key("exc").str(e.what());
            j.close('}');
            return;
        }
        catch (...)
        {
            j.open('{').key("exc").str("?");
            j.close('}');
            return;
        }
        w.tasks[c[2]] = t;
        if (t == nullptr)
            j.null();
        else
            dump_task(j, t, op == "parsex");
    }
    else if (op == "dump" || op == "dumpx")
        dump_task(j, w.tasks.at(c[1]), op == "dumpx");
    else if (op == "survive") // survive parser line...: parses and prints; reports only what it ended in
    {
        g_bytes_max = 60000000000L;
        auto &sp = w.parsers[c[1]];
        if (!sp)
            sp = std::shared_ptr<NarseseParser>(new NarseseParser);
        j.open('[');
        for (size_t i = 2; i < c.size(); i++)
        {
            std::string line = c[i];
            pTask t;
            try
            {
                t = sp->parse_task(line);
            }
            catch (std::exception &e)
            {
                j.str("exception");
                continue;
            }
            if (t == nullptr)
            {
                j.str("null");
                continue;
            }
            try
            {
                auto plain = interpreter.interpret(*t, false), coloured = interpreter.interpret(*t, true);
                w.tasks[c[1] + "/" + std::to_string(i)] = t;
                pTask again = sp->parse_task(plain);
                j.str(again == nullptr ? "task" : "task task");
            }
            catch (std::exception &e)
            {
                j.str("task exception");
            }
        }
        j.close(']');
    }
    else if (op == "print" || op == "color")
        j.str(interpreter.interpret(*w.tasks.at(c[1]), op == "color"));
    else if (op == "reparse") // reparse src dst: parses what is printed for src
    {
        pTask t;
        auto text = interpreter.interpret(*w.tasks.at(c[1]));
        j.open('{').key("text").str(text);
        j.key("task");
        try
        {
            t = NARSESEPARSER::parser->parse_task(text);
            w.tasks[c[2]] = t;
            if (t == nullptr)
                j.null();
            else
            {
                dump_task(j, t, false);
                auto &x = *w.tasks.at(c[1])->sentence->term, &y = *t->sentence->term;
                j.key("eq").boolean(x == y && y == x && UTILS::hash(x) == UTILS::hash(y));
                j.key("again").str(interpreter.interpret(*t));
            }
        }
        catch (std::exception &e)
        {
            j.open('{').key("exc").str(e.what());
            j.close('}');
        }
        j.close('}');
    }
    else if (op == "sprint" || op == "scolor")
        j.str(interpreter.interpret(*w.tasks.at(c[1])->sentence, op == "scolor"));
    else if (op == "repr")
        j.str(w.tasks.at(c[1]).__repr__(nullptr));
    else if (op == "drop")
    {
        w.tasks.erase(c[1]);
        j.null();
    }
    else if (op == "dropparser")
    {
        w.parsers.erase(c[1]);
        j.null();
    }
    else if (op == "copytask") // copytask src dst: assignment over whatever is there
    {
        w.tasks[c[2]] = w.tasks.at(c[1]);
        j.null();
    }
    else if (op == "term") // task slot
    {
        w.terms[c[2]] = w.tasks.at(c[1]).term();
        j.null();
    }
    else if (op == "copyterm")
    {
        w.terms[c[2]] = w.terms.at(c[1]);
        j.null();
    }
    else if (op == "swapterm")
    {
        std::swap(w.terms.at(c[1]), w.terms.at(c[2]));
        j.null();
    }
    else if (op == "vecterm") // push copies through a growing and shrinking vector
    {
        std::vector<pTerm> v;
        for (size_t i = 1; i < c.size(); i++)
            v.push_back(w.terms.at(c[i]));
        std::rotate(v.begin(), v.begin() + v.size() / 2, v.end());
        if (v.size() > 1)
            v.erase(v.begin());
        j.num(v.size());
    }
    else if (op == "tdump" || op == "tdumpx")
        dump_term(j, *w.terms.at(c[1]), op == "tdumpx");
    else if (op == "attrs") // complexity and flags of the term itself
    {
        Term &t = *w.terms.at(c[1]);
        j.open('{');
        j.key("cx").num(t.complexity);
        j.key("f").str(flags_of(t));
        j.key("com").boolean(t.is_compound() ? (bool)((Compound &)t).is_commutative : t.is_statement() ? (bool)((Statement &)t).is_commutative : false);
        j.close('}');
    }
    else if (op == "tprint" || op == "tcolor")
        j.str(interpreter.interpret(*w.terms.at(c[1]), op == "tcolor"));
    else if (op == "trepr")
        j.str(w.terms.at(c[1]).__repr__(&interpreter));
    else if (op == "tdrop")
    {
        w.terms.erase(c[1]);
        j.null();
    }
    else if (op == "same")
        j.boolean(w.terms.at(c[1]).get() == w.terms.at(c[2]).get());
    else if (op == "comp") // comp term i slot
    {
        w.terms[c[3]] = component(w.terms.at(c[1]), atoi(c[2].c_str()));
        j.null();
    }
    else if (op == "atom")
    {
        w.terms[c[1]] = Term::create(c.size() > 2 ? c[2].c_str() : "");
        j.null();
    }
    else if (op == "atomin") // atomin slot table name
    {
        w.terms[c[1]] = Term::create(c.size() > 3 ? c[3].c_str() : "", &w.table(c[2]));
        j.null();
    }
    else if (op == "printin") // printin table slot
        j.str(w.table(c[1]).interpret(*w.terms.at(c[2])));
    else if (op == "reprin") // reprin table|- slot
        j.str(w.terms.at(c[2]).__repr__(c[1] == "-" ? nullptr : &w.table(c[1])));
    else if (op == "resetin")
    {
        w.table(c[1]).reset();
        j.null();
    }
    else if (op == "endin") // only when no term of the table is alive
    {
        w.tables.erase(c[1]);
        j.null();
    }
    else if (op == "tablein")
        table_out(j, w.table(c[1]));
    else if (op == "changed")
        j.num(w.changed);
    else if (op == "anon")
    {
        w.terms[c[1]] = Term::create();
        j.null();
    }
    else if (op == "interval")
    {
        w.terms[c[1]] = pTerm(new INTERVAL::Interval(atoi(c[2].c_str())));
        j.null();
    }
    else if (op == "var") // var slot kind index
    {
        int k = atoi(c[2].c_str());
        auto v = pTerm(new VARIABLE::Variable((VARIABLE::VarPrefix)k, VARIABLE::Repr[k] + "v"));
        index_of(*v, k).add(atoi(c[3].c_str()), {});
        w.terms[c[1]] = v;
        j.null();
    }
    else if (op == "stm") // stm slot copula s p
    {
        w.terms[c[1]] = Statement::create(w.terms.at(c[3]), (COPULA::Copula)cop_of(c[2]), w.terms.at(c[4]));
        j.null();
    }
    else if (op == "stmin")
    {
        w.terms[c[1]] = pTerm(new Statement(w.terms.at(c[3]), (COPULA::Copula)cop_of(c[2]), w.terms.at(c[4]), true));
        j.null();
    }
    else if (op == "cmp" || op == "cmpin") // cmp slot connector terms...
    {
        std::vector<pTerm> v;
        for (size_t i = 3; i < c.size(); i++)
            v.push_back(w.terms.at(c[i]));
        w.terms[c[1]] = compound((CONNECTOR::Connector)conn_of(c[2]), v, op == "cmpin", w.compounds++);
        j.null();
    }
    else if (op == "clone")
    {
        w.terms[c[2]] = Term::clone(w.terms.at(c[1]));
        j.null();
    }
    else if (op == "deep") // deep copy through the copying constructors
    {
        auto &t = w.terms.at(c[1]);
        if (t->is_statement())
            w.terms[c[2]] = pTerm(new Statement((Statement &)*t, true));
        else if (t->is_compound())
            w.terms[c[2]] = pTerm(new Compound((Compound &)*t, true));
        else
            w.terms[c[2]] = Term::clone(t);
        j.null();
    }
    else if (op == "setvar") // setvar term kind occurrence value
    {
        *index_of(*w.terms.at(c[1]), atoi(c[2].c_str())).indices.at(atoi(c[3].c_str())) = atoi(c[4].c_str());
        j.null();
    }
    else if (op == "cmpall")
    {
        std::vector<pTerm *> v;
        for (size_t i = 1; i < c.size(); i++)
            v.push_back(&w.terms.at(c[i]));
        j.open('{');
        std::string e, l;
        for (auto a : v)
            for (auto b : v)
            {
                e += (**a == **b) ? '1' : '0';
                l += (**a < **b) ? '1' : '0';
            }
        j.key("eq").str(e);
        j.key("lt").str(l);
        j.key("h").open('[');
        for (auto a : v)
            j.unum(UTILS::hash(**a));
        j.close(']');
        j.close('}');
    }
    else if (op == "collide")
        collide(c, j);
    else if (op == "eqtask") // term equality of two tasks
        j.boolean(*w.tasks.at(c[1])->sentence->term == *w.tasks.at(c[2])->sentence->term && *w.tasks.at(c[2])->sentence->term == *w.tasks.at(c[1])->sentence->term && UTILS::hash(*w.tasks.at(c[1])->sentence->term) == UTILS::hash(*w.tasks.at(c[2])->sentence->term));
    else if (op == "coll") // coll slot commutative how terms...
    {
        bool com = c[2] == "1";
        std::vector<pTerm> v;
        for (size_t i = 4; i < c.size(); i++)
            v.push_back(w.terms.at(c[i]));
        pTerms ts;
        if (c[3] == "push")
        {
            ts = Terms::create(com);
            for (auto &t : v)
                ts->push_back(t);
        }
        else if (c[3] == "vector")
            ts = Terms::create(v, com);
        else if (c[3] == "list")
            ts = Terms::create(std::list<pTerm>(v.begin(), v.end()), com);
        else if (c[3] == "set")
            ts = Terms::create(std::set<pTerm, Terms::compare>(v.begin(), v.end()), com);
        else if (c[3] == "braces")
        {
            std::vector<pTerm> a = v;
            a.resize(3, v.empty() ? pTerm() : v[0]);
            ts = v.empty() ? Terms::create(std::initializer_list<pTerm>{}, com) : com || v.size() >= 3 ? Terms::create(std::initializer_list<pTerm>{a[0], a[1], a[2]}, com) : v.size() == 2 ? Terms::create(std::initializer_list<pTerm>{a[0], a[1]}, com) : Terms::create(std::initializer_list<pTerm>{a[0]}, com);
            for (size_t i = 3; i < v.size(); i++)
                ts->push_back(v[i]);
        }
        else
        {
            Terms inner(v, com);
            ts = pTerms(new Terms(inner, com));
        }
        w.collections[c[1]] = ts;
        terms_out(j, w, *ts);
    }
    else if (op == "setop") // setop slot which colls...
    {
        std::vector<pTerms> v;
        for (size_t i = 3; i < c.size(); i++)
            v.push_back(w.collections.at(c[i]));
        pTerms r = c[2] == "and" ? Terms::intersection(v) : c[2] == "or" ? Terms::union_(v)
                                                                        : Terms::difference(v);
        w.collections[c[1]] = r;
        terms_out(j, w, *r);
    }
    else if (op == "collout")
        terms_out(j, w, *w.collections.at(c[1]));
    else if (op == "table")
        table_out(j, interpreter);
    else if (op == "time")
    {
        GLOBAL::time = strtoul(c[1].c_str(), nullptr, 10);
        j.null();
    }
    else if (op == "config")
    {
        float v = atof(c[2].c_str());
        std::map<std::string, float *> m = {{"f", &CONFIG::f}, {"c", &CONFIG::c}, {"k", &CONFIG::k}, {"c_judgement", &CONFIG::c_judgement}, {"c_goal", &CONFIG::c_goal}, {"priority", &CONFIG::priority}, {"durability", &CONFIG::durability}, {"quality", &CONFIG::quality}, {"p_judgement", &CONFIG::p_judgement}, {"d_judgement", &CONFIG::d_judgement}, {"p_goal", &CONFIG::p_goal}, {"d_goal", &CONFIG::d_goal}, {"p_question", &CONFIG::p_question}, {"d_question", &CONFIG::d_question}, {"p_quest", &CONFIG::p_quest}, {"d_quest", &CONFIG::d_quest}};
        if (c[1] == "temporal_duration")
            CONFIG::temporal_duration = atoi(c[2].c_str());
        else
            *m.at(c[1]) = v;
        j.null();
    }
    else if (op == "newid")
    {
        auto how = c[1];
        std::vector<size_t> v;
        if (how.back() == '2')
        {
            how.pop_back();
            v = newid_elsewhere(how);
        }
        else
            v = newid_here(how);
        j.open('[');
        for (auto x : v)
            j.unum(x);
        j.close(']');
    }
    else if (op == "manyids")
    {
        auto how = c[1];
        bool other = how.back() == '2';
        if (other)
            how.pop_back();
        for (long i = 0, n = atol(c[2].c_str()); i < n; i++)
        {
            auto v = other ? newid_elsewhere(how) : newid_here(how);
            g_idless |= v.empty();
            g_ids.insert(g_ids.end(), v.begin(), v.end());
        }
        j.null();
    }
    else if (op == "parseid")
    {
        std::string line = c[1];
        auto t = NARSESEPARSER::parser->parse_task(line);
        if (t == nullptr || t->sentence->stamp == nullptr || t->sentence->stamp->evidential_base == nullptr || t->sentence->stamp->evidential_base->_set == nullptr || t->sentence->stamp->evidential_base->_set->empty())
            g_idless = true;
        else
            g_ids.insert(g_ids.end(), t->sentence->stamp->evidential_base->_set->begin(), t->sentence->stamp->evidential_base->_set->end());
        j.null();
    }
    else if (op == "presetid")
    {
        // every input until now used one identifier; only ever move the counter ahead
        unsigned long long v = strtoull(c[1].c_str(), nullptr, 10);
        if (GLOBAL::vt_probe::counter() < v)
            GLOBAL::vt_probe::counter() = v;
        j.null();
    }
    else if (op == "idsum")
    {
        std::map<size_t, size_t> seen;
        j.open('{');
        j.key("n").unum(g_ids.size());
        j.key("none").num(g_idless);
        bool dup = false;
        for (size_t i = 0; i < g_ids.size() && !dup; i++)
        {
            auto r = seen.insert({g_ids[i], i});
            if (!r.second)
            {
                dup = true;
                j.key("twice").str(std::to_string(g_ids[i]));
                j.key("first").unum(r.first->second);
                j.key("second").unum(i);
            }
        }
        if (!dup)
        {
            j.key("twice").null();
            j.key("first").null();
            j.key("second").null();
        }
        j.close('}');
    }
    else if (op == "noise")
    {
        w.noise.push_back(std::make_shared<std::vector<char>>(atoi(c[1].c_str())));
        j.null();
    }
    else
    {
        fprintf(stderr, "unknown command %s\n", op.c_str());
        _exit(96);
    }
}

std::string run_case(const std::vector<Cmd> &cmds)
{
    size_t i0 = 0;
    int repeat = 1;
    if (!cmds.empty() && cmds[0][0] == "repeat")
    {
        repeat = atoi(cmds[0][1].c_str());
        i0 = 1;
    }
    std::string first, out;
    std::vector<long> live(repeat, 0);
    std::vector<size_t> left(repeat, 0);
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
    for (int r = 0; r < repeat; r++)
    {
        {
            World w;
            Json j;
            for (size_t i = i0; i < cmds.size(); i++)
            {
                command(w, cmds[i], j);
                j.s += '\n';
                j.fresh = true;
            }
            if (r == 0)
            {
                first.swap(j.s);
                first.reserve(first.size() + 1);
            }
            w.clear();
        }
        left[r] = interpreter.dictionary.size() + interpreter.dictionary_inv.size() + interpreter.objects.size() + interpreter.count.size();
        live[r] = g_live;
    }
    if (repeat > 1)
    {
        Json j;
        j.open('{');
        j.key("live").open('[');
        for (auto x : live)
            j.num(x);
        j.close(']');
        j.key("left").open('[');
        for (auto x : left)
            j.num(x);
        j.close(']');
        j.close('}');
        first += j.s + "\n";
    }
    return first;
}

void warm_up() {}
