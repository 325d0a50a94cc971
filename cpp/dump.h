// Describes terms and tasks as JSON.
#pragma once
#include "zygote.h"
using COMPOUND::Compound;
using INTERPRETER::interpreter;
using STATEMENT::Statement;
using TASK::pTask;
using TERM::Term;
using TERM::pTerm;
using zy::Json;

static int conn_of(const std::string &s)
{
    for (int i = 0; i < 15; i++)
        if (CONNECTOR::Repr[i] == s)
            return i;
    fprintf(stderr, "bad connector %s\n", s.c_str());
    _exit(96);
}
static int cop_of(const std::string &s)
{
    for (int i = 0; i < 12; i++)
        if (COPULA::Repr[i] == s)
            return i;
    fprintf(stderr, "bad copula %s\n", s.c_str());
    _exit(96);
}

static void dump_index(Json &j, INDEXVAR::IndexVar &iv)
{
    j.open('[');
    j.open('[');
    for (auto &i : iv.indices)
        j.num(*i);
    j.close(']');
    j.open('[');
    for (auto &p : iv.positions)
    {
        j.open('[');
        for (int x : p)
            j.num(x);
        j.close(']');
    }
    j.close(']');
    j.open('[');
    for (int x : *iv.indices_normalized())
        j.num(x);
    j.close(']');
    j.close(']');
}

static int var_kind(Term &t) { return t.is_ivar ? 0 : t.is_dvar ? 1 : t.is_qvar ? 2 : 3; }
static INDEXVAR::IndexVar &index_of(Term &t, int kind)
{
    return kind == 0 ? *t._vars_independent : kind == 1 ? *t._vars_dependent : *t._vars_query;
}

static std::string flags_of(Term &t)
{
    std::string f;
    for (bool b : {(bool)t.is_var, (bool)t.is_ivar, (bool)t.is_dvar, (bool)t.is_qvar, (bool)t.has_var, (bool)t.has_ivar, (bool)t.has_dvar, (bool)t.has_qvar, (bool)t.is_interval, (bool)t.is_operation, (bool)t.is_higher_order, (bool)t.is_atom(), (bool)t.is_statement(), (bool)t.is_compound()})
        f += b ? '1' : '0';
    return f;
}

static void dump_term(Json &j, Term &t, bool full)
{
    j.open('{');
    if (t.type == TERM::TermType::ATOM)
    {
        if (t.is_var)
        {
            j.key("k").str("var");
            j.key("v").num(var_kind(t));
            auto &iv = index_of(t, var_kind(t));
            j.key("i");
            if (iv.indices.empty())
                j.null();
            else
                j.num(*iv.indices[0]);
        }
        else if (t.is_interval)
        {
            j.key("k").str("int");
            j.key("i").num(((INTERVAL::Interval &)t).interval);
        }
        else
        {
            j.key("k").str(t.is_operation ? "op" : "atom");
            j.key("n").str(interpreter.interpret(t));
        }
    }
    else if (t.type == TERM::TermType::STATEMENT)
    {
        j.key("k").str("stm");
        j.key("c");
        if ((int)t.copula < 0 || (int)t.copula > 11)
            j.num((int)t.copula);
        else
            j.str(COPULA::Repr[(int)t.copula]);
        j.key("s");
        dump_term(j, *t.subject, full);
        j.key("p");
        dump_term(j, *t.predicate, full);
        j.key("com").boolean(((Statement &)t).is_commutative);
    }
    else if (t.type == TERM::TermType::COMPOUND)
    {
        j.key("k").str("cmp");
        j.key("c");
        if ((int)t.connector < 0 || (int)t.connector > 14)
            j.num((int)t.connector);
        else
            j.str(CONNECTOR::Repr[(int)t.connector]);
        j.key("n").num(t.terms->size());
        j.key("t").open('[');
        for (auto it = t.terms->begin(); it != t.terms->end(); ++it)
            dump_term(j, **it, full);
        j.close(']');
        j.key("com").boolean(((Compound &)t).is_commutative);
    }
    else
        j.key("k").num((int)t.type);
    if (full)
    {
        j.key("cx").num(t.complexity);
        j.key("f").str(flags_of(t));
        j.key("h").unum(UTILS::hash(t));
        j.key("ix").open('[');
        for (int k = 0; k < 3; k++)
            dump_index(j, index_of(t, k));
        j.close(']');
    }
    j.close('}');
}

static void dump_stamp(Json &j, SENTENCE::Stamp &st)
{
    j.open('{');
    j.key("eternal").boolean(st.is_eternal);
    j.key("occ").num(st.t_occurrence);
    j.key("cre").num(st.t_creation);
    j.key("put").num(st.t_put);
    j.key("tense").num((int)st.tense());
    j.key("base");
    if (st.evidential_base == nullptr || st.evidential_base->_set == nullptr)
        j.null();
    else
    {
        j.open('[');
        for (auto x : *st.evidential_base->_set)
            j.unum(x);
        j.close(']');
    }
    j.close('}');
}

static void dump_task(Json &j, pTask &task, bool full)
{
    auto &s = *task->sentence;
    j.open('{');
    j.key("term");
    dump_term(j, *s.term, full);
    j.key("punct").num((int)s.punct);
    j.key("is").str(std::string(s.is_judgement() ? "." : "") + (s.is_question() ? "?" : "") + (s.is_goal() ? "!" : "") + (s.is_quest() ? "@" : ""));
    j.key("truth");
    if (s.truth == nullptr)
        j.null();
    else
    {
        j.open('[');
        j.real(s.truth->f).real(s.truth->c).real(s.truth->k);
        j.close(']');
    }
    j.key("budget").open('[');
    j.real(task->budget->priority).real(task->budget->durability).real(task->budget->quality);
    j.close(']');
    j.key("stamp");
    if (s.stamp == nullptr)
        j.null();
    else
        dump_stamp(j, *s.stamp);
    j.close('}');
}

