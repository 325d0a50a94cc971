#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
P = []
REPO = "/repo"
def mech(sym, files):
    key = sym.split("::")[-1].lstrip("~")
    for f in files:
        try:
            if key in open(os.path.join(REPO, f), errors="replace").read():
                return dict(name=sym, where=f)
        except OSError:
            pass
    return dict(name=sym, where=files[0])
def p(id, title, statement, over, text, why, files, symbols):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[mech(x, files) for x in symbols])))
PAR = ["Narsese/Parser/narsese.par", "Narsese/Parser/narsese.cpp", "Narsese/Parser/narsese.h", "Narsese/Parser/Parser.cpp", "Narsese/Parser/NarseseParser.cpp"]
EFF = "The parser tests only push the example files (and random strings) through the parser and assert nothing about the result; "

p("C01", "Every line of the Narsese grammar is accepted",
  "Parsing any line that the documented Narsese grammar generates (every sentence type, copula, connector, prefix and infix form, set, image, negation, operation, variable, interval, quoted word, tense, truth and budget form, at any nesting and with any blanks that keep tokens apart) yields a task. It is never refused, never raises an error and never crashes.",
  ["inputs"], "all derivations of the grammar in narsese.par, all optional parts present or absent, random words, numbers and spacing",
  EFF + "the grammar's language is infinite and no test checks that a form is accepted.",
  PAR, ["NarseseParser::parse_task", "Parser::transform", "_parser::parse"])
p("C02", "Lines outside the grammar give no task and no damage",
  "Parsing a line that the documented grammar does not generate yields no task (a null result in C++, an exception in Python). It never yields a task built from a prefix or a repaired version of the line, and never crashes.",
  ["inputs"], "token-level and character-level mutations (drop, duplicate, swap, insert, truncate) of grammatical lines that an independent recogniser rejects",
  EFF + "no existing test feeds an invalid line and looks at the result.",
  PAR, ["_parser::parse", "_parser::handle_error", "Parser::parse_string"])
p("C03", "The parsed task is the sentence that was written",
  "The task returned for a line carries exactly what the line says: the same sentence type, atoms, operations, intervals, variables, copulas and connectors, nested the same way, operands in the written order wherever order matters; the instance, property and instance-property copulas appear as inheritance between the corresponding one-element sets. Nothing is dropped, invented or reordered.",
  ["inputs"], "all grammatical lines built from a random abstract sentence in a random surface notation, compared node by node with an independent model of the language",
  EFF + "no test compares a parsed term with what was written.",
  PAR + ["Narsese/src/Compound.cpp", "Narsese/include/Statement.inl"], ["NarseseParser::parse_task", "Parser::transform", "Compound::Compound", "Statement::Statement"])
p("C04", "Printing a task and parsing the text gives the same task back",
  "The text the interpreter prints for a parsed task whose confidence and durability are not rounded to 0 or 1 is itself grammatical, and parsing it gives a task with an equal term (up to renumbering its variables when the components of an unordered compound are printed in another order), the same sentence type, the same tense category, and truth and budget values equal up to the printed precision. Printing that task again gives the same text unless variables were renumbered.",
  ["inputs"], "all parsed tasks whose compounds keep at least the number of components the grammar requires and whose confidence and durability stay inside (0, 1) at the printed precision",
  "No existing test prints a task and reads it back; the examples are never compared with their printed form.",
  ["Interpreter/src/Interpreter.cpp"] + PAR, ["Interpreter::interpret", "NarseseParser::parse_task"])
p("C05", "Equivalent notations and spacing denote the same sentence",
  "Two lines that differ only in notation that the grammar declares equivalent (infix and prefix operators, old and new statement brackets, `(a, b)` and `(*, a, b)`, `--a` and `(--, a)`, `op(x)`, `(^op, x)` and `<(*, x) --> ^op>`, `a {-- b` and `{a} --> b`, and so on) or in blanks between tokens parse to equal terms with the same printed form of truth, tense and budget.",
  ["inputs"], "pairs of independent random surface renderings of one random abstract sentence",
  EFF + "equivalence of two notations is a relation between runs that no test looks at.",
  PAR, ["multi_prefix", "multi_infix", "single_prefix", "single_infix", "statement_operation1", "statement_operation2", "statement"])
p("C06", "A parse result does not depend on what was parsed before",
  "What a line parses to (accepted or refused, structure, variable numbers, truth, budget, tense and printed text) is the same in a fresh process and after any history of earlier parses: successful, refused, or aborted by an exception, with the same or other parser objects, with earlier tasks still alive or already dropped. Parsing leaves the text it was given as it was.",
  ["histories", "inputs"], "random sequences of valid, invalid and pathological lines over several parser objects, each answer compared with the answer in a fresh process",
  EFF + "each test looks at no result after a failed parse, and cross-talk needs a specific sequence of lines.",
  PAR, ["Parser::parse_string", "_parser::parse", "_parser::get_input", "_parser::clear_input", "NarseseParser::parse_task"])
p("C07", "No input text makes the parser corrupt memory or die",
  "Whatever bytes a line consists of, however long its words and numbers, however many operands and however deeply nested it is (within stack limits), parsing and then printing it ends in a task, a null result or a C++ exception: never an out-of-bounds access, a use after free, undefined behaviour, an abort or a hang.",
  ["inputs"], "arbitrary byte strings, mutated grammatical lines, lines nested hundreds of levels deep and lines thousands of operands wide, under address and undefined-behaviour sanitizers",
  "test_efficiency feeds some random strings without sanitizers and without looking at memory; overflow needs particular depths and lengths.",
  PAR + ["Interpreter/src/Interpreter.cpp"], ["_parser::alloc_stack", "_parser::get_input", "_parser::clear_input", "_parser::get_lexem", "_parser::lex", "Parser::transform"])
p("C08", "Dropping tasks releases everything they held",
  "Once every task, term and sentence obtained from parsing has been dropped, in whatever order, all memory they used has been released (refused and aborted parses leak nothing either) and the name table contains exactly the atoms and operations that are still referenced, none when nothing is. No object is freed twice or used after it was freed.",
  ["histories", "inputs"], "random histories of parses (valid and invalid), clones, copies and drops in random order, with leak and address checking",
  "The README asks for a manual run of a leak detector; the tests never count live objects or inspect the name table.",
  ["Narsese/include/Term.inl", "Narsese/include/Term.h", "Narsese/src/Term.cpp", "Interpreter/include/Interpreter.hpp", "Narsese/Parser/Parser.cpp", "Narsese/Parser/NarseseParser.cpp"], ["pTerm::~pTerm", "pTerm::_free_from_interpreter", "Interpreter::remove", "get", "_parser::ast_free"])
p("C09", "One name, one atom",
  "While an atom is referenced, every later occurrence of its name, in any line and through any constructor that takes a name, denotes that same atom, and different names denote different atoms that are never equal. Plain names and operation names are separate name spaces (`go` and `^go` are different, independent atoms); once an atom is no longer referenced its name can be used afresh and the printed name of every live atom stays the name it was created with. An atom or operation made without a name equals no other. Each name table is a name space of its own: the same name in two tables, or before and after a reset of a table, denotes different atoms, and every table holds exactly the names of its live atoms.",
  ["histories", "inputs"], "random histories of creating, parsing, keeping and dropping tasks that mention random words and operations",
  "No test checks identity of atoms between two parses or after an atom was released.",
  ["Narsese/Parser/NarseseParser.cpp", "Narsese/src/Term.cpp", "Interpreter/include/Interpreter.hpp"], ["atom_term", "operation", "Term::create", "Interpreter::put", "Interpreter::get_by_name"])
p("C10", "Compound normalisation follows the connector's algebra",
  "Conjunction, disjunction, parallel events, both intersections and both set connectors are order-insensitive and drop repeated components, and a component built with the same connector is merged into its parent, so all arrangements of the same components give equal terms. Sequences keep order and repetition but flatten nested sequences; product, differences, images, negation and lists keep their components exactly as given; a component built with a different connector is never dissolved into its parent.",
  ["inputs"], "random component multisets, permutations, repetitions and regroupings for every connector, nested in each other, compared with an independent normal form",
  "No test builds the same compound in two arrangements, or looks at the components of a nested compound.",
  ["Narsese/src/Compound.cpp", "Narsese/include/Connector.h", "Narsese/include/Term.h"], ["prepocess_terms", "_merge_compounds", "Compound::Compound", "Terms"])
p("C11", "Intersections of sets compute set algebra",
  "The extensional intersection of extensional sets is the extensional set of their common elements and that of intensional sets is the intensional set of all their elements; the intensional intersection is dual (union of extensional sets, common elements of intensional sets). This holds for any number, order and overlap of the sets, with other components left beside the merged set, whenever the resulting set is not empty; sets of which no element is common to all are kept as they are, as components of the intersection.",
  ["inputs"], "random families of sets under both intersection connectors, with and without further components, compared with a set model",
  "The documented examples in Compound.cpp are not executed by any test.",
  ["Narsese/src/Compound.cpp"], ["_merge_compounds", "prepocess_terms", "Terms::intersection", "Terms::union_"])
p("C12", "Term equality is structural identity and hashes agree with it",
  "Two terms compare equal exactly when they have the same normal form: same kind, copula or connector, equal components (in order where order matters, and for statements always subject and predicate in that order), the same atoms and the same variable kinds and numbers. Equality is reflexive, symmetric and transitive, equal terms have equal hashes, and the answer does not depend on when or in which order the terms were built.",
  ["inputs", "histories"], "pairs and triples of random terms biased towards near-equality, including variables of all kinds, and searches for pairs of different terms with colliding hashes",
  "The equality tests in test_term.cpp are commented out.",
  ["Narsese/include/Term.inl", "Narsese/include/Term.h", "Narsese/include/Statement.h", "Narsese/include/Compound.h", "utils/hash.h"], ["Term::operator==", "do_hashing", "hash"])
p("C13", "Term order is a strict weak order and term sets follow set algebra",
  "The ordering of terms is irreflexive, asymmetric and transitive, two terms are unordered exactly when they are equal, so that a commutative collection of terms holds every distinct term exactly once. Union, intersection and difference of such collections equal the mathematical operations, and an ordered collection keeps all elements in insertion order. However the iterators over a collection are advanced, copied or assigned, they visit exactly its elements.",
  ["inputs"], "random families of terms with and without variables, near-equal terms and hash-colliding terms; random families of collections against a set model",
  "test_terms.cpp builds two collections of two atoms and prints hashes; order axioms quantify over triples of terms.",
  ["Narsese/include/Term.inl", "Narsese/include/Term.h"], ["Term::operator<", "Terms::intersection", "Terms::union_", "Terms::difference", "Terms::push_back", "Iterator"])
p("C14", "Cloning gives an equal, independent term",
  "A clone of any term is equal to it, hashes, prints and measures the same, and has the same flags and variable positions. Renumbering the variables of the clone never changes the original, nor the reverse, while variable-free parts may be shared. A statement or compound that a constructor makes from copies of its components (which it does unless told otherwise) is independent of them in the same way.",
  ["inputs"], "random terms with and without variables, cloned at any depth or put into larger terms, then mutated on either side",
  "test_clone clones one fixed term.",
  ["Narsese/include/Term.inl", "Narsese/include/Compound.inl", "Narsese/include/Statement.inl", "Narsese/include/Variable.inl", "utils/IndexVar.h"], ["Term::clone", "Compound::Compound", "Statement::Statement", "Variable::Variable", "IndexVar::clone"])
p("C15", "Variables are numbered by first occurrence and names do not matter",
  "In each line, variables of each kind are numbered 0, 1, 2, ... by their first occurrence in the text, independently of the other kinds and of other lines; the same name and kind always gets the same number and different names different numbers. Renaming the variables of a line injectively gives an equal term with the same printed form.",
  ["inputs", "histories"], "random terms with up to a dozen variables of the three kinds sharing names across kinds, random injective renamings, in any parse history",
  "No test looks at variable numbers; collisions need several variables of several kinds in one line.",
  ["Narsese/Parser/NarseseParser.cpp", "Narsese/Parser/NarseseParser.h", "Interpreter/src/Interpreter.cpp"], ["independent_var", "dependent_var", "query_var", "NarseseParser::parse_task"])
p("C16", "Derived attributes of a term agree with its structure",
  "The complexity of a term is 1 for an atom, the sum over the components for a compound and one plus subject plus predicate for a statement. A term is flagged as containing variables (of each kind) exactly when one occurs in it, a statement is flagged higher-order exactly for implication- and equivalence-type copulas, commutative exactly for symmetric copulas or connectors, and as an operation exactly when it is an inheritance from a product to an operation name.",
  ["inputs"], "all terms reachable by parsing or by the constructors, attributes recomputed from the dumped structure at every node",
  "No test reads these attributes.",
  ["Narsese/src/Compound.cpp", "Narsese/include/Statement.inl", "Narsese/include/Term.h", "Narsese/include/Copula.h", "Narsese/include/Connector.h"], ["Compound::Compound", "Statement::Statement", "_refresh_var_status", "is_higher_order", "is_commutative"])
p("C17", "A term's variable index lists its variables and where they are",
  "For each of the three variable kinds, a term's index lists the numbers of exactly the variables of that kind in it, in component order, with one position path per occurrence; following the path through the components leads to a variable of that kind with that number. The normalised numbers order and identify variables exactly as the numbers do and use 0..n-1.",
  ["inputs"], "all terms with random mixtures of the three kinds at random depths, built by parsing, by constructors and by cloning",
  "No test reads the variable index of a term.",
  ["Narsese/include/Term.inl", "Narsese/include/Term.h", "utils/IndexVar.cpp", "utils/IndexVar.h"], ["_init_indexvars", "_build_indexvars", "IndexVar::build", "IndexVar::normalize"])
p("C18", "The variable index stays consistent under any history of edits",
  "For any tree of variable indexes built by connecting, adding and removing variables at leaf positions, building or rebuilding gives each index the concatenation of its children's numbers, with each position prefixed by the child's rank; normalised numbers and hash always describe the current numbers after a (re)build, clones are independent, and equal numberings hash equally.",
  ["histories"], "random trees and random sequences of connect, add, remove, build, rebuild, normalise, hash and clone, against a list model",
  "No test exercises the variable index directly.",
  ["utils/IndexVar.cpp", "utils/IndexVar.h"], ["IndexVar::connect", "IndexVar::build", "IndexVar::add", "IndexVar::remove", "IndexVar::normalize", "IndexVar::do_hashing", "IndexVar::clone"])
p("C19", "Truth and budget values are those written, or the documented defaults",
  "A parsed task carries the frequency, confidence and evidence constant written in the line and the priority, durability and quality written in the line, each as the nearest representable value. Missing parts take the configured defaults: frequency 1, confidence 0.9, constant 1; the general budget when no budget is written, and the default of the sentence type for each missing part of a written budget, where a judgement's or goal's quality is computed from its truth value and a question's or quest's is 1; questions and quests have no truth value. Sentences, truth values and budgets made by a program keep what they were given and take the configured truth values and the general budget of their class for the rest.",
  ["inputs", "configurations"], "all combinations of present and missing parts, random in-range literals in every lexical form, all sentence types, and random settings of the configured defaults",
  EFF + "no test looks at a truth or budget value.",
  ["Narsese/Parser/NarseseParser.cpp", "Narsese/include/Budget.h", "Narsese/include/Truth.h", "Config.cpp"], ["task", "judgement", "goal", "truth", "budget", "Budget::quality_from_truth"])
p("C20", "Tenses and stamps: the occurrence written, and fresh evidence for each input",
  "A sentence without tense is eternal; one with a tense is made at the current time and occurs at the written time, at the present, or one temporal duration before or after it, and is classified as past, present or future by comparing its occurrence with the current time and the duration. Every sentence carries a stamp with a usable evidential base; a stamp keeps the times it was made with until it is made eternal, and extending its evidence merges as evidential bases do. Evidence identifiers generated for different inputs are always different, however many inputs were read and whichever parts of the program created them.",
  ["inputs", "histories"], "all tenses and random occurrence times, sentence types and stamp constructors; histories of many parses and stamps",
  "No test looks at a stamp or an evidential base.",
  ["Narsese/include/Sentence.h", "Narsese/include/Evidence.h", "Global.h", "Narsese/Parser/NarseseParser.cpp"], ["Stamp::Stamp", "Stamp::tense", "tense_time", "tense_future", "tense_past", "GLOBAL::get_input_id"])
p("C21", "Evidential bases merge and overlap like bounded sets of evidence",
  "Merging two evidential bases (by extending one or by interleaving into a new one) gives exactly the union of their evidence when their sizes together fit the configured maximum, otherwise a subset of the union of at most the maximum size drawn alternately from both; the operands are left unchanged, merging a base that fits twice into itself changes nothing, and nothing that was in neither operand appears. Two bases overlap exactly when they share evidence, whatever the size of the identifiers, and bases with equal evidence have equal hashes at all times.",
  ["inputs", "histories", "configurations"], "random bases, maximum lengths and sequences of add, extend, interleave, overlap and hash against a set model",
  "No test touches evidential bases.",
  ["Narsese/include/Evidence.h"], ["Base::extend", "Base::interleave", "Base::add", "Base::is_overlaped", "Base::do_hashing"])
p("C22", "Truth values and amounts of evidence convert back and forth",
  "For every frequency in [0,1], confidence in [0,1) and positive evidence constant, positive and negative evidence are non-negative and add up to the total evidence, the frequency is the positive share and the confidence the total over total plus constant, and converting to evidence and back restores the truth value within float precision (the frequency whenever the total evidence is not negligible, that is above 1e-8); expectation lies between 0 and 1 and grows with frequency. Zero evidence gives confidence zero and the neutral frequency 0.5.",
  ["inputs"], "random truth values over the whole domain including the ends, and random amounts of evidence, checked against exact arithmetic",
  "The files are not even compiled by the test build.",
  ["Narsese/include/Truth.h", "NAL/Functions/include/UncertaintyMappingFunctions.h", "NAL/Functions/src/UncertaintyMappingFunctions.cpp"], ["Truth::w", "Truth::w_p", "Truth::w_m", "Truth::set_w", "Truth::e", "truth_from_w", "w_from_truth"])
p("C23", "NAL truth functions compute their NAL definitions",
  "Revision adds the evidence of both truth values, so it is commutative, associative and never less confident than either; deduction, induction and comparison compute the frequency and confidence given by the NAL definitions for all inputs, keep results inside [0,1] x [0,1), leave their arguments unchanged, and comparison is symmetric. Where no evidence results the confidence is zero.",
  ["inputs"], "random truth values including the ends of the ranges, against exact rational definitions, and algebraic laws over pairs and triples",
  "The files are not even compiled by the test build.",
  ["NAL/Functions/include/TruthFunctions.h", "NAL/Functions/include/ExtendedBooleanFunction.h", "NAL/Functions/include/UncertaintyMappingFunctions.h"], ["truth_revision", "revision", "truth_deduction", "truth_induction", "truth_comparison"])
p("C24", "Temporal projection discounts confidence by relative distance",
  "Projecting a truth value from one time to another keeps its frequency and evidence constant and multiplies its confidence by one minus the distance between the two times divided by the sum of both distances to the current time and the decay duration. Projecting to its own time changes nothing, confidence never leaves [0, original], and moving the target further away from the source on the side away from the current time never raises it.",
  ["inputs"], "random times of either sign and up to 2^52, random decay durations, against exact rational arithmetic",
  "The file is not even compiled by the test build.",
  ["NAL/Functions/include/TemporalFunctions.h"], ["project"])
p("C25", "Extended Boolean functions are product and probabilistic sum",
  "And of two, three or four numbers in [0,1] is their product and Or, with two to four arguments or a list of any length, is one minus the product of the complements. Both are commutative and associative, stay in [0,1], are De Morgan duals, and have 1 and 0 as neutral elements.",
  ["inputs"], "random numbers in [0,1] including the ends, list lengths 0 to 12",
  "The file is not even compiled by the test build.",
  ["NAL/Functions/include/ExtendedBooleanFunction.h"], ["And", "Or"])
p("C26", "Coloured output is the plain output plus colour codes",
  "For every task, sentence and term that can be printed, whether read from text or made by a program, also with unnamed parts, asking for coloured output succeeds, and removing the colour codes gives the plain text for terms and sentences; for tasks it gives the same sentence after the three budget numbers. Names containing any character, including braces inside quotes, are printed literally in both modes.",
  ["inputs"], "all parsed tasks of every sentence type, tense and term form, with quoted names of arbitrary printable characters",
  "No test asks for coloured output.",
  ["Interpreter/src/Interpreter.cpp"], ["Interpreter::interpret"])
p("C27", "The name table behaves as a two-way map under any history",
  "After any history of registering, looking up, counting, releasing and removing names, lookups by key and by name return exactly the live registrations, counts equal registrations minus releases, removing a key or its name removes both directions, and absent keys or names are reported absent. Keys are distinguished in their full width.",
  ["histories"], "random sequences of operations with keys over the whole 64-bit range, including pairs of keys that agree in their low bits, against a map model, with no live name bound to a second key nor a live key to a second name",
  "No test uses the name table.",
  ["Interpreter/include/Interpreter.hpp"], ["Interpreter::put", "Interpreter::get", "Interpreter::get_by_name", "Interpreter::remove", "Interpreter::remove_by_name", "Interpreter::erase", "Interpreter::check_count", "Interpreter::reset"])
p("C28", "The Python module parses, prints and reports errors like the C++ API",
  "In Python, parsing a grammatical line returns a task whose repr, term and sentence contain the text the interpreter prints for it; parsing an ungrammatical or out-of-range line raises RuntimeError and leaves the module usable. Every exposed object has a repr that works, and objects stay valid for as long as Python references them or anything obtained from them, in any order of release.",
  ["inputs", "histories"], "random lines, valid and invalid, and random orders of access, iteration and release of tasks, terms, components and sentences",
  "No test imports the Python module.",
  ["Narsese.cpp", "Narsese/Parser/NarseseParser.cpp", "Narsese/src/Term.cpp", "Narsese/src/Task.cpp", "Narsese/src/Sentence.cpp", "Narsese/src/Statement.cpp", "Narsese/src/Compound.cpp"], ["pybind_parse", "pybind_term", "pybind_task", "pybind_sentence"])
p("C29", "Terms built from Python equal the terms parsed from text",
  "A term built bottom-up with the Python constructors for words, statements and compounds prints like the term parsed from the corresponding text and has the same subject, predicate, copula and components; every enumeration member stands for the symbol it documents. Truth, budget and sentence objects hold the values they were given and give back what was stored.",
  ["inputs"], "random terms over all connectors and all copulas but the three abbreviations built both ways (from words, and from parsed components with variables); random numbers for truth and budget objects",
  "No test imports the Python module.",
  ["Narsese/src/Compound.cpp", "Narsese/src/Statement.cpp", "Narsese/src/Connector.cpp", "Narsese/src/Copula.cpp", "Narsese/src/Truth.cpp", "Narsese/src/Budget.cpp", "Narsese/src/Sentence.cpp"], ["pybind_compound", "pybind_statement", "pybind_connnector", "pybind_copula", "pybind_truth", "pybind_budget"])
p("C30", "Connector, copula and interval arithmetic tables are consistent",
  "A connector accepts a number of components exactly as the language defines (one for negation, two for differences, at least two for the other operators, at least one for sets), and the commutative, temporal and higher-order classification of every connector and copula matches its meaning. Where they are defined, reversing a copula twice gives it back and symmetrising gives the similarity- or equivalence-type copula of the same temporal kind and is idempotent, and adding intervals adds their lengths while keeping equality and hashing in step with the length.",
  ["inputs", "configurations"], "all connectors with all component counts up to 1000, all copulas, random intervals and sequences of additions",
  "No test reads these tables.",
  ["Narsese/include/Connector.h", "Narsese/include/Copula.h", "Narsese/include/Interval.h"], ["check_valid", "is_commutative", "symmetrize", "reverse", "Interval::operator+", "Interval::operator+="])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
