#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
             why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)

PAR = "Narsese/Parser/NarseseParser.cpp"; GR = "Narsese/Parser/narsese.par"; TAB = "Narsese/Parser/narsese.cpp"; TABH = "Narsese/Parser/narsese.h"
INT = "Interpreter/src/Interpreter.cpp"; INTH = "Interpreter/include/Interpreter.hpp"
TERM = "Narsese/include/Term.h"; TERMI = "Narsese/include/Term.inl"; CMP = "Narsese/src/Compound.cpp"

p("C01", "Exactly the lines of the Narsese grammar are accepted",
  "A line of text (ASCII or UTF-8, whose characters beyond ASCII can be part of names like letters) is parsed into a task exactly when it is a task of the documented Narsese grammar (narsese.par), with any amount of blanks (spaces, tabs) between its tokens; every other line is rejected, that is, no task is returned. All of the grammar counts: every bracket form, copula, connector in prefix and infix notation, punctuation, variable, interval, operation, tense, truth and budget form, and the spelling of names, quoted strings and numbers.",
  ["inputs"], "every line, i.e. every state of the grammar's automaton, every token and every character that can come next",
  "The tests parse six fixed, valid lines; no test checks a line which has to be rejected, and the tables of the automaton have thousands of entries.",
  [GR, TAB, TABH, PAR, "Narsese/Parser/Parser.cpp"],
  [("LALR(1) parser tables and state-dependent scanner", TABH), ("the driver of the automaton", TAB), ("parse_string / parse_task", "Narsese/Parser/Parser.cpp")],
  [("stack of the automaton", "states and syntax tree of what has been read", TAB)], ["the task returned, or that there is none"])

p("C02", "A parsed line means what it says",
  "The term, punctuation and kind of sentence of a parsed task are the ones the line spells: the same atoms, operations, intervals, variables, copulas and connectors, with all components in their places and none lost, doubled or exchanged, in every notation and at every depth and length. The shorthand copulas mean what NAL defines ({-- puts the subject into an extensional set, --] the predicate into an intensional set, {-] both), and the operation notations (^op, a, b) and op(a, b) both mean the inheritance from the product of the arguments to the operation. Variables of one kind are the same variable exactly if they have the same name in the line, and are numbered from 0 by their first appearance.",
  ["inputs"], "every accepted line: every notation, nested in every other, any number of components and any depth",
  "The tests look at the meaning of one parsed line (that a variable is cloned); all others only check that parsing terminates.",
  [PAR, GR, TAB, "Narsese/Parser/Parser.cpp", CMP, "Narsese/include/Statement.inl"],
  [("semantic actions of the grammar", PAR), ("walk over the syntax tree", "Narsese/Parser/Parser.cpp"), ("tables of variable names per line", "Narsese/Parser/Parser.h")],
  [("names_ivar/names_dvar/names_qvar", "numbers of the variables seen in the line", "Narsese/Parser/Parser.h")], ["task->sentence->term and its components"])

p("C03", "What is printed can be read back and means the same",
  "The printed form of every term, sentence and task that was parsed or built is itself accepted by the parser, and reading it gives the same term (up to the numbering of variables), the same punctuation and tense class, and the truth and budget values as displayed. Printing the result again gives the same text up to the order of unordered components and the numbering of variables.",
  ["inputs"], "every term/sentence/task: all kinds of terms, nestings, punctuations, truths, budgets, tenses",
  "No test compares printed text with anything, and none parses printed text.",
  [INT, PAR], [("interpret(Term/Sentence/Task)", INT), ("parse_task", PAR)],
  [("dictionary", "names of atoms", INTH)], ["interpreter.interpret(task)", "parser->parse_task"])

p("C04", "Parsing a line does not depend on what was parsed before",
  "The outcome of parsing a line, i.e. whether it is accepted and the term, punctuation, truth, tense, budget and variable numbering it gives, is the same on a parser that has already read any other lines, accepted or rejected, as on a fresh parser. This also holds for several parsers used alternately, and while the results of earlier lines are still in use; those stay unchanged.",
  ["histories"], "every sequence of accepted and rejected lines on one or more parsers",
  "Tests repeat one accepted line on the shared parser; no test parses a rejected line or compares results between parsers.",
  [TAB, TABH, "Narsese/Parser/Parser.cpp", "Narsese/Parser/Parser.h", "Narsese/Parser/NarseseParser.h"],
  [("parser state initialised and cleared per line", "Narsese/Parser/Parser.cpp"), ("variable name tables cleared per line", "Narsese/Parser/NarseseParser.h")],
  [("buf, len, sym, ast, is_eof", "what is left from the line before", TABH)], ["task returned for the last line"])

p("C05", "Any line is parsed safely, and all memory is given back",
  "Parsing any string of bytes, printing the result and dropping it never reads or writes memory it does not own, never uses memory after it was freed, and always terminates. Once the task is dropped, or the line was rejected, all memory acquired for it has been released, including the entries of atoms in the registry of names, apart from buffers which the parser reuses and which do not grow when the line is repeated.",
  ["inputs", "histories"], "every line over all bytes, of any length, nested as deep as the call stack allows (at least a thousand levels), and every order of dropping results",
  "Tests run without a memory checker, on six short lines; leaks and overruns by one do not change what they see.",
  [TAB, TABH, PAR, "Narsese/Parser/Parser.cpp", "Narsese/Parser/Parser.h", TERM, TERMI, INTH],
  [("input buffer, stack and syntax tree of the parser", TAB), ("ownership of values passed between semantic actions", PAR), ("release of handles", TERMI)],
  [("buf/bufend/bufsize, stack/tos/stacksize", "growing buffers", TABH)], ["address sanitizer", "number of bytes allocated"])

p("C06", "Equal terms are the ones with equal structure, and they hash alike",
  "Two terms compare equal exactly if they have the same structure: the same kind, the same copula or connector, equal components (in the same order, or as sets where the connector is commutative), the same atom or operation at the leaves, and variables of the same kind and number; how, where and in which order the terms were built or parsed plays no role. Equal terms have equal hashes, and statements and compounds with different structure are unequal even when their hashes collide.",
  ["inputs"], "every pair of terms of the same or different kinds",
  "The tests that compared terms are commented out; equality is a relation over pairs of unbounded terms.",
  [TERMI, TERM, "Narsese/include/Compound.h", "Narsese/include/Statement.h", "Narsese/include/Variable.h", "Narsese/include/Interval.h", "utils/hash.h", "utils/IndexVar.h"],
  [("operator==", TERMI), ("do_hashing of each kind of term", TERM), ("hash combination", "utils/hash.h")],
  [("hash_value", "cached hash of a term", TERM)], ["operator== and hash(term)"])

p("C07", "Terms are totally ordered, consistently with equality",
  "The order used for unordered components is a strict total order on terms up to equality: no term is less than itself, of two different terms exactly one is less, and it is transitive; two terms are incomparable exactly if they are equal. This holds for all kinds of terms, with and without variables, also when hashes collide.",
  ["inputs"], "every pair and triple of terms",
  "No test calls the order; a violation shows only as a component which is lost or doubled for some insertion order.",
  [TERMI, TERM], [("operator<", TERMI), ("Terms::compare", TERM)], None, ["operator<"])

p("C08", "Compounds are brought into one normal form",
  "A compound built from components, by the parser or by the constructors, has the normal form of NAL: unordered connectors keep each component once and do not depend on the order or repetition given, compounds of the same connector are unfolded into the surrounding one for the associative connectors (conjunction, disjunction, parallel and sequential events, intersections, and sets within sets of their kind) and for no others, and ordered connectors keep order and repetitions. Extensional sets in an extensional intersection are intersected and in an intensional one united, intensional sets the other way around (an empty intersection is not formed), and an intersection of which one set alone is left is that set.",
  ["inputs"], "every connector, every multiset and every order of components, built in every way",
  "Tests build five fixed compounds and look at none of their components.",
  [CMP, "Narsese/include/Compound.h", "Narsese/include/Connector.h", TERM],
  [("prepocess_terms, _merge_compounds", CMP), ("Terms::intersection/union_/create", TERM), ("tables of reducible and commutative connectors", "Narsese/include/Connector.h")],
  [("terms", "components of the compound", TERM)], ["connector and components of the compound built"])

p("C09", "A clone is equal to its original and independent of it",
  "Cloning a term gives a term that is equal to it, prints the same, and has the same flags, complexity, hash and variable numbering, for every kind of term and any depth. The clone shares no variable with the original: changing the number of a variable in either one never changes the other, and either one may be dropped at any time while the other stays valid; the same holds between a statement or compound and the components it was built from, when it is not built as an input.",
  ["inputs", "histories"], "every term, and every order of cloning, renumbering variables, and dropping terms",
  "One test clones one compound and looks at one path in it.",
  [TERMI, "Narsese/include/Variable.inl", "Narsese/include/Statement.inl", "Narsese/include/Compound.inl", CMP, "utils/IndexVar.h"],
  [("Term::clone", TERMI), ("copying constructors", "Narsese/include/Compound.inl"), ("IndexVar::clone", "utils/IndexVar.h")],
  None, ["the clone, and the original afterwards"])

p("C10", "The variables of a term are recorded faithfully",
  "Every term states correctly whether it contains variables, and of which kinds (independent, dependent, query), whether it is a variable itself, whether it is a higher-order statement, and whether it is an operation (an operator, or a statement whose predicate is one); its complexity is the number of atoms and statements in it. For each kind, its table lists every occurrence of a variable in it once, in the order of the components, with the variable's number and the position of the occurrence (the path of component indices), and the normalised numbering ranks the numbers without gaps; this holds for parsed, built and cloned terms alike.",
  ["inputs"], "every term: every mix of variables of the three kinds, at every position and depth",
  "No test reads a flag or a table; the existing ones only print terms.",
  [TERM, TERMI, "utils/IndexVar.cpp", "utils/IndexVar.h", "Narsese/include/Variable.inl", "Narsese/include/Statement.inl", CMP, PAR],
  [("_refresh_var_status, _init_indexvars, _build_indexvars", TERM), ("IndexVar::connect/build/normalize", "utils/IndexVar.cpp")],
  [("positions/indices", "occurrences of variables", "utils/IndexVar.h")], ["has_*/is_* flags, index tables"])

p("C11", "One name is one atom, as long as it is in use",
  "While some handle, term or task refers to an atom or operation, every use of its name, by the parser or by creating it by name, gives that same atom, and printing it gives that name; different names, and an operation and an atom, are never the same. Once the last reference is gone, by dropping, overwriting or otherwise, the name is free again and nothing is left of it in the registry; resetting the registry or removing an entry forgets the names, but leaves terms in use valid.",
  ["histories"], "every history of creating, copying, assigning, moving, dropping, parsing, embedding in terms, removing and resetting, over several names",
  "Tests create each name once per line and never look at the registry.",
  [INTH, TERMI, TERM, "Narsese/src/Term.cpp", PAR],
  [("~pTerm, operator=", TERMI), ("Interpreter::put/remove/reset", INTH), ("Term::create(name), atom_term, operation", "Narsese/src/Term.cpp")],
  [("dictionary, dictionary_inv, objects, count", "registry of names", INTH)], ["identity of atoms, registry lookups, printed names"])

p("C12", "Collections of components behave as sets and sequences",
  "A collection of components holds exactly what was put into it, in the order given if it is ordered, and each different term once if it is not; its size, iteration from begin to end, and conversion to a list agree. Union, intersection and difference of any number of unordered collections are the mathematical ones and leave their arguments unchanged. An iterator that is copied, assigned, advanced (before or after its use) or moved by a distance refers to the component which a plain position in the sequence would, independently of other iterators.",
  ["histories", "inputs"], "every family of collections, and every history of iterator operations over ordered and unordered collections",
  "Two tests iterate once over two components and check nothing.",
  [TERM], [("Terms, Terms::intersection/union_/difference", TERM), ("Iterator", TERM)], [("it_", "type-erased position", TERM)], ["size(), begin()/end(), conversion"])

p("C13", "Evidential bases are sets of ids, merged within the length limit",
  "Combining two evidential bases, by extending one or into a new one, gives a base that contains only ids of the two, all of them if their sizes add up to no more than the maximum length, and never more than the maximum length; the inputs of a merge into a new base stay as they are. Extending the base of a stamp does the same. Two bases overlap exactly if they share an id, adding an id adds just this one, and the hash depends on the current ids only; when two bases without a common id do not fit, the merged base is full and shares its room evenly between them.",
  ["histories", "configurations"], "every history of creating, adding, extending, merging and hashing bases, for every maximum length",
  "No test touches evidential bases.",
  ["Narsese/include/Evidence.h", "utils/hash.h", "Config.cpp"], [("Base::extend/interleave/add/is_overlaped/__hash__", "Narsese/include/Evidence.h")],
  [("_set, _hash, _is_hashed", "ids and cached hash", "Narsese/include/Evidence.h")], ["ids of the bases, overlap, hash"])

p("C14", "Every new sentence has a complete stamp with evidence of its own",
  "Every sentence, parsed or constructed without one, has a stamp with an evidential base of one id, and no two sentences made share that id, whichever parser, constructor or part of the program made them. The stamp records the current time as the time of creation, and whether the sentence is eternal, which it is exactly if no time was given; judgements and goals have a truth value, questions and quests none.",
  ["histories"], "every history of parsing lines and constructing sentences and stamps while the clock advances",
  "No test reads a stamp.",
  ["Narsese/include/Sentence.h", "Narsese/include/Evidence.h", "Global.h", PAR], [("Stamp constructors", "Narsese/include/Sentence.h"), ("GLOBAL::get_input_id", "Global.h"), ("judgement/question/goal/quest", PAR)],
  [("_input_id, time", "counter of ids, clock", "Global.h")], ["sentence->stamp, sentence->truth"])

p("C15", "Tenses are read, classified and shown relative to the clock",
  "A sentence is displayed as future, present or past exactly if its time of occurrence is at least one temporal duration after the current time, nearer than that, or at least one temporal duration before it, and without tense if it is eternal. A sentence entered with a tense has that tense at the time it is entered whatever the clock shows, an absolute time :!n: is the time of occurrence n, and the time of occurrence does not change when the clock advances while the display does. Eternalising a stamp takes its tense away and changes nothing else.",
  ["histories", "configurations"], "every time of occurrence, time of the clock and duration (within the range of int); every history of entering sentences and advancing the clock",
  "The clock is 0 in all tests, and no test enters a tense.",
  ["Narsese/include/Sentence.h", "Narsese/include/Tense.h", "Global.h", PAR, INT], [("Stamp::tense", "Narsese/include/Sentence.h"), ("tense_future/present/past/time", PAR), ("interpret(Sentence)", INT)],
  [("time", "clock", "Global.h")], ["stamp->tense(), printed sentence"])

p("C16", "Truth functions follow the NAL definitions and stay in range",
  "Evidence weights, expectation, revision, deduction, induction, comparison, projection and the extended boolean functions compute the values that NAL defines from the frequency, confidence and evidential horizon of their arguments. Results have frequency in [0,1] and confidence in [0,1), revision gains confidence and is symmetric, conversion between truth values and amounts of evidence is the inverse of its counterpart, and projection never raises confidence and leaves it unchanged if source and target time are the same.",
  ["inputs"], "every pair of truth values, evidential horizons and times (on a grid including the extreme values)",
  "No test calls a truth function.",
  ["NAL/Functions/include/TruthFunctions.h", "NAL/Functions/include/UncertaintyMappingFunctions.h", "NAL/Functions/include/ExtendedBooleanFunction.h", "NAL/Functions/include/TemporalFunctions.h", "NAL/Functions/src/UncertaintyMappingFunctions.cpp", "Narsese/include/Truth.h"],
  [("truth_* functions", "NAL/Functions/include/TruthFunctions.h"), ("Truth::w/w_p/w_m/e/set_w", "Narsese/include/Truth.h")], None, ["f, c, k of the result"])

p("C17", "Numbers of a line arrive exactly, missing ones get their defaults",
  "The priority, durability, quality, frequency, confidence, evidential horizon, times and interval lengths of a line are the numbers written, as near as the type that holds them allows, and confidence and durability stay strictly between 0 and 1. A number too large for its type makes the line rejected, and each value which is not written has the documented default for the kind of sentence: the configured truth value (1, 0.9, 1), budget (0.8, 0.8, 0.5) if there is none, and the defaults for judgement, goal, question or quest for the parts missing in one, where the quality of judgements and goals is derived from their truth.",
  ["inputs"], "every numeral the grammar allows at every place, and every combination of written and missing values for every punctuation",
  "No test reads a truth value or a budget.",
  [PAR, "Narsese/include/Budget.h", "Narsese/include/Truth.h", "Config.cpp"], [("numeral actions, truth, budget, task", PAR), ("Budget::quality_from_truth", "Narsese/include/Budget.h")], None, ["task->budget, sentence->truth, stamp, intervals"])

p("C18", "Coloured output says the same as plain output",
  "With the colour codes taken out, the coloured form of a term or sentence is its plain form, and the coloured form of a task shows the same three budget values and the same sentence as the plain one. Printing, coloured or not, never fails or changes what it prints, whatever characters names have.",
  ["inputs"], "every term, sentence and task, and every printable character in names",
  "The tests print coloured text of fixed lines and do not look at it (they are commented out).",
  [INT], [("interpret(..., colored)", INT)], None, ["both texts"])

p("C19", "The vocabulary of copulas, connectors and marks is that of NAL",
  "Every copula, connector, punctuation, tense and variable mark has its NAL spelling wherever it is read, printed or offered to Python, and no two share one. Its attributes are those of NAL: which copulas are higher-order, temporal or commutative, their symmetric and reversed counterparts, which connectors are commutative, associative or temporal, and how many components each takes.",
  ["configurations"], "every copula, connector, punctuation, tense and variable kind, and every number of components",
  "Tests use one copula and three connectors.",
  ["Narsese/include/Copula.h", "Narsese/include/Connector.h", "Narsese/include/Sentence.h", "Narsese/include/Tense.h", "Narsese/include/Variable.h", "Narsese/src/Copula.cpp", "Narsese/src/Connector.cpp"],
  [("tables", "Narsese/include/Connector.h"), ("tables", "Narsese/include/Copula.h"), ("Python enums", "Narsese/src/Connector.cpp")], None, ["table entries, Python enums"])

p("C20", "The Python module is safe and agrees with the C++ core",
  "Through the Python module, every sequence of parsing lines, creating terms, statements, compounds, sentences, truths and budgets, reading their properties, iterating over components, printing, and dropping objects in any order works without crashing, with every object staying valid as long as it is referenced. What it shows equals what the C++ core gives for the same input, and a line which cannot be parsed raises RuntimeError and leaves the module usable.",
  ["histories"], "every history of module operations and object lifetimes",
  "There is no Python test.",
  ["Narsese.cpp", "Narsese/src/Term.cpp", "Narsese/src/Statement.cpp", "Narsese/src/Compound.cpp", "Narsese/src/Sentence.cpp", "Narsese/src/Task.cpp", "Narsese/src/Truth.cpp", "Narsese/src/Budget.cpp", PAR],
  [("pybind_* functions", "Narsese/src/Term.cpp"), ("narsese.parse", PAR)], None, ["Python objects and exceptions"])

p("C21", "Intervals add up and remain proper terms",
  "The sum of two intervals has the sum of their lengths, adding in place changes only the interval added to, and converting an interval to a number gives its length. An interval obtained in any of these ways is equal to, hashes like and is ordered like an interval built with that length, and prints as one that reads back with it, for negative lengths and zero too.",
  ["histories", "inputs"], "every history of additions over interval lengths, including extreme and negative ones",
  "No test uses intervals.",
  ["Narsese/include/Interval.h", INT, PAR], [("operator+, operator+=", "Narsese/include/Interval.h")], [("interval, hash_value", "length and cached hash", "Narsese/include/Interval.h")], ["length, ==, <, printed form"])

p("C22", "Variable tables follow the changes made to them",
  "In a tree of variable tables (IndexVar), after any sequence of adding and removing variables, in a table itself or through one above it, of giving variables other numbers, and of connecting further tables, a rebuild at the root leaves every table of the tree with exactly the occurrences of variables below it, in order, with their positions, and sharing their numbers; connecting with positions lists them at once. The normalised numbers of a table are its present numbers renumbered from 0 in the same order, and tables compare equal and hash alike exactly if these are the same. A clone of a table has the same content and is independent of it.",
  ["histories"], "every history of changes to every tree of tables, also with tables used in several places",
  "No test uses the tables except through printed terms.",
  ["utils/IndexVar.h", "utils/IndexVar.cpp", "Narsese/include/Term.inl"], [("IndexVar::add, remove, connect, build, normalize", "utils/IndexVar.cpp"), ("IndexVar::clone", "utils/IndexVar.h")], [("positions, indices, _indices_normalized, _hash_value", "what a table lists, and what was derived from it", "utils/IndexVar.h")], ["positions, indices, indices_normalized, __hash__, =="])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
for d in P:
    assert len(d["title"]) <= 80, d["id"]
    n = d["statement"].count(". ") + 1
    if n > 3: print("too many sentences", d["id"], n)
