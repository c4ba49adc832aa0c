"""The explorers of each property."""
NOPARSER = lambda p: not p.startswith(("Narsese/Parser/", "NAL/"))
NONAL = lambda p: not p.startswith("NAL/")
NA = {}
PROPS = {
 "C01": dict(note='Every line within the bounds of the rule was given to the real parser; the verdict of the reference recogniser (a memoising recogniser on characters over a table of the documented grammar in harness/dC01.cpp) is the oracle. All states and transitions of the LR(0) automaton of the grammar are covered, longer lines by pattern only.', drivers=[dict(units=["dC01.cpp", "shim.cpp"], sources=NONAL)],
    rule="all states and all transitions of the LR(0) automaton of the grammar, each followed by every token (inserted, in place of the expected one, and omitted) and every character (all byte values but those which end a line), with the shortest completions; all pairs of tokens in every state; all operators of up to three characters, all short numbers in every position, all names of two characters, all short quoted strings, all short sequences of tokens, blanks at every position, numbers at the limits of int, tokens and lists of up to 4097 characters or components, nesting up to 512: accepted exactly if the reference recogniser accepts"),
 "C02": dict(note='Every line within the bounds of the rule was parsed by the real parser and its term compared with the reference model; longer or deeper lines are not covered. Trusts the model of the notation (harness/model.h, gen.h).', drivers=[dict(units=["dC02.cpp", "shim.cpp"], sources=NONAL)],
    rule="all lines made of every notation over all leaves (depth 1), every notation in every argument of every notation (depth 2), every number of components, chains of every pair of notations, all pairs of names which are alike up to a length of 130, operations in every place of every notation, many components, names of all byte values and of UTF-8 characters, up to 513 (1025) variables of one kind in a line; the meaning is computed by the reference model"),
 "C06": dict(note='All ordered pairs of the family of terms; terms outside of the family are not covered. Equality of model terms is the oracle.', drivers=[dict(units=["dC06.cpp", "shim.cpp"], sources=NONAL)],
    rule="all ordered pairs of a family of terms (every notation over small arguments and nestings), built in several ways and parsed, with real hashes and with hashes made to collide; terms of up to 257 components or 60 levels which differ in one place; equality is compared with equality of the model terms"),
 "C07": dict(note='All pairs and triples of the family, also with colliding hashes; terms outside of the family are not covered.', drivers=[dict(units=["dC07.cpp", "shim.cpp"], sources=NONAL)],
    rule="all ordered pairs and triples of a family of terms, with real hashes and with hashes made to collide; insertion of the family into unordered collections in many orders; terms of up to 257 components or 60 levels which differ in one place"),
 "C08": dict(note='All component tuples over the palette within the bounds; the normal form is that of harness/model.h.', drivers=[dict(units=["dC08.cpp", "shim.cpp"], sources=NONAL)],
    rule="every connector over all tuples of up to 3 components of a palette (up to 5 for sets and intersections), nestings of every three connectors, sets of elements of every kind united and intersected in every way, up to 513 (1000) components, compounds of up to 257 components within compounds, up to 40 (70) sets brought together, and large components which are alike but for one place; all constructors, shared and cloned components, real and colliding hashes, and parsed; the normal form is computed by the reference model"),
 "C03": dict(note='Every printed form of the enumerated terms and tasks was read back by the real parser; trusts the structural description of terms in harness/describe.h. Names which the grammar has no spelling for are excluded.', drivers=[dict(units=["dC03.cpp", "shim.cpp"], sources=NONAL)],
    rule="a family of terms (every notation, nested), parsed, built, cloned and with other variable numbers; operations in every place, calls of up to 130 arguments and terms of up to 33 components, up to 257 (1001) variables; all names of one and two characters, with all byte values, and of UTF-8 characters; all combinations of punctuation, tense, budget and truth forms at several times; built tasks with values on a grid: each is printed, read back and compared"),
 "C18": dict(note='All terms, names and tasks of C03, and every printable character in names.', drivers=[dict(units=["dC18.cpp", "shim.cpp"], sources=NONAL)],
    rule="the terms, names and tasks of C03, and all printable characters in names created by name: coloured output without colour codes is compared with plain output"),
 "C04": dict(note='All histories up to three lines over the alphabet of lines; longer ones by repetition only.', drivers=[dict(units=["dC04.cpp", "shim.cpp"], sources=NONAL)],
    rule="all histories of one, two and three lines (accepted and rejected) on one parser and over two parsers used alternately, with results held or dropped; every truncation and every spoiled character of the good lines followed by good lines; a line of every notation and every set of variables and values after each other one; lines of up to 10000 (20000) words or variables before each other one; many repetitions: every outcome is compared with that of a fresh parser"),
 "C05": dict(note='Complete over the enumerated lines under the address sanitizer and an allocation count; uninitialised reads show only by their effects (memory is filled with a pattern).', drivers=[dict(units=["dC05.cpp", "shim.cpp"], sources=NONAL, mode="asan", hang=40)],
    rule="under the address sanitizer: all lines of one and two significant characters, every byte in several contexts, every truncation and spoiled character of the good lines, all lengths of every token, all depths of every nesting, numbers in and out of range in all places, all orders of dropping results and parsers; the number of bytes allocated must not grow when a line is repeated and the registry must be empty again"),
 "C09": dict(note='All terms of the family under the address sanitizer, all single renumberings and orders of dropping.', drivers=[dict(units=["dC09.cpp", "shim.cpp"], sources=NONAL, mode="asan")],
    rule="under the address sanitizer: a family of terms, with every form in every form, operations in every place and terms of up to 33 components, parsed and built, cloned: compared in every respect, every number of a variable changed on either side, dropped in every order; all statements and compounds over all pairs of a palette built without is_input"),
 "C10": dict(note='Flags, complexity and tables of every term of the family are recomputed from its components (harness/vars.h).', drivers=[dict(units=["dC10.cpp", "shim.cpp"], sources=NONAL)],
    rule="a family of terms, all mixes of variables of the three kinds up to 5 positions, every form in every form, operations in every place, many components, wide and deep terms; parsed, built in several ways and numberings, cloned, and used in larger terms: flags, complexity and tables are recomputed from the components"),
 "C11": dict(note='All operation histories to the bound over 3 handles, a task and 2 registries, compared with the model after every step.', drivers=[dict(units=["dC11.cpp", "shim.cpp"], sources=NONAL, mode="asan")],
    rule="explicit-state exploration of a model of the registry: 3 handles and a task, two names, an operation, a second registry; all histories of up to 3 operations, and every operation in every model state reachable within the bound, replayed on the implementation and compared after every step (identity of atoms, printed names, contents of the registry)"),
 "C12": dict(note='All collections, set operations and iterator histories within the bounds of the rule, under the address sanitizer, with plain sets, vectors and positions as the model.', drivers=[dict(units=["dC12.cpp", "shim.cpp"], sources=NONAL, mode="asan")],
    rule="all sequences of up to two terms of a palette (with equal copies), up to 3 (4) of a smaller one, put into an ordered or unordered collection in each of 11 ways; union, intersection and difference of all pairs, triples and quadruples of subsets; all histories of up to 3 (4) operations on two iterators over ordered and unordered collections of 0 to 4 components; collections of up to 513 (2049) terms, and operations on up to 257 collections; compared with plain sets, vectors and positions"),
 "C13": dict(note='All pairs of subsets of a universe of ids (with ids beyond 32 bits) for each of ten maximum lengths, all histories up to 4 (5) operations on two bases, and bases at the real maximum; the model is a plain set.', drivers=[dict(units=["dC13.cpp", "shim.cpp"], sources=NONAL)],
    rule="all pairs of subsets of 6 or 7 ids for maximum lengths from 0 to 14 and 20000, each operation, hashed before or not, also a base with itself; sizes around the maximum; all histories of up to 4 (5) operations on two bases; the bases of stamps extended; compared with plain sets"),
 "C14": dict(note='All pairs (and triples of a third) of some 110 ways of making sentences and stamps in two translation units and by two parsers, with the clock moving.', drivers=[dict(units=["dC14.cpp", "dC14b.cpp", "shim.cpp"], sources=NONAL)],
    rule="all histories of one and two (and of three from a third of the ways, all in the thorough tier) ways of making a sentence or stamp: two parsers with every punctuation, tense and truth, all constructors, two translation units; 48 times from 1 to the limits of int, and lines of every shape of term, budget and truth, each made twice and beside others, with the clock moving; the clock moves in between; every sentence made is checked after every step, and all ids of evidence are compared"),
 "C15": dict(note='All combinations of clock, duration, tense and time on grids around every threshold, histories of three sentences with a moving clock. Clocks and times beyond the range of int are not claimed.', drivers=[dict(units=["dC15.cpp", "shim.cpp"], sources=NONAL)],
    rule="every tense and absolute times from -12 to 24 and around larger clocks, entered with every punctuation at each of 16 clocks for 6 durations, shown at each of 16 clocks; stamps built with times from -25 to 45 shown at all clocks from 0 to 24, and eternalised; all histories of three sentences with the clock moving in between"),
 "C16": dict(note='All values of complete grids of frequency, confidence and horizon, singly and in pairs, and all histories of up to 5 (7) revisions; the oracle are the formulas of NAL in long double with a tolerance of 1e-5 (single precision). Values between the grid points are not covered.', drivers=[dict(units=["dC16.cpp"], sources="all")],
    rule="every function over one truth value on a grid of 201 frequencies, 400 confidences and 5 horizons; over pairs on a grid of 12 frequencies and 10 confidences (41 and 45 in the thorough tier); projection over all combinations of 14 times; a truth value with itself and with others of every horizon; And and Or over all quadruples of 9 values; all histories of up to 5 (7) revisions: compared with the definitions"),
 "C17": dict(note='All numerals within the bounds of the rule at every place, and all combinations of written and missing values; the oracle are strtod and strtof of the text and the documented defaults. Longer numerals by pattern only.', drivers=[dict(units=["dC17.cpp", "shim.cpp"], sources=NONAL)],
    rule="all numerals of up to 5 (6) characters, all of 3 (4) decimals, long and extreme ones by pattern and all powers of two and their neighbours, at each of 19 places; all combinations of written and missing budget, tense and truth values for every punctuation; the same with every configured default changed: compared with the numbers written and the defaults"),
 "C19": dict(note='Complete: every member of the vocabulary, all its attributes, all numbers of components up to 8 and at the limits of the type, and every place where it is read, printed or offered to Python.', drivers=[dict(units=["dC19.cpp", "shim.cpp"], sources=NONAL), dict(kind="python", script="pC19.py", units=[])],
    rule="every copula, connector, punctuation, tense and kind of variable: attributes, relations, spelling when built and printed, coloured or not, spelling when read in every notation, members and spelling of the Python enumerations"),
 "C21": dict(note='All pairs of the lengths of the rule and all histories to the bound, against plain numbers. Sums beyond the range of int are not claimed.', drivers=[dict(units=["dC21.cpp", "shim.cpp"], sources=NONAL)],
    rule="all lengths from -70 to 70, all powers of two and ten with their neighbours, both signs: built, copied, read, printed and read back; all pairs of them added in both ways; all histories of up to 4 (5) of eleven operations on two intervals and terms made of them: compared with plain numbers after every step"),
 "C22": dict(note='All trees, changes and histories within the bounds of the rule; the model is the tree itself, its tables recomputed after every history.', drivers=[dict(units=["dC22.cpp", "shim.cpp"], sources=NONAL)],
    rule="all trees of variable tables over three leaves with one or two inner tables of up to 3 (4) successors, also shared ones, put together in three ways; every change (renumbering, removing, adding through any table above, connecting with and without positions, looking) in every such tree, all histories of two (three, four) changes in smaller ones; trees of up to 257 (300) tables wide and 129 deep, changes below each of up to 129 (257) inner tables; clones of every table; all pairs of tables of up to 4 (5) occurrences compared; all pairs and triples of 26 numbers from the least to the greatest; all numbers of the tables of a family of terms changed: every table is recomputed after a rebuild"),
 "C20": dict(note='All histories of up to 4 (5) operations over 3 variables, all parts of deep terms after everything else was dropped, and all arguments of a wrong kind, in one process under the address sanitizer; the model is a table of texts. The values of the core are taken from the core itself, which the other properties check.', drivers=[dict(kind="python", script="pC20.py", units=["dC20.cpp", "shim.cpp"], sources=NONAL, so_mode="asan")],
    rule="some thousand lines (every notation, all combinations of budget, punctuation, tense and truth, words of every script, truncated and spoiled lines): what the module gives is compared with what the C++ core gives; all histories of up to 4 (5) operations (parsing, constructors, properties, iteration, assignment, dropping) over three variables, every part of deep terms outliving the rest, every connector with 4 to 39 and up to 257 components of three kinds, all functions with arguments of every kind"),
}
