"""Regenerates /verif/properties.jsonl (kept as code so that it stays diffable)."""
import json, os
P = []
SB = "pylogics_modalities/syntax/base.py"
ALLP = ["pylogics_modalities/parsers/%s" % f for f in ("base.py", "pl.py", "pl.lark", "ltl.py", "ltl.lark", "pltl.py", "pltl.lark", "ldl.py", "ldl.lark")]
ALLS = ["pylogics_modalities/syntax/%s" % f for f in ("base.py", "pl.py", "ltl.py", "pltl.py", "ldl.py")]
ND = "pylogics_modalities/deduction/fol/nd.py"


def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                    "observe_at": observe, "hook_needed": None},
    })


p("C01", "Evaluating a propositional text gives its classical truth value",
  "For every propositional text and every interpretation, parsing the text and evaluating the result gives the classical truth value of the text read with the documented precedences (equivalence weakest, then implication, or, and, not; a chain of implications associates to the right, a chain of equivalences is the iterated biconditional). Symbols that the interpretation does not mention are false, symbols that the formula does not mention do not matter, and a set of symbols and the dictionary with the same true symbols give the same answer. The answer depends only on the formula and on the current contents of the interpretation, never on earlier evaluations.",
  ["inputs", "histories"], "every propositional text of the grammar, every set or dictionary interpretation, any number of evaluations before",
  "The tests evaluate a handful of one- and two-operator formulas under a few interpretations; they never evaluate an implication chain, nested mixtures or wide operators, and never change an interpretation between two evaluations.",
  ["pylogics_modalities/semantics/base.py", "pylogics_modalities/semantics/pl.py", "pylogics_modalities/parsers/pl.py", "pylogics_modalities/parsers/pl.lark", SB],
  [("single-dispatch evaluator", "pylogics_modalities/semantics/pl.py"), ("n-ary boolean semantics", "pylogics_modalities/semantics/base.py")],
  ["value returned by evaluate_pl"])

p("C02", "Building a formula never changes its meaning",
  "In every logic (PL, LTL, PLTL, LDL) and for every way of combining formulas (constructors with any number of operands, the operators & | ~ >>, the parsers), the formula obtained is satisfied by exactly the same interpretations or non-empty finite traces as the combination that was asked for. In particular whatever is flattened, deduplicated or folded into a constant is equivalent to what was written.",
  ["inputs", "histories"], "every tree of constructor or operator applications over the four logics; every interpretation; every non-empty finite trace (for LDL also the empty one)",
  "The tests check a few simplifications of two atoms (e.g. true | false); the simplifiers work on any number of operands, nested to any depth, with constants, duplicates and complements anywhere.",
  ALLS, [("monotone simplification", SB + ":_MonotoneBinaryOp"), ("implication simplification", SB + ":_MetaImpliesOp"), ("negation pushing", SB + ":Not.__new__")],
  ["attributes of the built formula"])

p("C03", "Each parser accepts exactly the documented language",
  "For each of the four logics, a text is parsed into a formula if it belongs to the documented language, and is refused with an exception if it does not. Words that merely begin with a reserved word are symbols, white space between tokens is irrelevant, and an operator letter counts as an operator only when a blank, a quote or a bracket follows.",
  ["inputs"], "every text over the documented tokens, including near misses",
  "The tests parse some dozens of well-formed texts and a few hundred random strings for PL; the acceptance boundary is over all texts, and depends on LALR conflict resolution, lexer priorities and look-aheads.",
  ALLP, [("lark grammars", "pylogics_modalities/parsers/*.lark"), ("transformers", "pylogics_modalities/parsers/*.py")],
  ["formula or exception from parse_pl, parse_ltl, parse_pltl, parse_ldl"])

p("C04", "Parsing yields the tree that the documented grammar prescribes",
  "Every accepted text becomes the formula whose operators, operands, operand order and symbols are those that the documented precedence and bracketing give it, each operator spelling denoting its documented operator. The only differences from the literal tree are the documented simplifications (same-operator nesting flattened, duplicates, neutral and absorbing constants and complementary pairs of a conjunction or disjunction folded, an implication cut at a false antecedent, repeated operands of an equivalence dropped, double negation removed), and formulas built with the public constructors from the same tree are equal to it.",
  ["inputs"], "every accepted text of the four logics, with every amount of redundant bracketing and white space",
  "The tests compare about a hundred fixed texts with fixed trees of at most three operators; interactions between precedence levels, chains of more than two operands and nesting of regular expressions with formulas are not covered.",
  ALLP, [("starred binary operator folding", "pylogics_modalities/parsers/base.py"), ("transformers", "pylogics_modalities/parsers/*.py")],
  ["attributes of the parsed formula"])

p("C05", "A printed formula parses back to an equal formula",
  "For every formula of PL, LTL, PLTL and LDL over symbols that are not reserved words, however it was built, the text produced for it by the string conversion is accepted by the parser of its logic and parses to an equal formula with the same operators and operands. Printing the reparsed formula and parsing again changes nothing more.",
  ["inputs"], "every formula of the four logics that can be built with the public constructors or parsers",
  "The tests round-trip a hypothesis sample of PL, LTL and LDL texts without several operators; operators missing from the printer or printed with the wrong spelling or bracketing go unnoticed.",
  ["pylogics_modalities/utils/to_string.py"] + ALLP,
  [("single-dispatch printer", "pylogics_modalities/utils/to_string.py")], ["to_string output", "parse result"])

p("C06", "Formulas are equal exactly when structurally the same, and hash alike",
  "Two formulas of PL, LTL, PLTL or LDL (regular expressions included) are equal exactly when they have the same operator, the same logic, the same symbols and pairwise equal operands, where the operands of conjunction, disjunction, equivalence and regular-expression union count as a set and those of all other operators as a sequence. Equality is reflexive, symmetric and transitive, equal formulas always have equal hashes, and a formula is never equal to a non-formula. Sets and dictionaries of formulas therefore behave as if keyed by that structure.",
  ["inputs", "histories"], "every pair and triple of formulas, in any order of comparing and hashing, before and after they were copied",
  "The tests compare a few fixed formulas; equality must hold or fail correctly for every pair, including near misses that differ in one deep operand, in operand order, or only in the logic.",
  ALLS + ["pylogics_modalities/helpers/cache_hash.py"],
  [("structural __eq__/__hash__", SB), ("memoised hash", "pylogics_modalities/helpers/cache_hash.py")], ["==, hash(), set and dict membership"])

p("C07", "The formula cache mirrors what was built since the last reset",
  "At every moment the formula cache holds every formula built since the last reset exactly once up to equality, filed under the formula's own logic, and holds nothing that is filed under another logic. Resetting empties it, and building after a reset works and registers as on a fresh start.",
  ["histories", "inputs"], "every history of building formulas of any logics, looking at the cache and resetting it",
  "The tests look at the cache after building one or two atoms; the guarantee ranges over histories with resets in between, all operators and all logics.",
  [SB, "pylogics_modalities/helpers/cache_hash.py"], [("hash consing metaclass", SB + ":_HashConsing.__call__"), ("reset", SB + ":reset_cache")],
  ["get_cache_context() after every operation"],
  [("cache", "map from logic to the formulas built since the last reset", SB)])

p("C08", "Formulas survive pickling and copying, also across interpreters",
  "Copying, deep-copying or pickling and unpickling any formula of PL, LTL, PLTL or LDL gives a formula that is equal to the original, has the same hash, prints the same, evaluates the same and can replace it in any set, dictionary or larger formula. This also holds when it is unpickled in another interpreter process with a different hash seed, whether or not its hash had been computed before. A first-order formula copied in any of these ways has the same names, arguments and quantified variables, is displayed the same and counts as the same formula in a proof; and the copy of a proof has the same lines and the same verdict.",
  ["inputs", "histories", "configurations"], "every formula, every pickle protocol, every pair of hash seeds, hash computed before or not",
  "No test pickles or copies a formula at all, and a stale memoised hash can only be seen from a second process with another hash seed.",
  ["pylogics_modalities/helpers/cache_hash.py", SB], [("hash dropped from the state", "pylogics_modalities/helpers/cache_hash.py")],
  ["loads(dumps(f)), copy(f), deepcopy(f)"])

p("C09", "Operators accept only operands of the right formalism",
  "A combination whose non-constant operands belong to different logics, whose operand is of a logic the operator does not take (a temporal operator of one logic over another, a boolean connective over regular expressions, a regular-expression operator over formulas, a propositional test over temporal formulas), or whose operand is not a formula at all, is refused with an exception, never yields a formula and leaves nothing ill-formed in the formula cache; temporal operators with too few operands are refused as well. Every formula that is built, and every subformula of it, reports the logic it belongs to, and the parser of a logic returns formulas of that logic.",
  ["inputs"], "every constructor and operator, every choice and order of operands drawn from all logics and from non-formulas",
  "The tests try one or two mixed pairs; refusal must hold for every operator, operand position and number of operands.",
  ALLS + ["pylogics_modalities/syntax/fol.py"], [("same-logic check", SB), ("formalism check", SB)], ["exception or formula from each construction"])

p("C10", "Formulas are immutable and no operation changes its inputs",
  "Building further formulas, comparing, hashing, printing, evaluating, copying, checking proofs and resetting the cache never change any existing formula, interpretation or proof. What a formula reports as its operands, and the list of operands it was built from, cannot be used to change it, and its hash stays the same for its whole life.",
  ["histories", "inputs"], "every sequence of operations over a pool of live formulas, interpretations and proofs",
  "Tests look at each formula once, right after it was built; a change of shared operands or of an interpretation only shows when something older is looked at again later.",
  ALLS + ["pylogics_modalities/semantics/pl.py", "pylogics_modalities/utils/to_string.py", ND],
  [("operands exposed as a tuple", SB), ("hash memo", "pylogics_modalities/helpers/cache_hash.py")], ["snapshots of every pool object before and after every operation"])

p("C11", "Results depend only on the arguments, not on history or hash seed",
  "Parsing the same text, combining equal operands, printing, evaluating and proof checking give the same result (the same operators, operands and operand order, the same text, the same verdict) whatever was done before in the process, whether or not the cache was reset, and whatever the interpreter's hash seed.",
  ["histories", "configurations"], "every operation, every preceding history with or without resets, every PYTHONHASHSEED",
  "The test suite runs in one process with one hash seed and never compares a result with the one obtained after a different history.",
  [SB, "pylogics_modalities/parsers/base.py", "pylogics_modalities/utils/to_string.py", "pylogics_modalities/semantics/pl.py"],
  [("order preserving simplification", SB), ("module level parsers", "pylogics_modalities/parsers/base.py")], ["transcripts of the same operations under different histories and seeds"])

p("C12", "Concurrent use from several threads gives the sequential results",
  "When several threads parse, build, compare, print, evaluate, check proofs and reset the cache at the same time, under any interleaving of their steps, every operation gives the result it gives when run alone and raises nothing that it does not raise alone. Unless the cache is reset meanwhile, every formula that any thread built is in the cache afterwards.",
  ["schedules", "histories"], "every interleaving of the steps of any number of operations",
  "The test suite is single-threaded.",
  [SB, "pylogics_modalities/helpers/cache_hash.py", "pylogics_modalities/parsers/base.py", "pylogics_modalities/semantics/pl.py"],
  [("cache lookup and insertion", SB + ":_HashConsing.__call__"), ("hash memo", "pylogics_modalities/helpers/cache_hash.py"), ("shared parser objects", "pylogics_modalities/parsers/*.py")],
  ["result or exception of each operation in each schedule"],
  [("cache", "shared by all threads", SB)])

p("C13", "Accepted propositional proofs are sound",
  "Whenever the natural deduction checker accepts a propositional proof, every line of it is a logical consequence of the premises above it together with the assumptions of the boxes it lies in; in particular every line outside all boxes follows from the premises. This holds for every arrangement of lines, boxes, rules and citations, including meaningless ones.",
  ["inputs", "programs"], "every proof object in the documented format, correct or not",
  "There is no test of the checker at all; soundness is about all wrong proofs, which can be wrong at any rule, citation, box or argument order.",
  [ND], [("per-rule checks", ND), ("scope of cited lines", ND + ":check_proof")], ["verdict of NaturalDeduction.check"])

p("C14", "Accepted first-order proofs are sound",
  "Whenever the natural deduction checker accepts a first-order proof, every line outside all boxes is true in every structure in which all premises are true, and every line inside boxes follows from the premises and the enclosing assumptions. Terms are identified by their name and arguments.",
  ["inputs", "programs"], "every first-order proof in the documented format, every structure (refuted with finite ones)",
  "There is no test of the checker at all; freshness and capture conditions fail only for particular choices of terms and quantifier nesting.",
  [ND, "pylogics_modalities/syntax/fol.py"], [("substitution and instance finding", ND), ("freshness of box terms", ND)], ["verdict of NaturalDeduction.check"])

p("C15", "Correct derivations are accepted",
  "Every proof in which each line is a correct application of its rule to earlier lines or boxes in scope is accepted, for all rules, at any nesting of boxes, whichever (equal but distinct) objects are used for repeated formulas and terms, and whatever row labels are used. Acceptance does not depend on irrelevant lines in between.",
  ["inputs", "programs"], "every derivation assembled from correct rule applications over binary, unsimplified formulas, propositional and first-order",
  "There is no test of the checker at all.",
  [ND, "pylogics_modalities/syntax/fol.py"], [("per-rule checks", ND)], ["verdict of NaturalDeduction.check"])

p("C16", "Proofs with citations or assumptions out of place are rejected",
  "A proof in which some line cites a line that does not exist, comes later, is the line itself, or lies inside a box that is already closed is rejected, and so is one that cites the line on which a box introduces its term, and so is one with a premise inside a box or an assumption anywhere but at the start of a box. Likewise a line is rejected when it cites a formula where its rule needs a box or a box where it needs a formula. The verdict is always true or false and checking changes nothing in the proof, so checking twice gives the same verdict.",
  ["inputs", "programs"], "every correct derivation with any one citation, assumption or premise displaced",
  "There is no test of the checker at all.",
  [ND], [("scope of cited lines", ND + ":check_proof")], ["verdict of NaturalDeduction.check"])

p("C17", "Built conjunctions, disjunctions and negations are in normal form",
  "However it is built, no formula contains a conjunction directly under a conjunction or a disjunction directly under a disjunction, a conjunction or disjunction with fewer than two operands, with equal operands, with a logical constant of its logic or with an operand and its negation, nor a negation of a negation or of a logical or propositional constant. The operands that remain appear in the order in which they were first given.",
  ["inputs", "histories"], "every tree of constructor, operator and parser applications over the four logics",
  "The tests check single simplifications of two or three operands; the invariant is about all operand lists and nestings.",
  [SB], [("monotone simplification", SB + ":_MonotoneBinaryOp"), ("negation", SB + ":Not")], ["every formula returned by any operation, recursively"])

p("C18", "Exactly the documented symbol names are accepted, and kept verbatim",
  "In PL, LTL and PLTL a string is accepted as the name of an atom exactly when it is a documented symbol (a lower case letter or underscore followed by letters, digits, underscores and inner hyphens, or printable ASCII between double quotes), and any other string is refused with an exception. The atom reports exactly that name, distinct names give distinct atoms, and the parser of the logic reads every such name that is not a reserved word as that very atom.",
  ["inputs"], "every string",
  "The tests try about ten fixed names.",
  [SB, "pylogics_modalities/helpers/misc.py", "pylogics_modalities/parsers/pl.lark"], [("symbol regular expression", SB + ":AtomName"), ("lexer terminals", "pylogics_modalities/parsers/pl.lark")],
  ["Atomic(name), Atomic(name).name, parse result"])

p("C19", "Operations refuse what they do not support instead of answering",
  "Propositional evaluation of a formula that contains any non-propositional operator or atom that it has to look at (logical and propositional constants aside), and string conversion of formulas of logics without a concrete syntax, raise the library's error; an interpretation that is neither a set nor a dictionary is refused when a symbol has to be looked up. No such call ever returns a value.",
  ["inputs"], "every formula outside the supported logic, at any depth, and every non-interpretation",
  "The tests make one such call per function, with one formula.",
  ["pylogics_modalities/semantics/pl.py", "pylogics_modalities/semantics/base.py", "pylogics_modalities/utils/to_string.py"], [("single-dispatch defaults", "pylogics_modalities/semantics/pl.py")],
  ["exception or value of evaluate_pl and to_string"])

p("C20", "Abbreviations and constants have their documented meaning",
  "The abbreviations of the temporal logics (last instant in LTL, end and last instant in LDL, first instant in PLTL) hold exactly at the instants they name on every finite trace, whether written as text or obtained from the programming interface, and wherever they occur inside larger formulas. The logical constants hold or fail everywhere, the propositional constants true and false hold or fail at every instant, and negation exchanges each constant with its dual of the same kind and logic.",
  ["inputs"], "every finite trace, every position, every context in which the abbreviation or constant is used",
  "The tests only check that the abbreviations are equal to the expression in the code that defines them.",
  ["pylogics_modalities/syntax/ltl.py", "pylogics_modalities/syntax/pltl.py", "pylogics_modalities/syntax/ldl.py"] + ALLP, [("abbreviations", "pylogics_modalities/syntax/ltl.py:Last, ldl.py:End, ldl.py:Last, pltl.py:Start")],
  ["attributes of the built formula, interpreted over traces"])

p("C21", "The verdict on a proof depends on its shape only",
  "The verdict of the natural deduction checker on a proof, right or wrong, does not change when atoms, predicates, terms or row labels are renamed one-to-one to other plain names, or when an unrelated premise or a self-contained unrelated box with a new label is put before, between or after its top-level lines, or when the proof is copied or pickled. Every beginning of an accepted proof is accepted, nothing that is appended to a rejected proof makes it acceptable, and copying the last top-level line of an accepted proof keeps it accepted.",
  ["inputs", "programs"], "every proof in the documented format, every one-to-one renaming, every place for an unrelated line",
  "There is no test of the checker at all; that names, labels and surroundings are irrelevant is a statement about pairs of proofs.",
  [ND], [("checking line by line", ND + ":check_proof"), ("finding and replacing terms", ND + ":_find_instances, _replace")], ["verdicts of NaturalDeduction.check on pairs of proofs"])

p("C22", "First-order formulas are what was written, and display forms tell them apart",
  "A term, predicate, quantified formula or boolean combination of first-order formulas reports exactly the name, operands, variable and body that it was built from (documented boolean simplifications aside), and so do its copies, with the same display form. Applying a predicate or a function to arguments gives the same symbol over exactly those arguments, never changes the original, and is refused when the number of arguments differs or one of them is not a term; a quantifier is refused unless it has a variable and a first-order formula. Two first-order formulas over plain names (variables, constants and functions named differently) have the same display form exactly when they have the same structure, which is what proof checking relies on.",
  ["inputs"], "every first-order formula and term, every list of arguments",
  "There is no test of first-order formulas at all.",
  ["pylogics_modalities/syntax/fol.py", SB], [("terms, predicates, quantifiers", "pylogics_modalities/syntax/fol.py"), ("display form", SB + ":__str__")], ["attributes and str() of the objects built, exceptions"])

p("C23", "Work grows moderately with the size of the input",
  "For formulas and proofs of any shape (long, wide or deeply nested), the work done by building, parsing, hashing, comparing, printing, evaluating, copying, combining and proof checking is bounded by a low-degree polynomial in the size of the written input. In particular no operation repeats its work on an operand, a sub-proof or a term so often that nesting makes the work explode.",
  ["inputs"], "every family of inputs that grows by repeating a pattern: layers around a formula, operands of an operator, lines, boxes and quantifiers of a proof",
  "The tests use formulas of two or three operators, on which work that doubles with every level of nesting goes unnoticed.",
  ALLS + [ND, "pylogics_modalities/semantics/base.py", "pylogics_modalities/utils/to_string.py", "pylogics_modalities/parsers/base.py", "pylogics_modalities/helpers/cache_hash.py"], [("memoised hashes", "pylogics_modalities/helpers/cache_hash.py"), ("recursive evaluation, printing and proof checking", "pylogics_modalities/semantics/base.py, utils/to_string.py, deduction/fol/nd.py")],
  ["number of lines and calls executed in the package, as counted by the interpreter"])

p("C24", "An operation that is broken off leaves everything in order",
  "When an operation is broken off at any point by an exception (a signal such as Ctrl-C, exhausted memory, the recursion limit, a refused operand or text), all existing formulas, proofs and interpretations and their hashes are as they were, and the formula cache holds only well-formed formulas, each filed once under its own logic and found there. Every later operation, including the same one started again on the same objects, gives the result that it would have given anyway, and what it builds is registered.",
  ["crash_points", "fault_sequences"], "every operation of the package, every point at which it calls, returns or loops, every exception",
  "The tests never interrupt anything; a half-finished update shows only when the exception arrives at one particular point.",
  [SB, "pylogics_modalities/helpers/cache_hash.py", "pylogics_modalities/parsers/base.py", ND], [("caching and hashing", SB + ":_HashConsing, helpers/cache_hash.py"), ("parsers shared by all callers", "pylogics_modalities/parsers/*.py"), ("proof checking", ND + ":check_proof")],
  ["exceptions raised at chosen points inside the package, then attributes of the objects, cache contents and results of later calls"])

p("C25", "Nothing is kept that nobody refers to any more",
  "After the formula cache is reset, formulas and terms that the caller no longer refers to are released, and proofs, interpretations and whatever was refused are released even without a reset, apart from a fixed number of objects that the package may remember. So with occasional resets memory does not grow with the number of operations, and repeating the same operations on formulas that are already in the cache makes neither the cache nor memory grow.",
  ["histories"], "every history of operations and resets",
  "The tests look at results and never at what stays in memory; a leak changes no result.",
  [SB, "pylogics_modalities/helpers/cache_hash.py", ND, "pylogics_modalities/utils/to_string.py", "pylogics_modalities/semantics/pl.py", "pylogics_modalities/parsers/base.py"], [("formula cache and its reset", SB + ":_HashConsing, reset_cache"), ("parsers, printing, evaluation, proof checking keep no state", "pylogics_modalities/parsers/base.py, utils/to_string.py, semantics/pl.py, deduction/fol/nd.py")],
  ["weak references to the objects made, number of memory blocks in use, size of the cache"])

p("C26", "Display forms tell formulas apart",
  "The display form (str) of a formula of PL, LTL, PLTL or of a regular expression, over symbols that are not reserved words, shows its operator and all its operands in their order: two formulas of one logic are displayed alike exactly when they have the same operators, symbols and operands in the same order (only the constants ff and false of one logic look alike). Two live formulas of any logic have the same unambiguous representation (repr) only if they are equal. Displaying a formula again, or a copy of it, gives the same text.",
  ["inputs"], "every pair of formulas",
  "The tests compare a handful of display forms with a fixed text; that no two formulas look alike is a statement about all pairs, and the proof checker compares formulas by their display form.",
  ALLS, [("display forms", SB + ":__str__, __repr__")], ["str() and repr() of formulas"])

p("C27", "A proof is recorded as it was written",
  "The proof made from a flat list has one entry for every line and every box of the list, in the same order and at the same nesting: a line with exactly the label, the very formula and the justification that were written, a box under the label it was given, with its first line, and the term that opens it if there is one, under that same label. This holds for any number of lines, any nesting of boxes, labels of any kind, lists or boxes that are used more than once, and for proofs that were copied, pickled or checked.",
  ["inputs", "histories"], "every flat list in the documented format",
  "There is no test of proofs at all.",
  [ND], [("making the record", ND + ":NaturalDeductionProof")], ["entries of NaturalDeduction.Proof(list)"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        f.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(P), "properties")
