"""Static description of the checks; must not import the code under test."""
SYN = ["syntax/base.py", "syntax/pl.py", "syntax/ltl.py", "syntax/pltl.py", "syntax/ldl.py"]
PAR = ["parsers/base.py", "parsers/pl.py", "parsers/ltl.py", "parsers/pltl.py", "parsers/ldl.py"]
REFM = "the reference model (vmon/ref.py, vmon/refparse.py) is right; it was written from the documentation and is exercised against the code on every case"

META = {
    "C01": {
        "rule": "random texts (width, depth, spelling, brackets, symbols varied), all two-operator trees over a small pool, and histories over interpretations mutated in place; non-trivial = distinct tree whose value differs between interpretations",
        "required": ["evaluations compared", "contingent formulas", "evaluations in histories", "form: set", "form: dict"],
        "files": ["semantics/base.py", "semantics/pl.py", "parsers/pl.py"],
        "assumptions": [REFM, "interpretations map symbols to booleans", "a repeated operand of an equivalence is the known finding equiv-repeat"],
    },
    "C02": {
        "rule": "random trees, texts and single operator steps in four logics compared on all interpretations of up to five symbols or on sampled finite traces; non-trivial = distinct input on which the library simplified something",
        "required": ["simplified on the way", "formulas compared: pl", "formulas compared: ltl", "formulas compared: pltl", "formulas compared: ldl", "texts compared: ldl", "single steps: And", "single steps: Or", "single steps: Implies", "single steps: Equivalence", "single steps: Not"],
        "files": ["syntax/base.py"],
        "assumptions": [REFM, "chains of binary temporal operators are read as right associative on both sides", "traces of at most five instants"],
    },
}
META.update({
    "C03": {
        "rule": "printed random trees, their one-to-three-edit mutants, random token and character sequences, all sequences of up to three tokens of a small alphabet, operator letters and reserved words in many contexts; non-trivial = distinct text of the language",
        "required": ["%s: %s" % (x, v) for x in ("pl", "ltl", "pltl", "ldl") for v in ("accept", "reject")] + ["enumerated token sequences", "operator letter contexts", "reserved word contexts", "foreign characters"],
        "files": PAR,
        "assumptions": [REFM, "LDL texts that use tt, ff, last or end as a propositional symbol are not settled by the documentation and are skipped"],
    },
    "C04": {
        "rule": "random trees printed with random brackets, spelling and white space, all nestings of two binary and one or two unary operators with as few brackets as possible, and random token sequences that are in the language; non-trivial = distinct tree of depth three or more",
        "required": ["parsed: pl", "parsed: ltl", "parsed: pltl", "parsed: ldl", "operator pairs", "random texts in the language", "literal tree expected"],
        "files": PAR,
        "assumptions": [REFM],
    },
    "C05": {
        "rule": "random trees and all operators over all operators; non-trivial = distinct compound formula",
        "required": ["printed: pl", "printed: ltl", "printed: pltl", "printed: ldl", "operator pairs"],
        "files": ["utils/to_string.py"] + PAR,
        "assumptions": ["symbols are not reserved words (true, false, tt, ff, last, end, start, first)"],
    },
    "C06": {
        "rule": "pairs (tree, permuted copy), (tree, near miss), (tree, same tree in another logic), (tree, other tree), all pairs of a family of small confusable formulas, pools with a dictionary against a model; formulas hashed, copied, pickled or separated by a reset at random; non-trivial = distinct pair",
        "required": ["pairs equal", "pairs different", "pools", "dictionary steps", "non-formula comparisons"],
        "files": SYN + ["helpers/cache_hash.py"],
        "assumptions": [REFM, "first-order formulas are out of scope: predicates are compared by identity"],
    },
    "C07": {
        "rule": "random histories of build, parse, combine (also over operands older than the last reset), use, reset and look, operators with up to 260 operands, caches of tens of thousands of formulas; non-trivial = distinct history",
        "required": ["cache inspections", "cache entries inspected", "resets", "builds", "parses", "combinations of old operands", "formulas in a large cache", "wide formulas"],
        "files": ["syntax/base.py", "helpers/cache_hash.py"],
        "assumptions": ["helper formulas that constructors build on the way may be in the cache as well"],
    },
    "C08": {
        "rule": "random formulas copied in all ways in process, and batches exchanged with child interpreters that have other hash seeds; non-trivial = distinct compound formula",
        "required": ["copies compared", "formulas loaded in another interpreter", "formulas that came back", "child interpreters", "copies of first-order formulas compared", "copies of proofs compared: verdict True", "copies of proofs compared: verdict False"],
        "files": ["helpers/cache_hash.py", "syntax/base.py", "syntax/fol.py"],
        "assumptions": [],
    },
    "C09": {
        "rule": "every operator over every pair of a pool with all logics and non-formulas, longer operand lists with a stranger at any position, foreign operands injected into random trees, logic of every subformula; non-trivial = distinct (operator, operands) with a settled expectation",
        "required": ["expected accept", "expected refuse", "modalities", "too few operands", "foreign operands injected", "operand lists with several strangers", "formulas whose logics were checked", "first-order constructions", "cache entries inspected"],
        "files": SYN + ["syntax/fol.py"],
        "assumptions": ["constants of another logic among the operands are not settled and skipped", "a connective over one operand or over identical operands is not settled"],
    },
})
FILES_ND = ["deduction/fol/nd.py", "syntax/fol.py"]
_SOUND = ["accepted: instance", "accepted: mutant", "accepted: line", "accepted with a contingent conclusion", "explored steps accepted", "rejected: mutant", "accepted: parts", "rejected: parts", "accepted: odd names", "stretched"]
META.update({
    "C13": {
        "rule": "all instances of the rules over one formula or one box of a pool with every conclusion of the pool, random ones over several, mutants of correct derivations, single rule applications with one part replaced by something similar, atoms with odd names, and proofs grown at random out of lines that the checker accepts; non-trivial = distinct accepted proof with a contingent conclusion",
        "required": _SOUND + ["accepted last rule: " + r for r in ("and_e1", "and_e2", "and_i", "bot_e", "copy", "dneg_e", "dneg_i", "impl_e", "impl_i", "MT", "neg_e", "neg_i", "or_e", "or_i1", "or_i2")],
        "files": FILES_ND,
        "assumptions": ["formulas over at most six atoms, judged by their full truth table"],
    },
    "C14": {
        "rule": "as C13, with terms, quantifiers and boxes that open with a term, and quantifier proofs with a single slip around terms at any depth; judged on 1344 random structures with domains of one to three elements; non-trivial = distinct accepted proof with a conclusion that is not valid",
        "required": _SOUND + ["accepted last rule: " + r for r in ("forall_e", "forall_i", "exists_e", "exists_i", "impl_i", "neg_i", "or_e", "copy")] + ["accepted: slip", "rejected: slip"],
        "files": FILES_ND,
        "assumptions": ["a consequence that fails only in structures outside the sample (for instance infinite ones) goes unnoticed", "variables, constants and functions have different names; free variables are read as names of fixed elements"],
    },
})
META.update({
    "C15": {
        "rule": "random derivations built rule by rule (small ones around one rule, long ones, deeply nested ones, with irrelevant lines), each checked with distinct and with shared objects and under other row labels; non-trivial = distinct derivation",
        "required": ["rule: " + r for r in ("and_e1", "and_e2", "and_i", "assumption", "bot_e", "copy", "dneg_e", "dneg_i", "exists_e", "exists_i", "forall_e", "forall_i", "impl_e", "impl_i", "MT", "neg_e", "neg_i", "or_e", "or_i1", "or_i2", "premise")] + ["distinct objects", "shared objects", "labels that are strings", "labels that are false", "deep terms", "stretched", "boxes that share a term"] + ["formulas with " + k for k in ("And", "Or", "Implies", "Equivalence", "wide And", "wide Or")] + ["depth of boxes: %d" % d for d in range(5)],
        "files": FILES_ND,
        "assumptions": ["only formulas that the library keeps as written occur in these derivations, conjunctions and disjunctions to which a rule applies have two operands", "the term of a box occurs nowhere else in the proof, except as the term of other boxes"],
    },
    "C16": {
        "rule": "correct derivations in which one citation, premise or assumption is put out of place (at random, and as bait: copies and boxes that would justify the line if only they were visible), and mutants of any kind; non-trivial = distinct displaced proof",
        "required": ["verdict True", "verdict False"] + ["displaced: " + h for h in ("missing line", "itself", "later line", "line in a closed box", "formula for a box", "box for a formula", "additional missing line", "premise inside a box", "assumption outside boxes", "assumption within a box", "premise opening a box", "premise or assumption citing a missing line", "box that is still open", "line of a term")] + ["displaced: bait: " + h for h in ("later line", "line in a closed box", "later box", "box in a closed box", "box that is still open", "copy in a closed box", "copy in a closed box within a closed box", "copy in a closed box cited within the box around it", "copy below", "box below", "copy of itself", "additional line in a closed box")] + ["accepted when the citation is in place", "stretched"],
        "files": ["deduction/fol/nd.py"],
        "assumptions": ["row labels are hashable"],
    },
})
META.update({
    "C10": {
        "rule": "random histories of building, parsing, combining, using, evaluating, copying, proof checking, refused operations, resets and attempts to change what formulas hand out; the pictures of all objects of a pool are compared after every step; non-trivial = distinct history",
        "required": ["pictures compared", "attempts to change a formula", "proofs checked", "evaluations", "combinations", "copies", "resets", "refused operations", "operation folargs", "operation folcombine", "proofs written again"],
        "files": SYN + ["syntax/fol.py", "semantics/pl.py", "semantics/base.py", "deduction/fol/nd.py", "utils/to_string.py", "helpers/cache_hash.py"],
        "assumptions": ["private attributes are not written from outside", "terms (variables, constants, functions) are plain objects with public attributes, and not covered"],
    },
    "C11": {
        "rule": "batches of probes answered by six interpreters with different hash seeds, flags, locales, working directories, orders of imports and histories (in order, twice, reversed, shuffled, with resets, crowded with other probes); non-trivial = distinct probe",
        "required": ["answers compared", "child interpreters", "probes that answer", "probes that raise"] + ["started with another " + x for x in ("flag", "locale", "directory", "order of imports")] + ["probe: " + k for k in ("parse", "build", "combine", "eval", "eq", "nd")] + ["history: " + m for m in ("in order", "twice")],
        "files": [],
        "assumptions": ["repr of commutative operators shows a set, whose order is not compared"],
    },
    "C17": {
        "rule": "random trees built step by step and parsed, all pairs and random lists over a pool in which everything that can cancel or merge occurs, combinations with copies and across resets, first-order formulas; non-trivial = distinct tree that the library simplified",
        "required": ["negations inspected", "conjunctions and disjunctions inspected", "orders compared", "simplified", "operand lists: constructor", "operand lists: left", "operand lists: right", "first-order conjunctions and disjunctions", "combinations with copies and after resets", "formulas made again"] + ["%s: %s" % (x, y) for x in ("built", "parsed") for y in ("pl", "ltl", "pltl", "ldl")],
        "files": ["syntax/base.py"],
        "assumptions": ["order is compared modulo nothing: operands of nested conjunctions count at the place of the conjunction"],
    },
    "C18": {
        "rule": "all strings of length two (thorough: three) over 32 characters and three (four) over 16, every code point up to U+0500 (U+3000) in eleven contexts, random names and their edits, long names; non-trivial = distinct accepted name",
        "required": ["enumerated strings", "code points", "names refused", "names parsed", "texts parsed", "non-strings refused", "other kinds of strings", "other kinds of strings refused", "names accepted: pl", "names accepted: ltl", "names accepted: pltl"],
        "files": ["syntax/base.py", "helpers/misc.py", "syntax/pl.py", "syntax/ltl.py", "syntax/pltl.py"],
        "assumptions": ["reserved words are symbols for the constructor and not for the parsers"],
    },
    "C19": {
        "rule": "random formulas of the other logics under sets and dictionaries, first-order formulas, propositional formulas under 23 objects that are neither set nor dictionary, every operator by itself; non-trivial = distinct refused formula",
        "required": ["evaluations refused: " + x for x in ("ltl", "pltl", "ldl", "fol")] + ["first-order formulas not printed", "operators refused", "interpretations refused: list", "interpretations refused: mapping proxy", "interpretations refused: look-alike"],
        "files": ["semantics/pl.py", "semantics/base.py", "utils/to_string.py"],
        "assumptions": ["formulas with logical or propositional constants outside modalities are left out: evaluation may end before it meets anything else", "frozen sets are not settled"],
    },
    "C20": {
        "rule": "abbreviations and constants at random places of random formulas, as text and through the interface, judged at every instant of traces of up to six instants; non-trivial = distinct formula",
        "required": ["instants judged", "texts: ltl", "texts: pltl", "texts: ldl", "built: ltl", "built: pltl", "built: ldl", "negated constants", "constants evaluated"] + ["abbreviation " + x for x in ("ltl/last", "pltl/start", "ldl/end", "ldl/last")],
        "files": ["syntax/ltl.py", "syntax/pltl.py", "syntax/ldl.py", "parsers/ltl.py", "parsers/pltl.py", "parsers/ldl.py"],
        "assumptions": [REFM, "equivalences with repeated operands (known finding equiv-repeat) are left out"],
    },
})
META.update({
    "C12": {
        "rule": "pairs of operations (often colliding ones) on shared objects, one of them interrupted at a chosen bytecode instruction of the code under test by the other, wholly or in part, also as the first thing a process does, and free-running threads with a tiny switch interval; non-trivial = distinct (operations, places of the switches)",
        "required": ["schedules", "schedules in a fresh process", "switches", "operations compared", "formulas looked up in the cache", "free-running operations compared"] + ["preempted: " + k for k in ("parse", "atom", "const", "build", "combine", "compare", "print", "eval", "copies", "proof", "abbreviation", "reset", "refused")],
        "files": ["syntax/base.py", "helpers/cache_hash.py", "parsers/base.py", "semantics/pl.py"],
        "assumptions": ["the interpreter has a global lock, threads switch between bytecode instructions", "switches inside third-party code are only met by free-running threads", "at most two threads under control, two to eight running freely"],
    },
})
META.update({
    "C21": {
        "rule": "correct derivations, mutants, quantifier proofs with a slip and single rule applications, each checked again under other names of atoms, terms and rows, with unrelated lines and boxes around, and cut short; non-trivial = distinct proof",
        "required": ["verdict True", "verdict False", "beginnings", "proofs copied", "proofs deeply copied", "proofs pickled"] + ["compared, accepted: " + k for k in ("names of atoms", "names of terms", "all names", "labels", "shared objects", "premise in front", "premise between", "box in front", "box between", "many premises between", "many boxes between", "last line copied")] + ["source: " + k for k in ("derivation", "mutant", "quantifiers", "parts")],
        "files": FILES_ND,
        "assumptions": ["names are identifiers other than `false` (known finding name-false of C13 and C14)", "variables, constants and functions of one proof have different names", "sharing of objects is varied for propositional proofs only: predicates are compared by identity"],
    },
})
META.update({
    "C22": {
        "rule": "pools of related first-order formulas built by constructors, operators and applications, read back and displayed, all pairs compared; predicates and functions of all small arities applied to right and wrong arguments, quantifiers over right and wrong parts; non-trivial = distinct compound formula",
        "required": ["formulas read back", "display forms alike", "display forms different", "application expected", "application to be refused", "quantifier expected", "quantifier to be refused", "copies of first-order formulas", "names distributed otherwise"],
        "files": ["syntax/fol.py"],
        "assumptions": ["names are identifiers other than `false`, and variables, constants and functions have different names", "only formulas that the library keeps as written occur"],
    },
})

META.update({
    "C23": {
        "rule": "formulas of many equal layers, wide operators, and families of long, deep and wide proofs; the lines and calls executed in the library are counted for every operation and compared with a bound cubic in the size of the input; non-trivial = distinct input",
        "required": ["operations measured: " + x for x in ("build", "build again", "compare", "hash", "print", "display", "parse", "evaluate", "negate and combine", "copy", "check")] + ["verdict True", "verdict False"] + ["proofs: " + x for x in ("long", "deep boxes", "nested quantifier boxes", "quantifiers taken off", "deep terms", "many boxes", "deep formulas", "stretched mutants")],
        "files": SYN + PAR + ["utils/to_string.py", "semantics/pl.py", "semantics/base.py"] + FILES_ND,
        "assumptions": ["the size of an input is the number of its operators, symbols and lines as written; sub-formulas that are shared count every time", "steps of the parser generator and of the interpreter's own libraries are not counted"],
    },
})
META.update({
    "C24": {
        "rule": "operations on shared objects, broken off by an exception at chosen calls, returns and loops of the code under test or by a low recursion limit, also as the first thing a process does; then all objects and the cache are inspected and the operations run again; non-trivial = distinct (operations, place)",
        "required": ["operations started", "cache entries inspected", "broken off as the first thing in a process"] + ["by " + x for x in ("signal", "ctrl-c", "memory", "recursion", "deep")] + ["broken off: " + k for k in ("parse", "atom", "const", "build", "combine", "compare", "print", "eval", "copies", "proof", "abbreviation", "reset", "refused", "write proof", "first order", "refused call")],
        "files": ["syntax/base.py", "helpers/cache_hash.py", "parsers/base.py", "semantics/pl.py", "deduction/fol/nd.py"],
        "assumptions": ["exceptions arrive where the interpreter looks for signals: on entering, resuming and leaving a function and when a loop goes round", "places inside third-party code are only met by the recursion limit"],
    },
})
META.update({
    "C25": {
        "rule": "rounds of operations of every kind under names that are new in each round; weak references tell what is still alive after the caller let go of it (and after a reset), allocated memory blocks tell what else was kept, and the same operations repeated must not need more; non-trivial = distinct operation",
        "required": ["watched: " + x for x in ("formula", "term", "proof", "interpretation")] + ["done: " + x for x in ("parse", "refused text", "refused operands", "build", "combine", "print", "copy", "evaluate", "proof True", "proof False", "first order")] + ["operations between measurements", "operations repeated", "runs without an earlier reset"],
        "files": SYN + PAR + ["helpers/cache_hash.py", "utils/to_string.py", "semantics/pl.py"] + FILES_ND,
        "assumptions": ["a fixed number of objects may be remembered: 150, or more if their number stops growing within some thousand operations, so that a bounded memo is no leak", "objects in reference cycles count as released once the collector has run"],
    },
})
META.update({
    "C26": {
        "rule": "pools of random formulas with permuted copies, near misses, the same words bracketed otherwise and the same tree in other logics, under confusable symbols, all operators over all operators bracketed in all ways, wide and deep formulas; all display forms of a pool compared with each other; non-trivial = distinct compound formula",
        "required": ["formulas displayed: " + x for x in ("pl", "ltl", "pltl", "ldl", "re")] + ["displayed alike", "represented alike", "the same formula again", "bracketed otherwise", "copies displayed", "operator pairs", "large formulas"],
        "files": SYN,
        "assumptions": ["symbols are not reserved words", "formulas with LDL modalities are displayed by the address of the object, so for them only live objects are compared, in one direction"],
    },
    "C27": {
        "rule": "random arrangements of lines, boxes (opened by a formula, by a term, by both) and labels without regard to any rule, correct derivations, long and deeply nested proofs; the record is compared entry by entry with what was written; non-trivial = distinct proof",
        "required": ["proofs recorded", "the same list recorded again", "entries compared", "proofs copied", "proofs deeply copied", "proofs pickled", "derivations", "large proofs"],
        "files": FILES_ND,
        "assumptions": ["lists are in the documented format", "the justification kept for a box or for the term that opens it is not settled"],
    },
})

# workload of each tier, as a multiple of the numbers in the check
SCALE = {
    "C01": {"quick": 6, "thorough": 6}, "C02": {"quick": 4, "thorough": 4}, "C03": {"quick": 5, "thorough": 5},
    "C04": {"quick": 4, "thorough": 4}, "C05": {"quick": 4, "thorough": 4}, "C06": {"quick": 5, "thorough": 5},
    "C07": {"quick": 10, "thorough": 10}, "C08": {"quick": 3, "thorough": 3}, "C09": {"quick": 2.5, "thorough": 2.5},
    "C10": {"quick": 4, "thorough": 4}, "C11": {"quick": 2.5, "thorough": 2}, "C12": {"quick": 0.6, "thorough": 0.3}, "C13": {"quick": 2.5, "thorough": 2.5}, "C18": {"quick": 4, "thorough": 4},
    "C19": {"quick": 4, "thorough": 4}, "C20": {"quick": 2, "thorough": 2}, "C22": {"quick": 4, "thorough": 3}, "C24": {"quick": 2.5, "thorough": 1.5}, "C25": {"quick": 2, "thorough": 1}, "C26": {"quick": 4, "thorough": 4}, "C27": {"quick": 3, "thorough": 3},
}
