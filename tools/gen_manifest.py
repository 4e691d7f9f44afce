"""Writes /verif/MANIFEST.json from the table of checks below (claimed: id -> (technique, note))."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.join(HERE, "..")
CLAIMED = {
    "C16": ("return-kind and exception-flow lint over the resolved syntax tree; path-sensitive abstract interpretation of the operations that must refuse",
            "Every return site, raise, bare constructed exception and handler of the package is classified: no path may yield an exception, message or placeholder where other paths yield a result, and no catch-all handler may swallow failures."),
    "C20": ("set-order and nondeterminism taint analysis (def-use chains)",
            "Every use of a set's iteration order and every read of randomness, clock, hashes, environment is enumerated and followed to where it is consumed."),
    "C17": ("exception-flow and effect lint on assert statements over the resolved syntax tree",
            "No handler may catch an assertion failure raised by package code, and no assert expression may have an effect later code relies on; every assert and every handler of the package is enumerated."),
    "C18": ("who-may-call / effect analysis over the call graph with debug guards",
            "Every call site and statement with an outside effect (output, files, process-wide settings, processes) is enumerated; each must be dominated by a debug guard or unreachable from public entry points without one."),
    "C19": ("import-closure and language-feature compatibility lint (version tables)",
            "Imports executed without calling development functions, and syntax/stdlib/dataclass features used, compared with per-version tables for CPython 3.8 to 3.14."),
}
VF = "path-sensitive abstract interpretation of the source (kinds x value-number terms x predicate literals) with assume-guarantee contracts; value numbers compared by random interpretation"
CLAIMED.update({
    "C03": ("name resolution, path-sensitive definite assignment, attribute and signature checks per kind; " + VF, "Every name, own attribute and resolvable call of the package is checked for every kind it can meet and every interface operation for every kind; then the obligations of the other value checks are explored again and no feasible path may end in an AttributeError, NameError, UnboundLocalError, KeyError, NotImplementedError or a call that does not fit."),
    "C02": ("state and effect analysis: enumeration of every place that outlives a call, dependency (def-use) analysis of remembered values against their keys", "Every default argument, module- or class-level value, memo field, keyed table and caching decorator is enumerated; nothing computed in one call may be kept under a key that leaves out something it depends on, no shared container may be changed by a call, and remembered lists handed out may not be changed by callers."),
    "C01": ("ownership analysis (reaching definitions, list ownership summaries across calls); " + VF, "Every store to a field and every list-changing operation is followed to whose object it is; then the obligations of the other value checks are explored again and no feasible path may store to an expression that existed before, change a list it holds or a list handed in, or initialise an existing object again."),
    "C06": (VF + "; float-provenance tracking", "The value obligations of the operators, derivatives, trigonometry, simplification, powers, polynomials, expansion and definite integrals explored again with exact numbers only: no number built from exact numbers may pass through floating point or become a Float; the conversions themselves are evaluated on large numbers."),
    "C04": (VF, "The Sum and Prod constructors interpreted on operand lists of many shapes for every order and bracketing of up to three operands (several of four): every result must be the same flattened, merged expression; the sort comparison must be a strict total order. Two known findings are listed."),
    "C15": (VF, "__repr__ and latex() interpreted for every kind of operand in every operand position (two levels of nesting, numbers of every sign and form); the text, parsed with a reference grammar, must denote the value of the expression."),
    "C05": (VF, "Every operator and number method, for every pair of operand kinds, is an obligation; each return value's value number is compared with the arithmetic operation."),
    "C07": (VF, "Every kind's diff method and diff() is an obligation: the returned value number must be the derivative of the object's value number."),
    "C08": (VF, "Substitution, evaluation, containment and the replacement walkers, per kind, are obligations: the value number of each result must be the homomorphic image of the operand's."),
    "C09": (VF, "Every trigonometric constructor on an arbitrary argument and on multiples of pi/12 is an obligation; one known finding (atan of cot) is listed."),
    "C10": (VF, "Every simplification entry point and every rule given to a tree walker is an obligation (arbitrary operand, plus fixed shapes that reach deep branches): the result's value number must equal the operand's."),
    "C11": (VF, "Each transform of the integrator, on an unknown integrand and on shaped ones, and short chains of transforms, are obligations: the derivative of the solution assembled from the steps' solutions must be the integrand. Table entries likewise."),
    "C12": (VF, "The solved/failed/finished predicates on search trees of every small shape, the assembly of answers, the main loop and its classification are obligations: each must agree with the and-or reading of the tree."),
    "C13": (VF, "Each substitution step undone, two nested ones, two uses of one, and the function that names variables are obligations: the answer must not vary with an introduced variable; names must be random or depend on what they must avoid."),
    "C14": (VF, "integrate and integrate_bounds, for every way of passing variable and bounds and for malformed ones, are obligations, with the search replaced by an unknown antiderivative: value at the upper minus value at the lower bound, or an exception."),
    "C21": (VF + "; generated equalities by a rule on the class definitions", "The equality each kind ends up with (written: interpreted against every kind and foreign objects; generated: must compare every defining field), and equality up to a variable per kind, are obligations."),
    "C23": (VF, "Coefficient extraction, reassembly, trimming and 2x2 inversion on expressions and arrays of unknown and of fixed shape are obligations: coefficients must add up to the expression, what is no polynomial is refused, only zeros are trimmed, matrix times inverse is the identity."),
    "C24": (VF, "expand, _expand and factor of every kind are obligations (same value number), and the combinatorial helpers are evaluated on small constants."),
    "C25": (VF, "The pattern comparison and the counting walkers are interpreted, not assumed, on sums, products, powers and logarithms built around the patterns in use with unknown parts: pattern, matches, factor and rest must have the expression's value number; counts must agree with the structure."),
    "C22": (VF, "The power, logarithm, absolute value and square root constructors for every pair of operand kinds are obligations; one known finding (even root sign) is listed."),
})
NA = {
    "N01": "Whether the search as a whole returns a correct antiderivative for an arbitrary integrand depends on which rewrites fire on runtime expressions; no static argument bounds that. The per-step part is C10/C11.",
    "N02": "That a match is found whenever one exists quantifies over the joint structure of expression and pattern with backtracking driven by runtime shapes (the matcher is deliberately incomplete); the soundness half is C25.",
    "N03": "Termination and running time of mutually recursive rewriting depend on runtime expression growth; there is no syntactic measure in the code that decreases.",
    "N04": "Size change depends on which terms merge at run time for the concrete operands.",
    "N05": "Rounding-error bounds of nested double arithmetic depend on run-time magnitudes.",
}
PENDING = "check not built yet in this revision"
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3-vt -B tools/setup_check.py", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in CLAIMED:
        t, n = CLAIMED[i]
        m["checks"].append(dict(property=i, quick_cmd=f"python3-vt -B -m simpycheck {i}",
            thorough_cmd=f"python3-vt -B -m simpycheck {i} --thorough", technique=t, level="other", level_note=n))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, PENDING)))
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed")
