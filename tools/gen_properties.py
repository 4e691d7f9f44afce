"""Writes /verif/properties.jsonl (kept as code so that the wording lives in one readable place)."""
import json, os
E = "src/simpy/expr.py"; R = "src/simpy/regex.py"; T = "src/simpy/transforms.py"; I = "src/simpy/integration.py"
S = "src/simpy/simplify/simplify.py"; P2S = "src/simpy/simplify/product_to_sum.py"; P = "src/simpy/polynomial.py"
L = "src/simpy/linalg.py"; U = "src/simpy/utils.py"; TAB = "src/simpy/integral_table.py"; LX = "src/simpy/latex.py"
CO = "src/simpy/combinatorics.py"; DBG = "src/simpy/debug"
props = []
def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    props.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe)))

p("C01", "Expressions are immutable once built",
  "No operation of the library changes an expression that already exists, nor a list of terms a caller handed in: building, combining, printing, simplifying, differentiating or integrating leaves every earlier expression (and every sub-expression it shares) with the same structure and value. Building an expression never re-initialises an existing object that merely happens to be the simplified result.",
  ["histories", "inputs"], "every sequence of library calls over every expression, including expressions that share sub-expressions",
  "Tests compare results, never the operands afterwards; aliasing bugs need a later use of a shared operand, and there are unboundedly many sequences.",
  [E, R, T, S, P2S, P, TAB], [("documented rule 'Exprs shall NOT be mutated in place'", E), ("constructors fill only the fresh instance", E), ("term lists copied before being combined", E)],
  ["fields and term lists of any previously obtained expression"])
p("C02", "Results do not depend on what was computed before",
  "An operation's result depends only on its arguments, never on which calls were made earlier in the process: remembered results are kept separately for every object, class and argument they depend on, default arguments and tables are never altered by a call, and one integration leaves nothing behind that influences the next one.",
  ["histories"], "every history of earlier calls in the same process",
  "Each test runs one short history; a stale or shared cache only shows when a particular second call follows a particular first one.",
  [E, R, T, I, P], [("per-object memo fields", E), ("per-class special value cache", E), ("per-call integration state", I)],
  ["result of a call after different call histories"])
p("C03", "No internal programming error can surface",
  "Using the public API never dies of a defect of the program text itself: no undefined or possibly unassigned name, no attribute that the object's kind does not have or that its construction path left unset, no call with arguments the callee cannot take, and no operation left unimplemented by some kind of expression that can occur.",
  ["inputs", "programs"], "every control-flow path of every function and every constructor path of every kind of expression",
  "Tests execute a fraction of the paths; rare kinds (infinities, floats, logs with a base, inverse functions) meet rare operations only outside the tests.",
  [E, R, T, I, S, P2S, P, L, U, TAB, LX, CO], [("constructors and post-initialisation", E), ("abstract interface implemented per kind", E)],
  ["exceptions NameError, UnboundLocalError, AttributeError, argument TypeError, NotImplementedError"])
p("C04", "Sums and products do not depend on operand order or grouping",
  "Building a sum or a product gives the same canonical expression whatever order the operands are supplied in and however they are grouped into nested sums or products: nested operands are flattened, like terms are merged, and the remaining terms are put in one fixed order before the object exists. The ordering used is a strict total order on distinct terms, so sorting cannot depend on the starting order.",
  ["inputs"], "every multiset of operands, every permutation and every bracketing",
  "Tests try a few permutations of small sums; permutations and bracketings grow factorially.",
  [E], [("flatten, combine, sort in the constructors", E), ("term comparison", E)], ["equality and printed form of sums/products built in different orders"])
p("C05", "Operators and numbers mean what they mean in mathematics",
  "Adding, subtracting, multiplying, dividing, negating, taking powers or absolute values with the Python operators - in either operand order, between expressions and plain numbers, and for every kind of number - yields an expression whose value is exactly that operation applied to the operands' values. Comparisons, floor division, remainder, sign, numerator, denominator and reciprocal of numbers agree with the numbers' values.",
  ["inputs"], "every pair of operands of every kind",
  "Tests use a few small integers and one or two fractions; sign, order and kind combinations are mostly untested.",
  [E], [("operator methods of every kind", E), ("constant accumulation", E)], ["value of the result of an operator"])
p("C06", "Rational arithmetic is exact",
  "As long as a computation involves only integers and fractions, every numeric value that ends up in the result is computed with exact integer or fraction arithmetic and is never rounded through floating point, however large the numbers are.",
  ["inputs"], "every rational input, of any size",
  "Tests use numbers small enough for a float to represent exactly.",
  [E, CO, P, L, T, P2S], [("fraction arithmetic in the number classes", E), ("constant power folding", E), ("multinomial coefficients", CO)], ["numerators and denominators of results"])
p("C07", "Differentiation follows the rules of calculus for every kind of expression",
  "For every kind of expression and every variable, the derivative returned equals the true derivative, including the chain-rule factor, every factor of a product, every term of a sum, exponents or bases that depend on the variable, and logarithms to any base; where no rule is provided the library refuses instead of answering. Differentiating without naming a variable is accepted only when exactly one variable occurs.",
  ["inputs"], "every expression and every variable (any nesting)",
  "Tests differentiate a handful of formulas; a dropped factor matters only for inner expressions that tests do not use.",
  [E], [("derivative rule of each kind", E), ("top-level differentiation entry", E)], ["value of the derivative"])
p("C08", "Substitution and replacement reach every part and nothing else",
  "Substituting values for variables, replacing a sub-expression, replacing function kinds, and numeric evaluation act on every operand of every kind of expression (including logarithm bases and exponents), and rebuild the same kind of expression from the processed operands, leaving everything else unchanged. Replacing a variable by a value and then evaluating gives the same number as evaluating at that value.",
  ["inputs"], "every expression, every position inside it and every substitution",
  "Tests substitute in a few shapes; one skipped child of one kind is invisible unless that shape is used.",
  [E, R, U], [("substitution/evaluation method of each kind", E), ("generic replacement walkers", R)], ["result of subs, evalf, replace"])
p("C09", "Trigonometric construction preserves values",
  "Building a trigonometric or inverse trigonometric function returns an expression of the same value at every argument where it is defined: the tabulated special angles are exact, sign changes follow the function's parity, only true periods are removed, and a function applied to an inverse function gives the correct algebraic form.",
  ["inputs"], "every argument: all special angles, all integer multiples of pi, all compositions of the twelve function pairs",
  "Tests look up a few angles and a few compositions out of several hundred combinations.",
  [E], [("special value tables", E), ("parity/period/composition rewriting in constructors", E)], ["value of sin, cos, tan, sec, csc, cot, asin, acos, atan of any argument"])
p("C10", "Every simplification rewrite is an identity",
  "Each rewrite that simplification applies - Pythagorean identities, reciprocal and quotient identities, product-to-sum, logarithm laws, common denominators, secant/tangent rewriting - replaces an expression by one with the same value wherever both are defined (logarithm laws: for positive arguments), with the factor and remaining terms of the matched expression carried over intact.",
  ["inputs"], "every expression on which a rewrite fires, for every value of its variables",
  "Tests check a few textbook instances; coefficients, extra terms, bases and exponents around the matched pattern vary without bound.",
  [S, P2S, R], [("rewrite rules with their guards", S), ("product-to-sum formulas", P2S), ("generic replacement walkers", R)], ["value before and after simplification"])
p("C11", "Every integration step is mathematically valid",
  "Each step an integration can take - table lookup, linearity, substitution of any kind, integration by parts, partial fractions, polynomial division, completing the square, rewriting - turns the answer of the derived problem(s) into an answer of the original one: if the derived answers differentiate to the derived integrands, the combined answer differentiates to the original integrand. Tabulated antiderivatives differentiate to their integrands.",
  ["inputs"], "every integrand a step accepts and every solution of the derived problems",
  "Tests integrate about sixty functions; each step accepts an unbounded family and its side conditions are exercised by one or two members.",
  [T, TAB, P, L, E], [("forward/backward pairs of each step", T), ("table of integrals", TAB)], ["derivative of the returned antiderivative"])
p("C12", "An answer is returned only when the search really found one",
  "A problem counts as solved only if it has an answer itself or, for alternatives, some alternative is solved or, for joint sub-problems, all of them are; it counts as failed only dually. If the search ends without an answer the caller gets no answer plus a warning rather than a partial or wrong one, and answers are combined only after all the joint sub-problems they need have answers.",
  ["inputs", "schedules"], "every search tree shape and every order in which sub-problems get finished",
  "Tests see the trees of the integrals they contain; mixed solved/failed/unfinished trees in all orders are never enumerated.",
  [I, T], [("solved/failed predicates of search nodes", T), ("main search loop and final assembly", I)], ["return value and warning of an integration"])
p("C13", "Helper variables never leak into answers",
  "The fresh variables introduced internally for substitutions never appear in an answer handed to the caller: whenever a sub-problem is posed in a new variable, the step that posed it writes the answer back in terms of the old variable, and each such variable has a fresh name.",
  ["inputs", "histories"], "every chain of substitutions the search may take",
  "Tests compare a few final answers; a leak needs a particular chain of steps.",
  [T, I, U], [("substitution steps store the replaced quantity and undo it", T), ("fresh name generation", U)], ["symbols of a returned antiderivative"])
p("C14", "Definite integrals are the antiderivative's difference at the bounds",
  "A definite integral is the antiderivative at the upper bound minus the antiderivative at the lower bound, both taken in the variable of integration. The variable may be omitted only when the integrand has exactly one; otherwise, and for malformed bounds, the call is rejected, and an integrand that cannot be integrated gives no value.",
  ["inputs"], "every integrand, every pair of bounds and every way of passing them",
  "Tests use a dozen definite integrals, mostly with one variable and increasing bounds.",
  [I], [("argument handling of the public entry", I), ("bounds evaluation", I)], ["value of definite integrals"])
p("C15", "Printed expressions are unambiguous",
  "The text form of an expression, read with the usual precedence and associativity of + - * / ^, denotes the same value as the expression: brackets appear wherever an operand's own operator would otherwise be read differently, signs are never lost or doubled, and different kinds of functions print differently.",
  ["inputs"], "every nesting of every kind inside every operand position",
  "Tests print a few dozen expressions; parent/child/position combinations number in the hundreds.",
  [E, LX], [("text methods of each kind and their bracket conditions", E)], ["repr of any expression"])
p("C16", "Failures are raised, never returned or swallowed",
  "An operation that cannot be carried out says so by raising: it never returns an exception object, an error message or a placeholder in place of a result, never builds an error without raising it, and never hides an unexpected failure behind a catch-all handler.",
  ["inputs", "fault_sequences"], "every failing path of every function",
  "Failing inputs are mostly absent from the tests, so what a failing path returns is unobserved.",
  [E, R, T, I, CO, P, L, S], [("error returns and handlers", E)], ["return values on failing inputs"])
p("C17", "Behaviour does not depend on assertions being enabled",
  "Running the interpreter with assertions disabled changes no result for inputs the library accepts: no decision is taken by catching a failed assertion, and no assertion performs work that later code relies on.",
  ["configurations"], "both interpreter modes, every input",
  "The tests run in one mode only, with assertions enabled.",
  [P, T, E, R, S], [("polynomial recognition by exception", P), ("handlers of assertion failures", T)], ["results under python -O"])
p("C18", "The library is quiet and leaves process-wide settings alone",
  "Outside explicitly requested debugging, importing or using the library prints nothing, reads or writes no files, waits for no input, starts no debugger or process, and changes no process-wide setting (recursion limit, warning filters, random seed, number formatting, environment).",
  ["histories", "inputs"], "every call path that does not ask for debugging",
  "Tests do not look at standard output, files or interpreter settings.",
  [E, R, T, I, S, P2S, P, L, U, TAB, LX, CO, DBG + "/tree.py", DBG + "/logger.py"], [("debug guards in the search", I)], ["stdout, file system, interpreter settings"])
p("C19", "Runs on every supported interpreter with only the declared dependency",
  "The package imports and works on every supported Python version (3.8 and later) with numpy as the only third-party package: it uses no syntax, standard-library function or behaviour that some supported version lacks, and needs development-only packages only in functions meant for development.",
  ["configurations"], "every supported interpreter version and a minimal installation",
  "The tests run on a single interpreter with all development packages installed.",
  [E, R, T, I, S, P2S, P, L, U, TAB, LX, CO], [("imports and language features used", E)], ["import and use under other interpreters"])
p("C20", "Results are deterministic",
  "The same call gives the same result in every process: no result depends on the iteration order of sets, on hash seeds, memory addresses, random numbers or the clock, except that an integration may give up after its time limit.",
  ["configurations", "histories"], "every hash seed, random state and clock reading",
  "Tests run with one fixed hash seed and short expressions, so order effects do not show.",
  [E, R, U, I, T], [("symbol collection", E), ("fresh-name generation", U)], ["order and content of results"])
p("C21", "Structural equality is a true equivalence",
  "Comparing two expressions for equality never raises, is reflexive, symmetric and transitive, distinguishes kinds, and takes every defining part of an expression into account, so equal expressions are interchangeable; the same holds for equality up to renaming of a variable.",
  ["inputs"], "every pair and triple of expressions, of equal or different kinds, and foreign objects",
  "Tests compare results to expected values, almost always of the same kind.",
  [E, R, U], [("equality method of each kind", E), ("equality up to a variable", U)], ["== between any two objects"])
p("C22", "Building powers, logarithms and absolute values preserves value",
  "Building a power, a logarithm or an absolute value returns an expression with the value of that operation for positive real operands (and for all rational bases, signs included, wherever the power is real): exponent laws, reciprocals, cancellation of a logarithm against its base, extraction of rational roots and signs are exact.",
  ["inputs"], "every base, exponent and logarithm base",
  "Tests cover a few numeric roots and a few symbolic laws of an unbounded family.",
  [E], [("simplification branches in the constructors", E), ("constant power folding", E)], ["value of constructed powers, logs and absolute values"])
p("C23", "Polynomial helpers are exact inverses of each other",
  "Recognising an expression as a polynomial yields exactly its coefficients in ascending order (and refuses what is not a polynomial), turning coefficients back gives the same expression, trimming removes only leading zeros, and inverting a 2x2 matrix gives its inverse or reports singularity.",
  ["inputs"], "every polynomial of every degree with rational or symbolic constants",
  "Tests convert a handful of low-degree polynomials.",
  [P, L], [("coefficient extraction and reconstruction", P), ("matrix inversion", L)], ["coefficients and reconstructed expressions"])
p("C24", "Expanding and factoring preserve value",
  "Expanding or factoring any expression yields an expression with the same value: every combination of terms is produced with its right multinomial coefficient, denominators and negative powers included, and the common factor taken out is divided out of every term.",
  ["inputs"], "every expression, any number of terms and any integer power",
  "Tests expand small powers of two or three terms.",
  [E, CO], [("expansion of sums, products and powers", E), ("multinomial coefficients", CO), ("common factor extraction", E)], ["value before and after expand/factor"])
# not applicable
p("N01", "Integration answers differentiate back to the integrand, end to end",
  "Whenever an antiderivative is returned, differentiating it gives back the integrand for all values of the variable.",
  ["inputs"], "every integrand", "Only about sixty integrands are tested.", [I, T], [("whole search", I)], ["derivative of the returned antiderivative"])
p("N02", "Pattern matching is sound and finds every match",
  "If a pattern with wildcards is reported to match, substituting the reported parts reproduces the expression, and a match that exists is found.",
  ["inputs"], "every expression and pattern", "Only a few patterns are tested.", [R], [("pattern matcher", R)], ["match results"])
p("N03", "Every call terminates within a reasonable time",
  "Building, simplifying and printing terminate, and an integration gives up within its time limit.",
  ["inputs", "schedules"], "every expression", "Only small inputs are timed.", [I, S, E], [("time limit check between steps", I)], ["running time"])
p("N04", "Simplification never makes an expression larger",
  "Simplifying returns an expression that is no more complex than its input and simplifying again changes nothing.",
  ["inputs"], "every expression", "Only a few expressions are simplified.", [S], [("size comparison", S)], ["size of the simplified expression"])
p("N05", "Numeric evaluation is accurate to double precision",
  "Evaluating an expression numerically gives the true value to within a few units of double rounding error.",
  ["inputs"], "every expression and point", "Only a few points are evaluated.", [E], [("float evaluation", E)], ["evalf results"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in props:
        f.write(json.dumps(x) + "\n")
print(len(props))
