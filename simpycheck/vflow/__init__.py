"""Value-flow analysis: a path-sensitive abstract interpretation of the package's source.

Domain: every expression value is abstracted to (set of possible kinds, value-number term); lists are k-limited; booleans are predicate literals.
Transfer functions are those of the Python statements/expressions found in the syntax tree; calls to the library's public operations are
replaced by their contract (assume/guarantee), other package functions are analysed in their caller's context.  Nothing of the repository is
imported or executed, and no path condition is handed to a solver: at each return site the value-number term of the result is compared
with the term demanded by the property by random interpretation (Gulwani & Necula), restricted to assignments consistent with the facts that
dominate the return site.
"""
